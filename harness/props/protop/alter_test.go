package protop

import (
	"bytes"
	"sort"

	"pgregory.net/rapid"

	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/pbt"
)

// alter says how a message is altered on its way.
type alter struct {
	How   string
	Pos   int
	Len   int
	Bytes pbt.Bytes
}

func genAlter(rt *rapid.T, hows ...string) alter {
	a := alter{How: rapid.SampledFrom(hows).Draw(rt, "how")}
	a.Pos = rapid.IntRange(0, 400).Draw(rt, "pos")
	a.Len = rapid.IntRange(1, 40).Draw(rt, "len")
	a.Bytes = rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(rt, "bytes")
	return a
}

// bytewise are the alterations that need nothing but the message.
var bytewise = []string{"flip", "flip", "flip", "set", "cut", "cut", "extend", "insert", "delete", "zero", "empty", "replace"}

func (a alter) apply(m []byte) []byte {
	at := 0
	if len(m) > 0 {
		at = a.Pos % len(m)
	}
	r := append([]byte{}, m...)
	switch a.How {
	case "flip":
		if len(r) > 0 {
			x := a.Bytes[0]
			if x == 0 {
				x = 1 << (a.Len % 8)
			}
			r[at] ^= x
		}
	case "set":
		copy(r[at:], a.Bytes)
	case "zero":
		for i := at; i < len(r) && i < at+a.Len; i++ {
			r[i] = 0
		}
	case "cut":
		r = r[:at]
	case "cutend":
		if len(r) > 0 {
			r = r[:len(r)-1-a.Len%len(r)]
		}
	case "extend":
		r = append(r, a.Bytes...)
	case "insert":
		r = append(append(append([]byte{}, m[:at]...), a.Bytes...), m[at:]...)
	case "delete":
		e := at + a.Len
		if e > len(m) {
			e = len(m)
		}
		r = append(append([]byte{}, m[:at]...), m[e:]...)
	case "empty":
		r = []byte{}
	case "replace":
		r = append([]byte{}, a.Bytes...)
	}
	return r
}

// trailing tells whether altered is m with something after it.
func trailing(m, altered []byte) bool { return bytes.HasPrefix(altered, m) }

func victims(rt *rapid.T, n int) []bool {
	return rapid.SliceOfN(rapid.Bool(), n, n).Draw(rt, "victims")
}

// isVictim tells whether data of from is altered on its way to v. The party after from always is one.
func isVictim(vs []bool, from, v int) bool {
	return v != from && v < len(vs) && (v == (from+1)%len(vs) || vs[v])
}

// took returns the data of round k that p has got from every other party and not refused.
func took(p *cluster.Party, k int) map[int][]byte {
	r := map[int][]byte{}
	if k >= len(p.Rounds) {
		return r
	}
	for _, h := range p.Rounds[k].Handed {
		if h.Err == nil {
			r[h.From] = h.Given
		}
	}
	return r
}

func sorted(m map[int][]byte) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
