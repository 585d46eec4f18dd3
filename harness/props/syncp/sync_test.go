// Package syncp: properties C14-C17 of the synchronous rounds.
package syncp

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"

	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/pbt"
	"verif.local/harness/internal/vnet"
)

func TestProps(t *testing.T) { pbt.Main(t) }

// ---- messages and links ----

// Links are the configurations of the directed connections, used cyclically.
type Links []vnet.Link

func (l Links) of(n int) func(from, to int) vnet.Link {
	return func(from, to int) vnet.Link {
		if len(l) == 0 {
			return vnet.Link{}
		}
		return l[(from*n+to)%len(l)]
	}
}

func genLinks(rt *rapid.T) Links {
	var ls Links
	for i := rapid.IntRange(0, 4).Draw(rt, "links"); i > 0; i-- {
		var l vnet.Link
		l.Frag = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 17, 64, 1000}), 0, 4).Draw(rt, "frag")
		l.Delay = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 100, 999, 1000, 1001, 5000}), 0, 3).Draw(rt, "delay")
		l.Cap = rapid.SampledFrom([]int{0, 0, 1, 7, 8, 9, 100, 4096}).Draw(rt, "cap")
		if l.Cap > 0 && l.Cap < 4096 {
			// every piece is delayed, so that the round would take longer than its duration
			l.Delay = nil
		}
		l.Dial = rapid.SampledFrom([]int{0, 0, 1, 1000, 50000}).Draw(rt, "dial")
		l.Refuse = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(rt, "refuse")
		l.Eager = rapid.Bool().Draw(rt, "eager")
		ls = append(ls, l)
	}
	return ls
}

func (l Links) nonTrivial() bool {
	for _, x := range l {
		if len(x.Frag)+len(x.Delay)+x.Cap+x.Dial+x.Refuse > 0 {
			return true
		}
	}
	return false
}

// RoundC describes what is sent in one round; the lists are used cyclically.
type RoundC struct {
	Individual []bool // by party
	Size       []int  // by from*n+to, or from for broadcasts
	Content    int    // 0: pseudo-random, 1: zeros, 2: ones, 3: the same in every round, 4: looks like a frame
	Skew       []int  // microseconds that a party waits before the round
}

func genRound(rt *rapid.T, large bool) RoundC {
	var r RoundC
	r.Individual = rapid.SliceOfN(rapid.Bool(), 1, 4).Draw(rt, "individual")
	size := rapid.Custom(func(rt *rapid.T) int {
		switch rapid.IntRange(0, 9).Draw(rt, "size-kind") {
		case 0, 1:
			return 0
		case 2:
			return rapid.SampledFrom([]int{1, 2, 7, 8, 9, 10, 11, 17, 18, 255, 256, 257}).Draw(rt, "size")
		case 3:
			if large {
				return rapid.SampledFrom([]int{4078, 4086, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 100000}).Draw(rt, "size")
			}
		}
		return rapid.IntRange(0, 80).Draw(rt, "size")
	})
	r.Size = rapid.SliceOfN(size, 1, 6).Draw(rt, "sizes")
	r.Content = rapid.IntRange(0, 4).Draw(rt, "content")
	r.Skew = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 500, 999, 1000, 1001, 3000, 20000}), 0, 3).Draw(rt, "skew")
	return r
}

func at[T any](l []T, i int) (x T) {
	if len(l) == 0 {
		return x
	}
	return l[i%len(l)]
}

// msg is the message of from to to in round k.
func (r RoundC) msg(seed uint64, n, k, from, to int) []byte {
	i := from
	if at(r.Individual, from) && n > 1 {
		i = from*n + to
	}
	b := make([]byte, at(r.Size, i))
	switch r.Content {
	case 1:
	case 2:
		for j := range b {
			b[j] = 0xff
		}
	case 3:
		fill(b, seed, uint64(i), 0)
	case 4:
		f := frame(from, k, b)
		copy(b, f)
	default:
		fill(b, seed, uint64(i), uint64(k)+1)
	}
	return b
}

func fill(b []byte, s ...uint64) {
	var h uint64 = 14695981039346656037
	for _, x := range s {
		h = (h ^ x) * 1099511628211
		h ^= h >> 29
	}
	r := rand.New(rand.NewPCG(h, 1))
	for i := range b {
		b[i] = byte(r.Uint32())
	}
}

// out is the argument of Round.
func (r RoundC) out(seed uint64, n, k, from int) [][]byte {
	if !at(r.Individual, from) || n == 1 {
		return [][]byte{r.msg(seed, n, k, from, 0)}
	}
	res := make([][]byte, n)
	for to := range res {
		if to == from && k%2 == 0 {
			continue
		}
		res[to] = r.msg(seed, n, k, from, to)
	}
	return res
}

// carve lays the messages side by side in one buffer, as a caller may that writes them all into one.
func carve(msgs [][]byte) [][]byte {
	var all []byte
	for _, m := range msgs {
		all = append(all, m...)
	}
	res := make([][]byte, len(msgs))
	for i, m := range msgs {
		if m != nil {
			res[i], all = all[:len(m)], all[len(m):]
		}
	}
	return res
}

// frame is a message on the wire.
func frame(id, round int, payload []byte) []byte {
	b := binary.LittleEndian.AppendUint64(nil, uint64(10+len(payload)))
	b = binary.LittleEndian.AppendUint16(b, uint16(id))
	b = binary.LittleEndian.AppendUint64(b, uint64(round))
	return append(b, payload...)
}

func short(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%x… (%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// delivered requires that a round delivered exactly what everybody sent.
func delivered(t *pbt.T, p *cluster.Party, k int, want func(from int) []byte) {
	ev := p.Rounds[k]
	t.Check(ev.Err == nil, "party %d, round %d: error although all parties took part: %v", p.Pid, k, ev.Err)
	t.Check(len(ev.From(p.Pid)) == 0, "party %d, round %d: check called for the party itself", p.Pid, k)
	for from := 0; from < p.N; from++ {
		if from != p.Pid {
			once(t, p, k, from, want(from))
		}
	}
	t.Check(len(ev.Handed) == p.N-1, "party %d, round %d: check called %d times", p.Pid, k, len(ev.Handed))
}

func once(t *pbt.T, p *cluster.Party, k, from int, want []byte) {
	h := p.Rounds[k].From(from)
	t.Check(len(h) == 1, "party %d, round %d: check called %d times for party %d, error %v", p.Pid, k, len(h), from, p.Rounds[k].Err)
	t.Check(bytes.Equal(h[0].Data, want), "party %d, round %d: check got %s from party %d, which sent %s", p.Pid, k, short(h[0].Data), from, short(want))
}

// ---- C14, C15: honest rounds ----

// Honest is a sequence of rounds in which everybody takes part.
type Honest struct {
	N      int
	Seed   uint64
	Links  Links
	Rounds []RoundC
	Repeat int // the sequence is gone through so often
	Reject []int
}

func (c Honest) total() int { return len(c.Rounds) * c.Repeat }

func (c Honest) round(k int) RoundC { return c.Rounds[k%len(c.Rounds)] }

// rejects tells whether the check of party v answers data of party from with an error.
func (c Honest) rejects(v, k, from int) bool {
	if len(c.Reject) == 0 {
		return false
	}
	var b [2]byte
	fill(b[:], c.Seed, uint64(v), uint64(k), uint64(from))
	return int(b[0]) < at(c.Reject, k)
}

var errReject = errors.New("rejected by the check")

func runHonest(t *pbt.T, c Honest) {
	cl, hang := cluster.Run(cluster.Config{N: c.N, NoBaton: true, Link: c.Links.of(c.N)}, func(p *cluster.Party, s sync.Server) error {
		for k := 0; k < c.total(); k++ {
			r := c.round(k)
			if d := at(r.Skew, p.Pid); d > 0 {
				time.Sleep(time.Duration(d) * time.Microsecond)
			}
			given := r.out(c.Seed, c.N, k, p.Pid)
			if k%3 == 1 {
				given = carve(given)
			}
			s.Round(given, func(from uint16, data []byte) error {
				if c.rejects(p.Pid, k, int(from)) {
					return errReject
				}
				return nil
			})
			kept := r.out(c.Seed, c.N, k, p.Pid)
			for i := range kept {
				if len(given) != len(kept) || string(given[i]) != string(kept[i]) {
					t.Failf("round %d changed message %d of %d that party %d gave it to be sent, from %s to %s", k, i, len(kept), p.Pid, short(kept[i]), short(at(given, i)))
				}
			}
		}
		return nil
	})
	cl.Judge(t, hang)
	for _, p := range cl.Parties {
		t.Check(len(p.Rounds) == c.total(), "party %d took part in %d rounds of %d", p.Pid, len(p.Rounds), c.total())
		for k := range p.Rounds {
			want := func(from int) []byte { return c.round(k).msg(c.Seed, c.N, k, from, p.Pid) }
			var rejected []int
			for from := 0; from < c.N; from++ {
				if from != p.Pid && c.rejects(p.Pid, k, from) {
					rejected = append(rejected, from)
				}
			}
			if len(rejected) == 0 {
				delivered(t, p, k, want)
				continue
			}
			t.Label("some data rejected")
			ev := p.Rounds[k]
			t.Check(ev.Err != nil, "party %d, round %d: no error although the check rejected data of %v", p.Pid, k, rejected)
			t.Check(ev.IsRound, "party %d, round %d: the error is no round error: %v", p.Pid, k, ev.Err)
			t.Check(sameSet(ev.Missing, rejected), "party %d, round %d: missing %v, rejected %v", p.Pid, k, ev.Missing, rejected)
			for from := 0; from < c.N; from++ {
				if from != p.Pid {
					once(t, p, k, from, want(from))
				}
			}
		}
	}
}

func sameSet(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[int]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		if !m[x] {
			return false
		}
	}
	return len(m) == len(b)
}

func genN(rt *rapid.T) int {
	switch rapid.IntRange(0, 11).Draw(rt, "n-kind") {
	case 0:
		return rapid.IntRange(1, 40).Draw(rt, "n")
	case 1:
		return rapid.IntRange(2, 12).Draw(rt, "n")
	}
	return rapid.IntRange(2, 5).Draw(rt, "n")
}

func init() {
	pbt.Facet("C14", "rounds", "1 to 6 rounds of 1 to 40 parties over links with generated pieces, delays, buffers, slow or refused dialling; every check call compared with what was sent; non-trivial: at least two parties and a link, size or skew that is not the plain one",
		4000, 200000,
		func(rt *rapid.T) Honest {
			c := Honest{N: genN(rt), Seed: rapid.Uint64().Draw(rt, "seed"), Links: genLinks(rt), Repeat: 1}
			m := 6
			if c.N > 12 {
				m = 2
			}
			for i := rapid.IntRange(1, m).Draw(rt, "rounds"); i > 0; i-- {
				c.Rounds = append(c.Rounds, genRound(rt, c.N < 8))
			}
			return c
		}, func(t *pbt.T, c Honest) {
			labels(t, c)
			runHonest(t, c)
		},
		Honest{N: 2, Repeat: 1, Rounds: []RoundC{{Size: []int{3 << 20}}}},
		Honest{N: 3, Repeat: 1, Links: Links{{Cap: 1000, Frag: []int{777}}}, Rounds: []RoundC{{Size: []int{300000, 0, 70000}, Individual: []bool{true}}}},
		Honest{N: 70, Repeat: 1, Rounds: []RoundC{{Size: []int{5}}}})
	pbt.Facet("C14", "crowd", "two rounds, with one message for all and with individual ones, of 257 to 300 parties: identifiers have more than one byte; non-trivial: always",
		0, 4,
		func(rt *rapid.T) Honest {
			return Honest{N: rapid.IntRange(257, 300).Draw(rt, "n"), Seed: rapid.Uint64().Draw(rt, "seed"), Repeat: 1, Rounds: []RoundC{genRound(rt, false), {Size: []int{9}, Individual: []bool{true}}}}
		}, func(t *pbt.T, c Honest) {
			t.NonTrivial()
			runHonest(t, c)
		},
		Honest{N: 258, Repeat: 1, Rounds: []RoundC{{Size: []int{5}}, {Size: []int{7}, Individual: []bool{true}}}})
	pbt.Facet("C15", "histories", "up to 900 rounds of 2 to 5 parties with changing messages, speeds and rejected data, and runs of 66000 rounds; every check call of every round compared with what was sent in that round; non-trivial: at least 10 rounds",
		400, 20000,
		func(rt *rapid.T) Honest {
			c := Honest{N: rapid.IntRange(2, 5).Draw(rt, "n"), Seed: rapid.Uint64().Draw(rt, "seed"), Links: genLinks(rt)}
			for i := rapid.IntRange(1, 30).Draw(rt, "rounds"); i > 0; i-- {
				c.Rounds = append(c.Rounds, genRound(rt, false))
			}
			c.Repeat = rapid.IntRange(1, 30).Draw(rt, "repeat")
			if rapid.Bool().Draw(rt, "rejecting") {
				c.Reject = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 10, 100, 256}), 1, 5).Draw(rt, "reject")
			}
			return c
		}, func(t *pbt.T, c Honest) {
			labels(t, c)
			if c.total() >= 10 {
				t.NonTrivial()
			}
			if c.total() > 256 {
				t.Label("more than 256 rounds")
			}
			if c.total() > 65536 {
				t.Label("more than 65536 rounds")
			}
			runHonest(t, c)
		},
		Honest{N: 2, Seed: 5, Repeat: 33000, Rounds: []RoundC{{Size: []int{4}}, {Size: []int{3, 0, 6}, Individual: []bool{true}, Content: 3}}})
}

func labels(t *pbt.T, c Honest) {
	nt := c.Links.nonTrivial()
	for _, r := range c.Rounds {
		for _, s := range r.Size {
			if s == 0 {
				t.Label("empty messages")
				nt = true
			}
			if s > 4000 {
				t.Label("large messages")
				nt = true
			}
		}
		for _, s := range r.Skew {
			if s > 0 {
				t.Label("parties of different speed")
				nt = true
			}
		}
		for _, i := range r.Individual {
			if i {
				t.Label("individual messages")
			} else {
				t.Label("broadcast")
			}
		}
	}
	for _, l := range c.Links {
		if len(l.Frag) > 0 {
			t.Label("fragmented")
		}
		if l.Cap > 0 {
			t.Label("bounded buffers")
		}
	}
	if c.N > 12 {
		t.Label("more than 12 parties")
	}
	if c.N == 1 {
		t.Label("one party")
	}
	if nt && c.N > 1 && t.Facet == "rounds" {
		t.NonTrivial()
	}
}

// ---- C16: faults ----

// Fault is something that goes wrong.
type Fault struct {
	Kind   string // crash, cut, reject
	P      int    // the party that crashes, the sender of the link, the sender whose data is rejected
	V      int    // the receiver
	K      int    // the round
	M      int    // bytes after which the link is cut, counted from the beginning of the round
	Reset  bool
	Silent bool
}

// Faulty is a sequence of rounds with faults.
type Faulty struct {
	N      int
	Seed   uint64
	Links  Links
	Rounds []RoundC
	Faults []Fault
}

func init() {
	pbt.Facet("C16", "faults", "2 to 6 rounds with up to 4 crashes, connections cut after any number of bytes (with EOF, reset or silently) and data rejected by the check; the list of missing parties and everything handed over compared with a model; non-trivial: some party must be reported and some data handed over in the same round",
		20000, 600000,
		func(rt *rapid.T) Faulty {
			c := Faulty{N: rapid.IntRange(2, 6).Draw(rt, "n"), Seed: rapid.Uint64().Draw(rt, "seed"), Links: genLinks(rt)}
			for i := rapid.IntRange(1, 6).Draw(rt, "rounds"); i > 0; i-- {
				c.Rounds = append(c.Rounds, genRound(rt, false))
			}
			for i := rapid.IntRange(1, 4).Draw(rt, "faults"); i > 0; i-- {
				f := Fault{P: rapid.IntRange(0, c.N-1).Draw(rt, "p"), V: rapid.IntRange(0, c.N-1).Draw(rt, "v"), K: rapid.IntRange(0, len(c.Rounds)-1).Draw(rt, "k")}
				if f.V == f.P {
					f.V = (f.P + 1) % c.N
				}
				f.Kind = rapid.SampledFrom([]string{"crash", "cut", "cut", "reject", "reject"}).Draw(rt, "kind")
				if f.Kind == "cut" {
					f.M = rapid.SampledFrom([]int{0, 1, 2, 7, 8, 9, 10, 16, 17, 18, 19, 20, 30, 90}).Draw(rt, "m")
					f.Reset = rapid.Bool().Draw(rt, "reset")
					f.Silent = rapid.Bool().Draw(rt, "silent")
				}
				c.Faults = append(c.Faults, f)
			}
			return c
		}, runFaulty,
		Faulty{N: 4, Rounds: []RoundC{{Size: []int{4}}, {Size: []int{4}}}, Faults: []Fault{{Kind: "crash", P: 0, K: 0}, {Kind: "reject", P: 2, V: 1, K: 0}}},
		Faulty{N: 2, Rounds: []RoundC{{Size: []int{4}}, {Size: []int{4}}}, Faults: []Fault{{Kind: "cut", P: 0, V: 1, K: 1, M: 12}}},
		Faulty{N: 259, Rounds: []RoundC{{Size: []int{4}}, {Size: []int{4}}}, Faults: []Fault{{Kind: "crash", P: 257, K: 1}, {Kind: "reject", P: 258, V: 1, K: 0}, {Kind: "reject", P: 256, V: 0, K: 1}}})
}

const (
	no = iota
	yes
	maybe
)

func runFaulty(t *pbt.T, c Faulty) {
	never := len(c.Rounds) + 1
	crashAt := map[int]int{}
	for _, f := range c.Faults {
		if k, ok := crashAt[f.P]; f.Kind == "crash" && (!ok || f.K < k) {
			crashAt[f.P] = f.K
		}
	}
	end := func(p int) int {
		if k, ok := crashAt[p]; ok {
			return k
		}
		return never
	}
	// the first cut of every link
	type link struct{ from, to int }
	cuts := map[link]Fault{}
	for _, f := range c.Faults {
		l := link{f.P, f.V}
		if old, ok := cuts[l]; f.Kind == "cut" && f.K < end(f.P) && (!ok || f.K < old.K) {
			cuts[l] = f
		}
	}
	rejects := func(v, k, p int) bool {
		for _, f := range c.Faults {
			if f.Kind == "reject" && f.P == p && f.V == v && f.K == k {
				return true
			}
		}
		return false
	}
	cl, hang := cluster.Run(cluster.Config{N: c.N, NoBaton: true, Link: c.Links.of(c.N), CrashAt: crashAt,
		BeforeRound: func(me *cluster.Party, k int) {
			for l, f := range cuts {
				if l.from == me.Pid && f.K == k {
					if pipe := me.Cluster().Net.Pipe(l.from, l.to); pipe != nil {
						pipe.CutAfter(f.M, f.Reset, f.Silent)
					}
				}
			}
		}}, func(p *cluster.Party, s sync.Server) error {
		for k, r := range c.Rounds {
			if d := at(r.Skew, p.Pid); d > 0 {
				time.Sleep(time.Duration(d) * time.Microsecond)
			}
			s.Round(r.out(c.Seed, c.N, k, p.Pid), func(from uint16, data []byte) error {
				if rejects(p.Pid, k, int(from)) {
					return errReject
				}
				return nil
			})
		}
		return nil
	})
	cl.Judge(t, hang)
	msg := func(k, from, to int) []byte { return c.Rounds[k].msg(c.Seed, c.N, k, from, to) }
	for v, p := range cl.Parties {
		want := len(c.Rounds)
		if end(v) < want {
			want = end(v)
		}
		t.Check(len(p.Rounds) == want, "party %d took part in %d rounds of %d", v, len(p.Rounds), want)
		for k, ev := range p.Rounds {
			t.Check(len(ev.From(v)) == 0, "party %d, round %d: check called for the party itself", v, k)
			anyMust, anyMay, anyOK := false, false, false
			missing := map[int]bool{}
			for _, m := range ev.Missing {
				t.Check(!missing[m], "party %d, round %d: party %d is listed twice as missing", v, k, m)
				missing[m] = true
			}
			t.Check(!missing[v], "party %d, round %d: the party itself is listed as missing", v, k)
			for from := 0; from < c.N; from++ {
				if from == v {
					continue
				}
				recv, send := yes, yes
				if k >= end(from) {
					recv, send = no, maybe
				}
				if f, ok := cuts[link{from, v}]; ok && recv == yes && k >= f.K {
					sum := 0
					for j := f.K; j <= k; j++ {
						sum += len(frame(from, j, msg(j, from, v)))
					}
					if f.M < sum {
						recv = no
					}
				}
				if f, ok := cuts[link{v, from}]; ok && k >= f.K && (!f.Silent || end(from) < never) {
					// a party that gets nothing may be ahead, and crash before it is sent the message
					send = maybe
				}
				h := ev.From(from)
				switch recv {
				case yes:
					once(t, p, k, from, msg(k, from, v))
					anyOK = true
				case no:
					t.Check(len(h) == 0, "party %d, round %d: check called with %v for party %d, of which no message arrived", v, k, h, from)
				}
				switch {
				case recv == no || rejects(v, k, from):
					anyMust = true
					t.Check(ev.Err != nil, "party %d, round %d: no error although party %d failed", v, k, from)
					t.Check(ev.IsRound, "party %d, round %d: the error is no round error: %v", v, k, ev.Err)
					t.Check(missing[from], "party %d, round %d: party %d failed but is not among the missing %v (%v)", v, k, from, ev.Missing, ev.Err)
				case send == yes:
					t.Check(!missing[from], "party %d, round %d: party %d delivered correct data but is among the missing %v (%v)", v, k, from, ev.Missing, ev.Err)
				default:
					anyMay = true
				}
			}
			if !anyMust && !anyMay {
				t.Check(ev.Err == nil, "party %d, round %d: error although nobody failed: %v", v, k, ev.Err)
			}
			if anyMust && anyOK {
				t.NonTrivial()
			}
		}
	}
	for _, f := range c.Faults {
		t.Label("%s", f.Kind)
	}
}

// ---- C15, C17, C16: a hostile party ----

// Op is what the hostile party sends instead of, or around, a message.
type Op struct {
	Kind  string
	A     int64
	Bytes pbt.Bytes
}

// Hostile is a sequence of rounds in which one party sends what it likes to the others.
type Hostile struct {
	N      int
	H      int
	Seed   uint64
	Links  Links
	Rounds []RoundC
	Ops    map[string][]Op // by round and victim: "k/v"; nothing: the proper message
	End    map[string]bool // the stream ends after the bytes of this round
}

func key(k, v int) string { return fmt.Sprintf("%d/%d", k, v) }

var frameKinds = []string{"replay", "foreign", "round", "round", "id", "id", "other", "ahead", "twice"}
var byteKinds = []string{"len", "len", "lenoff", "lenoff", "short", "short", "trunc", "trunc", "trail", "raw", "none", "id", "round", "hugelen", "hugelen"}

func genHostile(kinds []string, endBias int) func(rt *rapid.T) Hostile {
	return func(rt *rapid.T) Hostile {
		c := Hostile{N: rapid.IntRange(2, 5).Draw(rt, "n"), Seed: rapid.Uint64().Draw(rt, "seed"), Links: genLinks(rt), Ops: map[string][]Op{}, End: map[string]bool{}}
		c.H = rapid.IntRange(0, c.N-1).Draw(rt, "h")
		for i := rapid.IntRange(1, 6).Draw(rt, "rounds"); i > 0; i-- {
			c.Rounds = append(c.Rounds, genRound(rt, false))
		}
		for i := rapid.IntRange(1, 3).Draw(rt, "places"); i > 0; i-- {
			k := rapid.IntRange(0, len(c.Rounds)-1).Draw(rt, "k")
			v := rapid.IntRange(0, c.N-1).Draw(rt, "v")
			var ops []Op
			for j := rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(rt, "ops"); j > 0; j-- {
				ops = append(ops, genOp(rt, kinds))
			}
			c.Ops[key(k, v)] = ops
			if rapid.IntRange(0, 9).Draw(rt, "end") < endBias {
				c.End[key(k, v)] = true
			}
		}
		return c
	}
}

func genOp(rt *rapid.T, kinds []string) Op {
	o := Op{Kind: rapid.SampledFrom(kinds).Draw(rt, "op")}
	switch o.Kind {
	case "replay":
		o.A = int64(rapid.IntRange(1, 5).Draw(rt, "back"))
	case "foreign", "other":
		o.A = int64(rapid.IntRange(0, 4).Draw(rt, "who"))
	case "round":
		o.A = rapid.SampledFrom([]int64{-5, -2, -1, 1, 2, 3, 255, 256, 257, 65535, 65536, 1 << 31, 1 << 32, -1 << 32, 1 << 48, 1 << 56, -1 << 63, 1<<63 - 1}).Draw(rt, "by")
	case "id":
		o.A = int64(rapid.SampledFrom([]int{1, 2, 3, 4, 255, 256, 257, 0xffff}).Draw(rt, "by"))
	case "len":
		o.A = rapid.SampledFrom([]int64{0, 1, 2, 9, 10, 11, 100, 1 << 16, 1 << 31, 1<<31 - 1, 1 << 32, -1, -9, -10, -1 << 63, 1<<63 - 1, 1 << 48, 1 << 62}).Draw(rt, "len")
		o.Bytes = pbt.BytesUpTo(rt, 40, "bytes")
	case "hugelen":
		o.A = rapid.SampledFrom([]int64{1 << 33, 1 << 32, 1<<33 - 8, 1 << 48, 1 << 50, 1<<63 - 1, 1<<63 - 10, 1<<63 - 11, -1, -1 << 63, -18}).Draw(rt, "len")
		o.Bytes = pbt.BytesUpTo(rt, 40, "bytes")
	case "lenoff":
		o.A = int64(rapid.SampledFrom([]int{-20, -10, -3, -2, -1, 1, 2, 3, 8, 10, 256, 65536}).Draw(rt, "off"))
	case "short":
		o.A = int64(rapid.IntRange(0, 9).Draw(rt, "len"))
		o.Bytes = pbt.BytesUpTo(rt, 9, "bytes")
	case "trunc":
		o.A = int64(rapid.IntRange(0, 100).Draw(rt, "at"))
	case "trail", "raw":
		o.Bytes = pbt.BytesUpTo(rt, 60, "bytes")
	}
	return o
}

// parse takes one message off the stream.
func parse(b []byte, id, round int) (payload, rest []byte, ok bool) {
	if len(b) < 8 {
		return nil, nil, false
	}
	l := binary.LittleEndian.Uint64(b)
	if l < 10 || l > uint64(len(b)-8) {
		return nil, nil, false
	}
	m := b[8 : 8+l]
	if int(binary.LittleEndian.Uint16(m)) != id || binary.LittleEndian.Uint64(m[2:]) != uint64(round) {
		return nil, nil, false
	}
	return m[10:], b[8+l:], true
}

var known = struct{ done, ok bool }{}

// formatKnown runs two honest rounds and compares the bytes on the wire with frame.
func formatKnown() bool {
	if known.done {
		return known.ok
	}
	known.done = true
	rec := map[int][]byte{}
	cl, hang := cluster.Run(cluster.Config{N: 2, NoBaton: true, BeforeRound: func(me *cluster.Party, k int) {
		if k == 0 {
			me.Cluster().Net.Pipe(me.Pid, 1-me.Pid).Record()
		}
	}}, func(p *cluster.Party, s sync.Server) error {
		for k := 0; k < 2; k++ {
			s.Round([][]byte{[]byte(fmt.Sprint("message", p.Pid, k))}, func(uint16, []byte) error { return nil })
		}
		return nil
	})
	if hang != "" {
		return false
	}
	known.ok = true
	for i := 0; i < 2; i++ {
		if p := cl.Net.Pipe(i, 1-i); p != nil {
			rec[i] = bytes.Join(p.Frames(), nil)
		}
		want := append(frame(i, 0, []byte(fmt.Sprint("message", i, 0))), frame(i, 1, []byte(fmt.Sprint("message", i, 1)))...)
		known.ok = known.ok && bytes.Equal(rec[i], want)
	}
	return known.ok
}

func runHostile(t *pbt.T, c Hostile) {
	if !formatKnown() {
		t.Label("the bytes on the wire are not as known: skipped")
		return
	}
	msg := func(k, from, to int) []byte { return c.Rounds[k].msg(c.Seed, c.N, k, from, to) }
	bytesOf := func(k, v int) (b []byte) {
		ops, special := c.Ops[key(k, v)]
		if !special {
			return frame(c.H, k, msg(k, c.H, v))
		}
		own := frame(c.H, k, msg(k, c.H, v))
		for _, o := range ops {
			t.Label("%s", o.Kind)
			switch o.Kind {
			case "replay":
				j := k - int(o.A)
				if j < 0 {
					j = 0
				}
				b = append(b, frame(c.H, j, msg(j, c.H, v))...)
			case "foreign":
				p := int(o.A) % c.N
				b = append(b, frame(p, k, msg(k, p, v))...)
			case "other":
				b = append(b, frame(c.H, k, msg(k, c.H, int(o.A)%c.N))...)
			case "round":
				f := frame(c.H, k, msg(k, c.H, v))
				binary.LittleEndian.PutUint64(f[10:], uint64(int64(k)+o.A))
				b = append(b, f...)
			case "id":
				b = append(b, frame(c.H+int(o.A), k, msg(k, c.H, v))...)
			case "ahead":
				b = append(b, own...)
				if k+1 < len(c.Rounds) {
					b = append(b, frame(c.H, k+1, msg(k+1, c.H, v))...)
				}
			case "twice":
				b = append(append(b, own...), own...)
			case "len", "hugelen":
				b = binary.LittleEndian.AppendUint64(b, uint64(o.A))
				b = append(b, o.Bytes...)
			case "lenoff":
				f := append([]byte{}, own...)
				binary.LittleEndian.PutUint64(f, uint64(int64(len(f)-8)+o.A))
				b = append(b, f...)
			case "short":
				b = binary.LittleEndian.AppendUint64(b, uint64(o.A))
				x := make([]byte, o.A)
				copy(x, o.Bytes)
				b = append(b, x...)
			case "trunc":
				m := int(o.A)
				if m >= len(own) {
					m = len(own) - 1
				}
				b = append(b, own[:m]...)
			case "trail":
				b = append(append(b, own...), o.Bytes...)
			case "raw":
				b = append(b, o.Bytes...)
			case "none":
			}
		}
		return b
	}
	R := len(c.Rounds)
	lost := make([]bool, c.N)   // victims whose stream is no longer one of proper messages
	left := make([][]byte, c.N) // what is left of the stream after the proper messages
	var before runtime.MemStats
	runtime.ReadMemStats(&before)
	cl, hang := cluster.Run(cluster.Config{N: c.N, NoBaton: true, Link: c.Links.of(c.N),
		BeforeRound: func(me *cluster.Party, k int) {
			if me.Pid == c.H && k == 0 {
				for v := 0; v < c.N; v++ {
					if v != c.H {
						me.Cluster().Net.Pipe(c.H, v).Hold()
					}
				}
			}
		},
		AfterRound: func(me *cluster.Party, k int) {
			if me.Pid != c.H {
				return
			}
			for v := 0; v < c.N; v++ {
				if v == c.H {
					continue
				}
				pipe := me.Cluster().Net.Pipe(c.H, v)
				b := bytesOf(k, v)
				pipe.Inject(b)
				if !lost[v] {
					var ok bool
					_, left[v], ok = parse(append(left[v], b...), c.H, k)
					lost[v] = !ok
				}
				if c.End[key(k, v)] {
					pipe.End(false)
				}
				if lost[v] {
					// whoever waits for more than has arrived is released
					go func() {
						time.Sleep(time.Minute)
						pipe.End(true)
					}()
				}
			}
		}}, func(p *cluster.Party, s sync.Server) error {
		for k, r := range c.Rounds {
			s.Round(r.out(c.Seed, c.N, k, p.Pid), func(from uint16, data []byte) error { return nil })
		}
		return nil
	})
	var after runtime.MemStats
	runtime.ReadMemStats(&after)
	cl.Judge(t, hang)
	if n := after.TotalAlloc - before.TotalAlloc; n > 1<<30 {
		t.Failf("%d bytes allocated on a claimed length", n)
	}
	hp := cl.Parties[c.H]
	for k := range hp.Rounds {
		ev := hp.Rounds[k]
		for from := 0; from < c.N; from++ {
			if from != c.H {
				h := ev.From(from)
				t.Check(len(h) == 1 && bytes.Equal(h[0].Data, msg(k, from, c.H)), "party %d, round %d: check got %v from party %d", c.H, k, h, from)
			}
		}
	}
	for v, p := range cl.Parties {
		if v == c.H {
			continue
		}
		t.Check(len(p.Rounds) == R, "party %d took part in %d rounds of %d", v, len(p.Rounds), R)
		var stream, all []byte
		sure, ended := true, false
		valid := map[int][][]byte{}
		for k := 0; k < R; k++ {
			b := bytesOf(k, v)
			all = append(all, b...)
		}
		// every payload of a proper message to be found at any place of the stream
		for i := 0; i+18 <= len(all); i++ {
			for k := 0; k < R; k++ {
				if pl, _, ok := parse(all[i:], c.H, k); ok {
					valid[k] = append(valid[k], pl)
				}
			}
		}
		for k, ev := range p.Rounds {
			for from := 0; from < c.N; from++ {
				if from != v && from != c.H {
					once(t, p, k, from, msg(k, from, v))
				}
			}
			t.Check(len(ev.From(v)) == 0, "party %d, round %d: check called for the party itself", v, k)
			for _, m := range ev.Missing {
				t.Check(m == c.H, "party %d, round %d: party %d delivered correct data but is among the missing %v (%v)", v, k, m, ev.Missing, ev.Err)
			}
			t.Check(len(ev.Missing) <= 1, "party %d, round %d: missing %v", v, k, ev.Missing)
			t.Check(ev.Err == nil || ev.IsRound, "party %d, round %d: the error is no round error: %v", v, k, ev.Err)
			h := ev.From(c.H)
			t.Check(len(h) <= 1, "party %d, round %d: check called %d times for party %d", v, k, len(h), c.H)
			t.Check((len(h) == 1) == (ev.Err == nil), "party %d, round %d: check called %d times for party %d, error %v", v, k, len(h), c.H, ev.Err)
			if !ended {
				stream = append(stream, bytesOf(k, v)...)
			}
			if sure {
				pl, rest, ok := parse(stream, c.H, k)
				if ok {
					once(t, p, k, c.H, pl)
					stream = rest
				} else {
					t.NonTrivial()
					t.Check(len(h) == 0, "party %d, round %d: check called with %s, which party %d did not send in this round", v, k, shortAll(h), c.H)
					t.Check(ev.Err != nil && len(ev.Missing) == 1, "party %d, round %d: party %d sent no proper message, but the error is %v, missing %v", v, k, c.H, ev.Err, ev.Missing)
					sure = false
				}
			} else if len(h) == 1 {
				found := false
				for _, x := range valid[k] {
					found = found || bytes.Equal(x, h[0].Data)
				}
				t.Check(found, "party %d, round %d: check called with %s, which party %d did not send in this round", v, k, shortAll(h), c.H)
			}
			ended = ended || c.End[key(k, v)]
		}
	}
}

func shortAll(h []cluster.Handed) string {
	var s []string
	for _, x := range h {
		s = append(s, short(x.Data))
	}
	return strings.Join(s, " ")
}

func init() {
	pbt.Facet("C15", "replays", "1 to 6 rounds in which one party sends to the others repeated, late, early, queued or foreign messages or ones with another round or sender; nothing may be handed over that was not sent by that party in that round; non-trivial: some message must be refused",
		16000, 600000, genHostile(frameKinds, 1), runHostile)
	pbt.Facet("C17", "bytes", "1 to 6 rounds in which one party sends wrong lengths, short, truncated or trailing data, foreign ids or random bytes; no panic, no hang, no memory for claims, the round fails naming that party and delivers the others' data; non-trivial: some message must be refused",
		24000, 800000, genHostile(byteKinds, 4), runHostile)
	pbt.Facet("C16", "malformed", "1 to 6 rounds in which one party sends malformed data; exactly that party is reported missing and all other data handed over; non-trivial: some message must be refused",
		8000, 300000, genHostile(append(append([]string{}, byteKinds...), frameKinds...), 3), runHostile)
}
