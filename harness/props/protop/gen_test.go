// Package protop: properties C18-C26 and C30 of the distributed secrets and keys.
package protop

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"

	"verif.local/harness/internal/arun"
	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/eg"
	"verif.local/harness/internal/pbt"
)

func TestProps(t *testing.T) { pbt.Main(t) }

var g = arun.G

// ok requires that all parties ended without an error.
func ok(t *pbt.T, c *cluster.Cluster, hang string) {
	c.Judge(t, hang)
	for _, p := range c.Parties {
		t.Check(p.Done && p.Err == nil, "party %d fails although all parties are honest: %v", p.Pid, p.Err)
	}
}

// same requires that a party's message of a round is one for all, and returns it.
func same(t *pbt.T, p *cluster.Party, round int) []byte {
	t.Check(round < len(p.Rounds), "party %d took part in %d rounds only", p.Pid, len(p.Rounds))
	ev := p.Rounds[round]
	var first []byte
	seen := false
	for to := 0; to < p.N; to++ {
		if to == p.Pid {
			continue
		}
		m := ev.To(to)
		if !seen {
			first, seen = m, true
		}
		t.Check(bytes.Equal(m, first), "party %d, round %d: the published message differs between its receivers", p.Pid, round)
	}
	return first
}

// published is the commitment at the head of a message.
func published(t *pbt.T, p *cluster.Party, round int) eg.Pair {
	m := same(t, p, round)
	c, _, err := arun.ReadPair(m)
	t.Check(err == nil, "party %d, round %d: no commitment in the message %s: %v", p.Pid, round, cv.Short(m), err)
	return c
}

// ---- C18

type genCase struct {
	arun.Base
	G int // secrets
	T int
}

func label(i int) string { return []string{"", "x", "a much longer label, ü", "k"}[i%4] }

func runGen(t *pbt.T, c genCase) {
	t.NonTrivial()
	t.Label("n=%d", c.N)
	cfg := c.Config()
	values := make([][]*big.Int, c.N)
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		egf := c.Egf()
		var as []*arith.ADSecret
		for i := 0; i < c.G; i++ {
			a, err := arith.Gen(label(i), s, egf, uint16(p.Pid), uint16(c.N))
			if err != nil {
				return err
			}
			if a.Label() != label(i) {
				t.Failf("label %q instead of %q", a.Label(), label(i))
			}
			as = append(as, a)
		}
		for _, a := range as {
			ts, err := a.Reshare(uint16(c.T))
			if err != nil {
				return fmt.Errorf("resharing: %v", err)
			}
			v, err := ts.Reveal()
			if err != nil {
				return fmt.Errorf("revealing: %v", err)
			}
			values[p.Pid] = append(values[p.Pid], v)
		}
		return nil
	})
	ok(t, cl, hang)
	seen := map[string]string{}
	fresh := func(what string, p curve.Point) {
		k := string(cv.Enc(t, p))
		t.Check(seen[k] == "", "%s is the same as %s", what, seen[k])
		seen[k] = what
	}
	for i := 0; i < c.G; i++ {
		var shares []curve.Point
		for _, p := range cl.Parties {
			t.Check(len(p.Rounds) >= c.G, "party %d took part in %d rounds only", p.Pid, len(p.Rounds))
			com := published(t, p, i)
			for _, q := range cl.Parties {
				if q != p {
					h := q.Rounds[i].From(p.Pid)
					t.Check(len(h) == 1 && h[0].Err == nil && bytes.Equal(h[0].Given, p.Rounds[i].To(q.Pid)), "party %d refuses the commitment of party %d: %v", q.Pid, p.Pid, h)
				}
			}
			sh := c.Open(com)
			shares = append(shares, sh)
			if c.SpecialLen(p.Pid) <= 2*i {
				fresh(fmt.Sprintf("the share of party %d in secret %d", p.Pid, i), sh)
				fresh(fmt.Sprintf("the randomness of party %d in secret %d", p.Pid, i), com.A)
			} else {
				t.Label("special shares")
			}
		}
		want := arun.Sum(shares)
		for pid, vs := range values {
			t.Check(arun.Reduced(vs[i]), "party %d: revealed value %x is not reduced", pid, vs[i])
			t.Check(arun.Eq(cv.Mul(vs[i]), want), "party %d: the value revealed for secret %d is not the sum of the committed shares", pid, i)
		}
	}
	for _, p := range cl.Parties {
		t.Check(p.Stream.Count >= 64*c.G, "party %d drew only %d random bytes for %d secrets", p.Pid, p.Stream.Count, c.G)
	}
	// other randomness, other shares
	cfg.Seed++
	cl2, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		_, err := arith.Gen("x", s, c.Egf(), uint16(p.Pid), uint16(c.N))
		return err
	})
	ok(t, cl2, hang)
	for _, p := range cl2.Parties {
		if c.SpecialLen(p.Pid) == 0 {
			com := published(t, p, 0)
			fresh(fmt.Sprintf("the share of party %d in another run", p.Pid), c.Open(com))
			fresh(fmt.Sprintf("the randomness of party %d in another run", p.Pid), com.A)
		}
	}
}

// ---- altered commitments

type genTamper struct {
	arun.Base
	T      int
	From   int
	Victim []bool // by party
	How    string // other, offset, scale, swap, neutral, garbage, flip
	K      pbt.Int
	Bytes  pbt.Bytes
}

func runGenTamper(t *pbt.T, c genTamper) {
	victim := func(v int) bool { return v != c.From && len(c.Victim) > 0 && c.Victim[v%len(c.Victim)] }
	cfg := c.Config()
	changed := make([]bool, c.N)
	malformed := make([]bool, c.N)
	cfg.OnRecv = func(me *cluster.Party, round, from int, data []byte) []byte {
		if round != 0 || from != c.From || !victim(me.Pid) {
			return nil
		}
		own, rest, err := arun.ReadPair(data)
		if err != nil {
			return nil
		}
		var n eg.Pair
		switch c.How {
		case "other":
			n, _, err = arun.ReadPair(me.Cluster().SentOf((c.From+1)%c.N, me.Pid, 0))
			if err != nil {
				return nil
			}
		case "offset":
			n = own.Mul(eg.Create(cv.Mul(c.D.Int), c.K.Int, big.NewInt(0)))
		case "rerandomised":
			n = own.Mul(eg.Create(cv.Mul(c.D.Int), big.NewInt(0), c.K.Int))
		case "scale":
			n = own.Exp(c.K.Int)
		case "swap":
			n = eg.Pair{A: own.B, B: own.A}
		case "neutral":
			n = eg.Pair{A: g.Neutral(), B: g.Neutral()}
		case "garbage":
			changed[me.Pid], malformed[me.Pid] = true, true
			return append([]byte{}, c.Bytes...)
		case "cut":
			changed[me.Pid], malformed[me.Pid] = true, true
			return data[:len(data)*3/4]
		}
		changed[me.Pid] = !n.Eq(own)
		return append(n.Enc(), rest...)
	}
	gens := make([]error, c.N)
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		a, err := arith.Gen("x", s, c.Egf(), uint16(p.Pid), uint16(c.N))
		if err != nil {
			gens[p.Pid] = err
			return err
		}
		_, err = a.Reshare(uint16(c.T))
		return err
	})
	cl.Judge(t, hang)
	t.Label("%s", c.How)
	any := false
	for v, p := range cl.Parties {
		if !changed[v] {
			continue
		}
		any = true
		t.NonTrivial()
		t.Check(!p.Done || p.Err != nil, "party %d has recorded a commitment for party %d that this one cannot open (%s), and resharing succeeds", v, c.From, c.How)
		if malformed[v] {
			t.Check(gens[v] != nil, "party %d accepts a malformed commitment", v)
		}
	}
	if !any {
		for _, p := range cl.Parties {
			t.Check(p.Done && p.Err == nil, "party %d fails although all parties are honest: %v", p.Pid, p.Err)
		}
	}
}

// ---- statistics

type uniformCase struct {
	arun.Base
	G int
}

func balanced(t *pbt.T, what string, xs []*big.Int) {
	lim := 8 * math.Sqrt(float64(len(xs))) / 2
	for b := 0; b < 256; b++ {
		n := 0
		for _, x := range xs {
			n += int(x.Bit(b))
		}
		t.Check(math.Abs(float64(n)-float64(len(xs))/2) <= lim, "%s: bit %d is set in %d of %d", what, b, n, len(xs))
	}
	seen := map[string]bool{}
	for _, x := range xs {
		t.Check(!seen[x.String()], "%s: %x occurs twice in %d", what, x, len(xs))
		seen[x.String()] = true
	}
}

// step8 reads value and randomness of an evaluation.
func step8(m []byte) (v, r *big.Int, err error) {
	if len(m) < 4 {
		return nil, nil, fmt.Errorf("short message")
	}
	l := int(m[0]) | int(m[1])<<8 | int(m[2])<<16 | int(m[3])<<24
	if l > len(m)-4 {
		return nil, nil, fmt.Errorf("short message")
	}
	return new(big.Int).SetBytes(m[4 : 4+l]), new(big.Int).SetBytes(m[4+l:]), nil
}

func runUniformShares(t *pbt.T, c uniformCase) {
	start := make([]int, c.N)
	cl, hang := cluster.Run(c.Config(), func(p *cluster.Party, s sync.Server) error {
		var as []*arith.ADSecret
		for i := 0; i < c.G; i++ {
			a, err := arith.Gen("x", s, c.Egf(), uint16(p.Pid), uint16(c.N))
			if err != nil {
				return err
			}
			as = append(as, a)
		}
		start[p.Pid] = len(p.Rounds)
		for _, a := range as {
			if _, err := a.Reshare(1); err != nil {
				return err
			}
		}
		return nil
	})
	ok(t, cl, hang)
	per := 0
	if n := len(cl.Parties[0].Rounds) - start[0]; n%c.G == 0 {
		per = n / c.G
	}
	var xs []*big.Int
	for _, p := range cl.Parties {
		for i := 0; i < c.G; i++ {
			want := c.Open(published(t, p, i))
			// the value of the constant polynomial is sent to everybody in one of the rounds
			for k := start[p.Pid] + i*per; k < start[p.Pid]+(i+1)*per; k++ {
				v, _, err := step8(p.Rounds[k].To((p.Pid + 1) % c.N))
				if err == nil && arun.Eq(cv.Mul(v), want) && v.Sign() > 0 {
					xs = append(xs, v)
					break
				}
			}
		}
	}
	if len(xs) < c.N*c.G/2 {
		t.Label("shares not seen in the messages of resharing with threshold 1: skipped")
		return
	}
	t.NonTrivial()
	balanced(t, "shares of generated secrets", xs)
}

// ---- too little randomness

type dryCase struct {
	arun.Base
	Who   int
	Limit int
	Key   bool
}

func runDry(t *pbt.T, c dryCase) {
	t.NonTrivial()
	cfg := c.Config()
	cfg.Tune = func(p *cluster.Party) {
		if p.Pid == c.Who {
			p.Stream.Limit = c.Limit
		}
	}
	made := make([]bool, c.N)
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) (err error) {
		if p.Pid == c.Who {
			defer func() {
				// giving up is as good as an error
				if e := recover(); e != nil {
					err = fmt.Errorf("panic: %v", e)
				}
			}()
		}
		if c.Key {
			_, err = arith.GenExpReveal(uint16(p.Pid), "x", s, uint16(c.N), g)
		} else {
			_, err = arith.Gen("x", s, c.Egf(), uint16(p.Pid), uint16(c.N))
		}
		made[p.Pid] = err == nil
		return err
	})
	cl.Judge(t, hang)
	t.Check(!made[c.Who], "a share is made although only %d random bytes are available", c.Limit)
}

func init() {
	pbt.Facet("C18", "generate", "1 to 4 secrets of 2 to 6 parties, some with special shares, then reshared and revealed: one commitment per party for everybody, the revealed value is the sum of the committed shares, nothing repeats; non-trivial: always",
		700, 30000,
		func(rt *rapid.T) genCase {
			c := genCase{Base: arun.GenBase(rt, 2, 6, 6), G: rapid.IntRange(1, 4).Draw(rt, "g")}
			c.T = rapid.IntRange(1, c.N).Draw(rt, "t")
			if c.N > 4 {
				c.G = 1
			}
			return c
		}, runGen,
		genCase{Base: arun.Base{N: 12, D: pbt.Int{Int: big.NewInt(3)}}, G: 1, T: 7})
	pbt.Facet("C18", "wrong-record", "the commitment of one party reaches some parties altered (other party's, other value, other randomness, power, swapped, neutral, malformed); these parties fail at the latest when resharing; non-trivial: the commitment really is another one",
		1200, 50000,
		func(rt *rapid.T) genTamper {
			c := genTamper{Base: arun.GenBase(rt, 2, 4, 2)}
			c.T = rapid.IntRange(1, c.N).Draw(rt, "t")
			c.From = rapid.IntRange(0, c.N-1).Draw(rt, "from")
			c.Victim = rapid.SliceOfN(rapid.Bool(), 1, c.N).Draw(rt, "victims")
			c.How = rapid.SampledFrom([]string{"other", "offset", "rerandomised", "scale", "swap", "neutral", "garbage", "cut"}).Draw(rt, "how")
			c.K = pbt.NonZero(rt, "k")
			c.Bytes = pbt.BytesUpTo(rt, 80, "bytes")
			return c
		}, runGenTamper)
	pbt.Facet("C18", "uniform", "128 secrets of 2 parties, whose shares are read off resharing with threshold 1: distinct, every bit balanced within 8 sigma; non-trivial: shares seen",
		16, 300,
		func(rt *rapid.T) uniformCase {
			return uniformCase{arun.Base{N: 2, Seed: rapid.Uint64().Draw(rt, "seed"), D: pbt.NonZero(rt, "d")}, 128}
		}, runUniformShares)
	dry := func(key bool, most int) func(rt *rapid.T) dryCase {
		return func(rt *rapid.T) dryCase {
			c := dryCase{Base: arun.GenBase(rt, 2, 3, 0), Key: key, Limit: rapid.IntRange(1, most).Draw(rt, "limit")}
			c.Who = rapid.IntRange(0, c.N-1).Draw(rt, "who")
			return c
		}
	}
	pbt.Facet("C18", "no-randomness", "the source of randomness of a party fails before all bytes of share and commitment are drawn; no secret is made; non-trivial: always",
		400, 10000, dry(false, 63), runDry)
	pbt.Facet("C19", "no-randomness", "the source of randomness of a party fails before all bytes of the share are drawn; no key is made; non-trivial: always",
		400, 10000, dry(true, 31), runDry)
}
