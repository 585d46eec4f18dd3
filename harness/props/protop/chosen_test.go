package protop

import (
	"math/big"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"

	"verif.local/harness/internal/arun"
	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/eg"
	"verif.local/harness/internal/pbt"
)

// ---- C20, C22, C23: sharings with chosen values, which random polynomials never have

type chosenCase struct {
	arun.Base
	T     int
	Who   int       // whose polynomial is chosen
	Sum   bool      // the new shares have the values, instead of the evaluations of Who
	At    []int     // at most T-1 different parties
	V     []pbt.Int // the values for them
	Rand  bool      // the randomness sent with the first evaluation has the value R
	R     pbt.Int
	Alone int // the parties from this one on, as many as the threshold says, do without the others at the end
}

// interpolate gives the coefficients of the polynomial of degree below len(x) through the points.
func interpolate(x []int, y []*big.Int) []*big.Int {
	r := make([]*big.Int, len(x))
	for i := range r {
		r[i] = new(big.Int)
	}
	for i := range x {
		l := []*big.Int{big.NewInt(1)}
		den := big.NewInt(1)
		for j := range x {
			if j == i {
				continue
			}
			// times (X - x[j])
			n := make([]*big.Int, len(l)+1)
			for k := range n {
				n[k] = new(big.Int)
				if k < len(l) {
					n[k].Sub(n[k], new(big.Int).Mul(l[k], big.NewInt(int64(x[j]))))
				}
				if k > 0 {
					n[k].Add(n[k], l[k-1])
				}
			}
			l = n
			den.Mul(den, big.NewInt(int64(x[i]-x[j])))
		}
		den.Mod(den, pbt.N)
		den.ModInverse(den, pbt.N)
		den.Mul(den, y[i])
		for k := range l {
			r[k].Add(r[k], new(big.Int).Mul(l[k], den))
			r[k].Mod(r[k], pbt.N)
		}
	}
	return r
}

func minus(a, b curve.Point) curve.Point {
	return g.Add(a, arun.Mul(b, new(big.Int).Sub(pbt.N, big.NewInt(1))))
}

func evalAt(f []*big.Int, x int) *big.Int {
	r := new(big.Int)
	for i := len(f) - 1; i >= 0; i-- {
		r.Mul(r, big.NewInt(int64(x)))
		r.Add(r, f[i])
		r.Mod(r, pbt.N)
	}
	return r
}

func runChosen(t *pbt.T, c chosenCase) {
	type result struct {
		a, b, alone *big.Int
		key         curve.Point
		aloneErr    error
	}
	var res []result
	var start []int
	once := func(nth map[int][]byte) *cluster.Cluster {
		res, start = make([]result, c.N), make([]int, c.N)
		cfg := c.Config()
		cfg.Tune = func(p *cluster.Party) {
			if p.Pid == c.Who {
				p.Stream.Nth = nth
			}
		}
		cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
			a, err := arith.Gen("x", s, c.Egf(), uint16(p.Pid), uint16(c.N))
			if err != nil {
				return err
			}
			start[p.Pid] = len(p.Rounds)
			x, err := a.Reshare(uint16(c.T))
			if err != nil || nth == nil {
				return err
			}
			r := &res[p.Pid]
			if r.a, err = x.Reveal(); err != nil {
				return err
			}
			k, err := x.Exp()
			if err != nil {
				return err
			}
			r.key = k.PublicKey()
			y, err := x.Reshare(1)
			if err != nil {
				return err
			}
			if r.b, err = y.Reveal(); err != nil {
				return err
			}
			if c.Alone >= 0 {
				if (p.Pid+c.N-c.Alone%c.N)%c.N >= c.T {
					p.Crash()
				}
				r.alone, r.aloneErr = x.Reveal()
			}
			return nil
		})
		if nth == nil || c.Alone < 0 {
			ok(t, cl, hang)
		} else {
			cl.Judge(t, hang)
			for _, p := range cl.Parties {
				t.Check(p.Err == nil, "party %d fails although all parties are honest: %v", p.Pid, p.Err)
			}
		}
		return cl
	}
	cl := once(nil)
	// find the draws that are coefficients
	scalars := make([]map[string]int, c.N)
	for i, p := range cl.Parties {
		scalars[i] = map[string]int{}
		for j, b := range p.Stream.Reads {
			if len(b) == 32 {
				x := new(big.Int).SetBytes(b)
				scalars[i][string(cv.Enc(t, cv.Mul(x)))] = j
			}
		}
	}
	find := func(pid int, q curve.Point) (*big.Int, int) {
		j, ok := scalars[pid][string(cv.Enc(t, q))]
		if !ok {
			return nil, 0
		}
		return new(big.Int).SetBytes(cl.Parties[pid].Stream.Reads[j]), j
	}
	polys := make([][]*big.Int, c.N)
	where := make([]int, c.T)
	for i, p := range cl.Parties {
		cs := coefPoints(t, c.Base, p, start[i], c.T)
		if cs == nil {
			t.Label("form of the messages not known")
			return
		}
		for k, q := range cs {
			x, j := find(i, q)
			if x == nil && k == c.T-1 {
				// the leading one is drawn below n-1 and increased
				if x, j = find(i, minus(q, cv.Mul(big.NewInt(1)))); x != nil {
					x.Add(x, big.NewInt(1))
				}
			}
			if x == nil {
				t.Label("draws not found")
				return
			}
			polys[i] = append(polys[i], x)
			if i == c.Who {
				where[k] = j
			}
		}
	}
	reads := cl.Parties[c.Who].Stream.Reads
	nth := map[int][]byte{}
	put := func(j int, x *big.Int) { nth[j] = x.FillBytes(make([]byte, 32)) }
	set := func(k int, x *big.Int) bool {
		d := new(big.Int).Sub(polys[c.Who][k], new(big.Int).SetBytes(reads[where[k]]))
		x = new(big.Int).Sub(x, d)
		if k == 0 || x.Sign() < 0 || x.Cmp(pbt.N) >= 0 {
			return false
		}
		put(where[k], x)
		return true
	}
	// what is not chosen stays: further values of the old polynomial make up for the missing ones
	xs, ys := []int{0}, []*big.Int{polys[c.Who][0]}
	for i, at := range c.At {
		v := c.V[i].Copy()
		if c.Sum {
			for p := range polys {
				if p != c.Who {
					v.Sub(v, evalAt(polys[p], at+1))
				}
			}
		}
		xs, ys = append(xs, at+1), append(ys, v.Mod(v, pbt.N))
	}
	for x := c.N + 1; len(xs) < c.T; x++ {
		xs, ys = append(xs, x), append(ys, evalAt(polys[c.Who], x))
	}
	want := interpolate(xs, ys)
	for k := 1; k < c.T; k++ {
		if !set(k, want[k]) {
			t.Label("leading coefficient zero")
			return
		}
	}
	if c.Rand && c.At[0] != c.Who {
		// the randomness of the refreshed commitment to the evaluation
		at := c.At[0]
		p := cl.Parties[c.Who]
		m, com := same(t, p, start[c.Who]+stReveal), eg.Pair{A: g.Neutral(), B: g.Neutral()}
		var err error
		for k, f := 0, int64(1); k < c.T; k, f = k+1, f*int64(at+1) {
			var q eg.Pair
			if q, m, err = arun.ReadPair(m); err != nil {
				t.Label("form of the messages not known")
				return
			}
			com = com.Mul(q.Exp(big.NewInt(f)))
		}
		var fresh eg.Pair
		m = same(t, p, start[c.Who]+stEval)
		for k := 0; k <= at; k++ {
			if fresh, m, err = arun.ReadPair(m); err != nil {
				t.Label("form of the messages not known")
				return
			}
		}
		_, r, e := step8(p.Rounds[start[c.Who]+stSend].To(at))
		x, j := find(c.Who, minus(fresh.A, com.A))
		if e != nil || x == nil {
			t.Label("draws not found")
			return
		}
		x.Add(x, c.R.Int)
		x.Sub(x, r)
		put(j, x.Mod(x, pbt.N))
		t.Label("chosen randomness")
	}
	cl = once(nth)
	// whether it came out as wanted
	for i, at := range c.At {
		if at == c.Who || c.Sum {
			continue
		}
		v, r, e := step8(cl.Parties[c.Who].Rounds[start[c.Who]+stSend].To(at))
		if e != nil || v.Mod(v, pbt.N).Cmp(c.V[i].Int) != 0 || c.Rand && i == 0 && r.Mod(r, pbt.N).Cmp(c.R.Int) != 0 {
			t.Label("not as chosen")
			return
		}
	}
	points := sharePoints(t, c.Base, cl, start)
	if points == nil {
		t.Label("form of the messages not known")
		return
	}
	if c.Sum {
		for i, at := range c.At {
			if !arun.Eq(points[at], cv.Mul(c.V[i].Int)) {
				t.Label("not as chosen")
				return
			}
		}
		t.Label("chosen shares")
	} else {
		t.Label("chosen evaluations")
	}
	t.NonTrivial()
	var shares []curve.Point
	for _, p := range cl.Parties {
		shares = append(shares, c.Open(published(t, p, 0)))
	}
	secret := arun.Sum(shares)
	onPolynomial(t, "resharing", points, c.T, secret, false)
	for pid, r := range res {
		t.Check(arun.Reduced(r.a) && arun.Eq(cv.Mul(r.a), secret), "party %d reveals a wrong value", pid)
		t.Check(arun.Eq(r.key, secret), "party %d has a wrong public key", pid)
		t.Check(arun.Reduced(r.b) && arun.Eq(cv.Mul(r.b), arun.Sum(points)), "party %d reveals a wrong sum of the shares", pid)
		if r.alone != nil || r.aloneErr != nil {
			t.Check(r.aloneErr == nil, "party %d cannot reveal with the threshold's number of parties: %v", pid, r.aloneErr)
			t.Check(arun.Eq(cv.Mul(r.alone), secret), "party %d reveals a wrong value with the threshold's number of parties", pid)
		}
	}
}

func genChosen(rt *rapid.T) chosenCase {
	c := chosenCase{Base: arun.GenBase(rt, 2, 4, 1), R: pbt.Int{Int: new(big.Int)}, Alone: -1}
	c.T = rapid.IntRange(2, c.N).Draw(rt, "t")
	c.Who = rapid.IntRange(0, c.N-1).Draw(rt, "who")
	c.Sum = rapid.Bool().Draw(rt, "sum")
	at := rapid.Permutation(xs(0, c.N)).Draw(rt, "at")
	c.At = at[:rapid.IntRange(1, c.T-1).Draw(rt, "values")]
	for range c.At {
		c.V = append(c.V, small(rt, "v"))
	}
	if rapid.IntRange(0, 2).Draw(rt, "rand") == 0 {
		c.Rand, c.R = true, small(rt, "r")
	}
	if rapid.Bool().Draw(rt, "alone") {
		c.Alone = rapid.IntRange(0, c.N-1).Draw(rt, "from")
	}
	return c
}

// small is a scalar, mostly of less than 32 bytes.
func small(rt *rapid.T, name string) pbt.Int {
	if rapid.IntRange(0, 3).Draw(rt, name+" any") == 0 {
		return pbt.Scalar(rt, name)
	}
	b := rapid.SampledFrom([]int{0, 0, 1, 8, 9, 64, 128, 200, 240, 248}).Draw(rt, name+" bits")
	x := new(big.Int).Mod(pbt.Scalar(rt, name).Int, new(big.Int).Lsh(big.NewInt(1), uint(b)))
	return pbt.Int{Int: x}
}

func init() {
	text := "the draws of one party of 2 to 4 are chosen such that its evaluations for some parties, the new shares of some parties, or the randomness sent along have chosen values, mostly 0 or short ones; resharing, revealing by all and by t parties, raising, and resharing of the result then go as always; non-trivial: the values came out as chosen"
	three := pbt.Int{Int: big.NewInt(3)}
	zero := pbt.Int{Int: new(big.Int)}
	fixed := []chosenCase{
		{Base: arun.Base{N: 3, D: three}, T: 2, Who: 0, At: []int{1}, V: []pbt.Int{zero}, R: zero, Rand: true, Alone: 0},
		{Base: arun.Base{N: 3, D: three}, T: 3, Who: 1, Sum: true, At: []int{0, 2}, V: []pbt.Int{zero, zero}, R: zero, Alone: 0},
		{Base: arun.Base{N: 3, D: three}, T: 2, Who: 1, Sum: true, At: []int{0}, V: []pbt.Int{zero}, R: zero, Alone: 0},
	}
	pbt.Facet("C20", "chosen", text, 500, 20000, genChosen, runChosen, fixed...)
	pbt.Facet("C22", "chosen", text, 300, 10000, genChosen, runChosen, fixed...)
	pbt.Facet("C23", "chosen", text, 300, 10000, genChosen, runChosen, fixed...)
}
