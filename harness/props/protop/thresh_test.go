package protop

import (
	"fmt"
	"math/big"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"

	"verif.local/harness/internal/arun"
	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/pbt"
)

// ---- C22, C23: histories of raising and revealing while parties go missing

type thOp struct {
	Reveal bool
	Which  int    // which secret
	Crash  []bool // who crashes before
	Spoil  []bool // by sender and receiver (from*n+to): the data cannot be decoded (raising only)
	Raw    pbt.Bytes
}

type thCase struct {
	arun.Base
	Ts  []int // thresholds of the secrets
	Ops []thOp
}

type thRes struct {
	ran     bool
	err     error
	v       *big.Int
	key     *arith.TDKey
	arrived int
	ev      *cluster.Event
}

func runThresh(t *pbt.T, c thCase) {
	cfg := c.Config()
	cur := make([]int, c.N)
	for i := range cur {
		cur[i] = -1
	}
	cfg.OnRecv = func(me *cluster.Party, round, from int, data []byte) []byte {
		i := cur[me.Pid]
		if i < 0 || c.Ops[i].Reveal {
			return nil
		}
		sp := c.Ops[i].Spoil
		if x := from*c.N + me.Pid; x < len(sp) && sp[x] {
			return []byte(c.Ops[i].Raw)
		}
		return nil
	}
	res := make([][]thRes, c.N)
	for i := range res {
		res[i] = make([]thRes, len(c.Ops))
	}
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		var ts []*arith.TDSecret
		for i, th := range c.Ts {
			a, err := arith.Gen(label(i), s, c.Egf(), uint16(p.Pid), uint16(c.N))
			if err != nil {
				return err
			}
			x, err := a.Reshare(uint16(th))
			if err != nil {
				return err
			}
			ts = append(ts, x)
		}
		for i, o := range c.Ops {
			if p.Pid < len(o.Crash) && o.Crash[p.Pid] {
				p.Crash()
			}
			cur[p.Pid] = i
			r := thRes{ran: true}
			w := o.Which % len(ts)
			n := len(p.Rounds)
			if o.Reveal {
				r.v, r.err = ts[w].Reveal()
			} else {
				r.key, r.err = ts[w].Exp()
			}
			cur[p.Pid] = -1
			if len(p.Rounds) != n+1 {
				t.Failf("an operation of %d rounds", len(p.Rounds)-n)
			}
			r.arrived, r.ev = 1, p.Last()
			for _, h := range p.Last().Handed {
				if h.Err == nil {
					r.arrived++
				}
			}
			if r.key != nil {
				if r.err == nil && (r.key.Label() != label(w) || int(r.key.Threshold()) != c.Ts[w]) {
					t.Failf("the raised secret has label %q and threshold %d instead of %q and %d", r.key.Label(), r.key.Threshold(), label(w), c.Ts[w])
				}
			}
			res[p.Pid][i] = r
		}
		return nil
	})
	cl.Judge(t, hang)
	points := make([]curve.Point, len(c.Ts))
	for i := range c.Ts {
		var shares []curve.Point
		for _, p := range cl.Parties {
			t.Check(len(p.Rounds) > i*(1+reshareRounds), "party %d fails before any party is missing: %v", p.Pid, p.Err)
			shares = append(shares, c.Open(published(t, p, i*(1+reshareRounds))))
		}
		points[i] = arun.Sum(shares)
	}
	for i, o := range c.Ops {
		w := o.Which % len(c.Ts)
		for pid := range res {
			r := res[pid][i]
			if !r.ran {
				continue
			}
			what := "raising"
			if o.Reveal {
				what = "revealing"
			}
			from := map[int]bool{pid: true}
			for _, h := range r.ev.Handed {
				from[h.From] = true
				t.Check(h.Err == nil || h.Changed, "operation %d: party %d refuses what party %d sent: %v", i, pid, h.From, h.Err)
			}
			for q := range res {
				t.Check(from[q] || !res[q][i].ran, "operation %d: party %d gets nothing from party %d, which takes part", i, pid, q)
			}
			if r.arrived < c.N {
				t.Label("%s with missing parties", what)
			}
			if r.arrived < c.Ts[w] {
				t.NonTrivial()
				t.Label("%s: too few", what)
				t.Check(r.err != nil, "operation %d: party %d has %d of %d shares, and %s gives no error", i, pid, r.arrived, c.Ts[w], what)
				continue
			}
			if r.arrived < c.N || c.Ts[w] > 1 {
				t.NonTrivial()
			}
			t.Check(r.err == nil, "operation %d: party %d has %d shares, enough for threshold %d, and %s fails: %v", i, pid, r.arrived, c.Ts[w], what, r.err)
			if o.Reveal {
				t.Check(arun.Reduced(r.v), "party %d reveals %x, which is not reduced", pid, r.v)
				t.Check(arun.Eq(cv.Mul(r.v), points[w]), "operation %d: party %d reveals a wrong value with %d shares", i, pid, r.arrived)
			} else {
				t.Check(r.key != nil && arun.Eq(r.key.PublicKey(), points[w]), "operation %d: party %d has a wrong public key with %d shares", i, pid, r.arrived)
			}
		}
	}
}

func genThresh(lo, hi int, reveal []bool) func(rt *rapid.T) thCase {
	return func(rt *rapid.T) thCase {
		c := thCase{Base: arun.GenBase(rt, lo, hi, 3)}
		for i := rapid.IntRange(1, 2).Draw(rt, "secrets"); i > 0; i-- {
			c.Ts = append(c.Ts, rapid.IntRange(1, c.N).Draw(rt, "t"))
		}
		left := c.N
		down := make([]bool, c.N)
		for i := rapid.IntRange(1, 5).Draw(rt, "ops"); i > 0; i-- {
			o := thOp{Reveal: rapid.SampledFrom(reveal).Draw(rt, "reveal"), Which: rapid.IntRange(0, len(c.Ts)-1).Draw(rt, "which"), Crash: make([]bool, c.N)}
			for k := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(rt, "crashes"); k > 0 && left > 1; k-- {
				w := rapid.IntRange(0, c.N-1).Draw(rt, "crash")
				if !down[w] {
					down[w], o.Crash[w] = true, true
					left--
				}
			}
			if !o.Reveal && rapid.IntRange(0, 2).Draw(rt, "spoil") == 0 {
				o.Spoil = rapid.SliceOfN(rapid.Bool(), c.N*c.N, c.N*c.N).Draw(rt, "spoiled")
				o.Raw = rapid.SampledFrom([]pbt.Bytes{{}, {0, 0, 0}, {0, 0, 0, 1, 0, 0, 0, 1, 2, 3}, {255, 255, 255, 255, 0, 0, 0, 32}}).Draw(rt, "raw")
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

// genLarge is for committees so large that products of differences and powers of indices do not fit into
// machine words.
func genLarge(reveal bool) func(rt *rapid.T) thCase {
	return func(rt *rapid.T) thCase {
		c := thCase{Base: arun.GenBase(rt, 21, 26, 0)}
		c.Par = true
		c.Ts = []int{c.N - rapid.SampledFrom([]int{0, 0, 1, 2, 9}).Draw(rt, "below")}
		c.Ops = []thOp{{Reveal: reveal}, {Reveal: !reveal}}
		if d := c.N - c.Ts[0]; d > 0 {
			o := thOp{Reveal: reveal, Crash: make([]bool, c.N)}
			for i := rapid.IntRange(1, d+1).Draw(rt, "crashes"); i > 0; i-- {
				o.Crash[rapid.IntRange(0, c.N-1).Draw(rt, "crash")] = true
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

// ---- C24

type linStep struct {
	A, B pbt.Int
	X, Y int // operands: earlier secrets
}

type linEnd struct {
	Which int
	How   int // 0: reveal, 1: raise, 2: reshare and reveal, 3: reshare and raise
	T     int
}

type linCase struct {
	arun.Base
	Ts    []int
	Steps []linStep
	Ends  []linEnd
	Few   int // after the first end, all but the threshold's number of parties crash, from this one on; below 0: none
}

func runLin(t *pbt.T, c linCase) {
	t.NonTrivial()
	// thresholds of all secrets
	ts := append([]int{}, c.Ts...)
	for _, st := range c.Steps {
		x, y := ts[st.X%len(ts)], ts[st.Y%len(ts)]
		if y > x {
			x = y
		}
		ts = append(ts, x)
	}
	last := len(ts) - 1
	type outcome struct {
		v   *big.Int
		key curve.Point
		err error
	}
	ends := make([][]outcome, c.N)
	finals := make([]*outcome, c.N)
	cl, hang := cluster.Run(c.Config(), func(p *cluster.Party, s sync.Server) error {
		var l []*arith.TDSecret
		for i, th := range c.Ts {
			a, err := arith.Gen(label(i), s, c.Egf(), uint16(p.Pid), uint16(c.N))
			if err != nil {
				return err
			}
			x, err := a.Reshare(uint16(th))
			if err != nil {
				return err
			}
			l = append(l, x)
		}
		for i, st := range c.Steps {
			a, b := st.A.Copy(), st.B.Copy()
			n := len(p.Rounds)
			r := arith.Lin(a, b, l[st.X%len(l)], l[st.Y%len(l)], fmt.Sprint("sum", i))
			if len(p.Rounds) != n {
				t.Failf("a linear combination sends messages")
			}
			if a.Cmp(st.A.Int) != 0 || b.Cmp(st.B.Int) != 0 {
				t.Failf("a linear combination overwrites its coefficients")
			}
			pbt.Scribble(a, b)
			if r.Label() != fmt.Sprint("sum", i) {
				t.Failf("label %q instead of %q", r.Label(), fmt.Sprint("sum", i))
			}
			l = append(l, r)
		}
		for i, x := range l {
			if int(x.Threshold()) > ts[i] {
				t.Failf("threshold %d instead of %d", x.Threshold(), ts[i])
			}
			if i < len(c.Ts) && (x.Label() != label(i) || int(x.Threshold()) != ts[i]) {
				t.Failf("operand %d has label %q and threshold %d after the combination", i, x.Label(), x.Threshold())
			}
		}
		for _, e := range c.Ends {
			x := l[e.Which%len(l)]
			var o outcome
			var err error
			if e.How >= 2 {
				if x, err = x.Reshare(uint16(e.T)); err != nil {
					return fmt.Errorf("resharing secret %d: %v", e.Which%len(l), err)
				}
			}
			if e.How%2 == 0 {
				if o.v, err = x.Reveal(); err != nil {
					return fmt.Errorf("revealing secret %d: %v", e.Which%len(l), err)
				}
			} else {
				k, err := x.Exp()
				if err != nil {
					return fmt.Errorf("raising secret %d: %v", e.Which%len(l), err)
				}
				o.key = k.PublicKey()
			}
			ends[p.Pid] = append(ends[p.Pid], o)
		}
		if c.Few >= 0 {
			// only as many parties as the threshold says stay
			n := int(l[last].Threshold())
			if d := (p.Pid + c.N - c.Few%c.N) % c.N; d >= n {
				p.Crash()
			}
			o := &outcome{}
			o.v, o.err = l[last].Reveal()
			finals[p.Pid] = o
		}
		return nil
	})
	cl.Judge(t, hang)
	var points []curve.Point
	for i := range c.Ts {
		var shares []curve.Point
		for _, p := range cl.Parties {
			t.Check(len(p.Rounds) > i*(1+reshareRounds), "party %d fails although all parties are honest: %v", p.Pid, p.Err)
			shares = append(shares, c.Open(published(t, p, i*(1+reshareRounds))))
		}
		points = append(points, arun.Sum(shares))
	}
	// the shares, as points
	var shares [][]curve.Point
	for i := range c.Ts {
		start := make([]int, c.N)
		for j := range start {
			start[j] = i*(1+reshareRounds) + 1
		}
		shares = append(shares, sharePoints(t, c.Base, cl, start))
	}
	lin := func(st linStep, x, y curve.Point) curve.Point {
		return g.Add(arun.Mul(x, st.A.Int), arun.Mul(y, st.B.Int))
	}
	for _, st := range c.Steps {
		x, y := st.X%len(points), st.Y%len(points)
		points = append(points, lin(st, points[x], points[y]))
		var sh []curve.Point
		if shares[x] != nil && shares[y] != nil {
			for j := range shares[x] {
				sh = append(sh, lin(st, shares[x][j], shares[y][j]))
			}
		}
		shares = append(shares, sh)
	}
	for _, p := range cl.Parties {
		t.Check(p.Err == nil, "party %d fails although all parties are honest: %v", p.Pid, p.Err)
		for i, e := range c.Ends {
			w := e.Which % len(points)
			want := points[w]
			t.Label("%s", []string{"revealed", "raised", "reshared and revealed", "reshared and raised"}[e.How])
			o := ends[p.Pid][i]
			if e.How >= 2 {
				// the shares of a threshold secret as additive ones: all parties get the same
				f := ends[0][i]
				t.Check((o.v == nil) == (f.v == nil) && (o.v == nil || o.v.Cmp(f.v) == 0) && (o.key == nil || arun.Eq(o.key, f.key)), "parties 0 and %d get different results from resharing secret %d", p.Pid, w)
				if shares[w] != nil {
					sum := arun.Sum(shares[w])
					t.Check((o.v == nil || arun.Eq(cv.Mul(o.v), sum)) && (o.key == nil || arun.Eq(o.key, sum)), "resharing secret %d does not share the sum of its shares", w)
				}
				continue
			}
			if o.v != nil {
				t.Check(arun.Reduced(o.v), "party %d reveals %x, which is not reduced", p.Pid, o.v)
				t.Check(arun.Eq(cv.Mul(o.v), want), "party %d reveals a wrong value for secret %d", p.Pid, w)
			} else {
				t.Check(arun.Eq(o.key, want), "party %d has a wrong public key for secret %d", p.Pid, w)
			}
		}
		if o := finals[p.Pid]; o != nil {
			t.Label("few parties")
			t.Check(o.err == nil, "party %d cannot reveal a combination together with as many parties as its threshold says: %v", p.Pid, o.err)
			t.Check(arun.Reduced(o.v) && arun.Eq(cv.Mul(o.v), points[last]), "party %d reveals a wrong value for a combination, together with as many parties as its threshold says", p.Pid)
		}
	}
}

func coefficient(rt *rapid.T, name string) pbt.Int {
	switch rapid.IntRange(0, 5).Draw(rt, name+"-kind") {
	case 0:
		return pbt.Int{Int: big.NewInt(int64(rapid.IntRange(0, 2).Draw(rt, name)))}
	case 1:
		return pbt.BigScalar(rt, name)
	case 2:
		return pbt.Int{Int: new(big.Int).Sub(pbt.N, big.NewInt(int64(rapid.IntRange(-1, 2).Draw(rt, name))))}
	}
	return pbt.Scalar(rt, name)
}

func init() {
	pbt.Facet("C22", "large", "committees of 21 to 26 parties, with large thresholds; some parties are then missing; non-trivial: always",
		0, 30, genLarge(false), runThresh,
		thCase{Base: arun.Base{N: 24, D: pbt.Int{Int: big.NewInt(3)}, Par: true}, Ts: []int{22}, Ops: []thOp{{Reveal: false}, {Reveal: false, Crash: []bool{21: true}}}},
		thCase{Base: arun.Base{N: 25, D: pbt.Int{Int: big.NewInt(3)}, Par: true}, Ts: []int{21}, Ops: []thOp{{Reveal: false}, {Reveal: false, Crash: []bool{21: true}}}})
	pbt.Facet("C22", "raise", "histories of raising (and revealing) secrets of 2 to 6 parties, while parties crash and data is undecodable for some: the right public key from at least t shares, an error from fewer; non-trivial: threshold above 1 or data missing",
		1000, 40000, genThresh(2, 6, []bool{false, false, false, true}), runThresh,
		thCase{Base: arun.Base{N: 9, D: pbt.Int{Int: big.NewInt(3)}}, Ts: []int{4}, Ops: []thOp{{}, {Crash: []bool{true, true, false, true, false, false, true, true}}, {Reveal: true}, {Crash: []bool{false, false, true}}}})
	pbt.Facet("C23", "large", "committees of 21 to 26 parties, with large thresholds; some parties are then missing; non-trivial: always",
		0, 30, genLarge(true), runThresh,
		thCase{Base: arun.Base{N: 24, D: pbt.Int{Int: big.NewInt(3)}, Par: true}, Ts: []int{22}, Ops: []thOp{{Reveal: true}, {Reveal: true, Crash: []bool{21: true}}}},
		thCase{Base: arun.Base{N: 25, D: pbt.Int{Int: big.NewInt(3)}, Par: true}, Ts: []int{21}, Ops: []thOp{{Reveal: true}, {Reveal: true, Crash: []bool{21: true}}}})
	pbt.Facet("C23", "reveal", "histories of revealing (and raising) secrets of 2 to 6 parties, while parties crash: the right reduced value from at least t shares, an error from fewer; non-trivial: threshold above 1 or data missing",
		1000, 40000, genThresh(2, 6, []bool{true, true, true, false}), runThresh,
		thCase{Base: arun.Base{N: 9, D: pbt.Int{Int: big.NewInt(3)}}, Ts: []int{4}, Ops: []thOp{{Reveal: true}, {Reveal: true, Crash: []bool{true, true, false, true, false, false, true, true}}, {}, {Reveal: true, Crash: []bool{false, false, true}}}})
	pbt.Facet("C24", "combine", "programs of linear combinations of 1 to 3 secrets of 2 to 5 parties with different thresholds and coefficients of any size, operands repeated; results and operands are then revealed, raised, reshared, and revealed by as many parties as the threshold says; non-trivial: always",
		800, 30000,
		func(rt *rapid.T) linCase {
			c := linCase{Base: arun.GenBase(rt, 2, 5, 2), Few: -1}
			k := rapid.IntRange(1, 3).Draw(rt, "secrets")
			for i := 0; i < k; i++ {
				c.Ts = append(c.Ts, rapid.IntRange(1, c.N).Draw(rt, "t"))
			}
			for i := rapid.IntRange(1, 4).Draw(rt, "steps"); i > 0; i-- {
				c.Steps = append(c.Steps, linStep{A: coefficient(rt, "a"), B: coefficient(rt, "b"), X: rapid.IntRange(0, k-1).Draw(rt, "x"), Y: rapid.IntRange(0, k-1).Draw(rt, "y")})
				k++
			}
			for i := rapid.IntRange(1, 4).Draw(rt, "ends"); i > 0; i-- {
				e := linEnd{Which: k - 1, How: rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(rt, "how"), T: rapid.IntRange(1, c.N).Draw(rt, "t3")}
				if rapid.IntRange(0, 2).Draw(rt, "operand") > 0 {
					e.Which = rapid.IntRange(0, k-1).Draw(rt, "which")
				}
				c.Ends = append(c.Ends, e)
			}
			if rapid.Bool().Draw(rt, "few") {
				c.Few = rapid.IntRange(0, c.N-1).Draw(rt, "first")
			}
			return c
		}, runLin)
}
