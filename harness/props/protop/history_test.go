package protop

import (
	"fmt"
	"math/big"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"

	"verif.local/harness/internal/arun"
	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/pbt"
)

// ---- C34: any history of operations against arithmetic on the joint values

const (
	opGen = iota
	opReshare
	opLin
	opMult
	opExp
	opReveal
	opKey
	opDH
	opFail // an operation that fails at all parties
	opKinds
)

var opNames = [...]string{"generate", "reshare", "combine", "multiply", "raise", "reveal", "generate a key", "check a pair", "fail"}

type histOp struct {
	Kind int
	X, Y int     // operands, counted modulo the number there are
	T    int     // threshold
	A, B pbt.Int // coefficients, or logarithm and offset of a pair
	What int     // which operation fails
	At   int     // and in which of its rounds
}

type histCase struct {
	arun.Base
	Pk   pkCase
	Late bool // the joint values are found out at the end, not when the secrets are generated
	Ops  []histOp
}

func (o histOp) kind(ads, tds, keys int) int {
	k := o.Kind
	if k == opFail {
		k = o.What
	}
	switch {
	case (k == opReshare || k == opMult) && ads == 0, (k == opLin || k == opExp || k == opReveal) && tds == 0, k == opDH && keys == 0:
		return -1
	case o.Kind == opFail && k != opGen && k != opReshare && k != opMult && k != opKey && k != opDH && k != opExp:
		return -1
	}
	return k
}

type histParty struct {
	ads, tds []secret
	keys     []*arith.DKey
	vals     map[int]*big.Int // generated secrets as revealed alone
	out      []histOut
}

// secret is an arithmetic or threshold secret and how it came about.
type secret struct {
	a *arith.ADSecret
	t *arith.TDSecret
}

type histOut struct {
	ran bool
	v   *big.Int
	key curve.Point
	err error
}

func runHistory(t *pbt.T, c histCase) {
	ks, pubs := c.Pk.keys()
	garble := make([]int, c.N) // round in which what the party gets is made useless
	for i := range garble {
		garble[i] = -1
	}
	cfg := c.Config()
	cfg.OnRecv = func(me *cluster.Party, round, from int, data []byte) []byte {
		if garble[me.Pid] == round {
			return []byte{0xff}
		}
		return nil
	}
	ps := make([]*histParty, c.N)
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		h := &histParty{vals: map[int]*big.Int{}}
		ps[p.Pid] = h
		pid, n := uint16(p.Pid), uint16(c.N)
		egf := c.Egf()
		k := ks[p.Pid]
		all := pubs()
		alone := func(a *arith.ADSecret) (*big.Int, error) {
			x, err := a.Reshare(1)
			if err != nil {
				return nil, err
			}
			return x.Reveal()
		}
		gens := map[int]*arith.ADSecret{}
		for i, o := range c.Ops {
			var out histOut
			kind := o.kind(len(h.ads), len(h.tds), len(h.keys))
			if kind < 0 {
				h.out = append(h.out, out)
				continue
			}
			out.ran = true
			fail := o.Kind == opFail
			if fail {
				garble[p.Pid] = len(p.Rounds) + o.At%map[int]int{opGen: 1, opReshare: reshareRounds, opMult: 1, opKey: 2, opDH: 3, opExp: 1}[kind]
				if kind == opMult {
					// in both rounds of commitments
					garble[p.Pid] = len(p.Rounds) + 2 + o.At%2
				}
			}
			var ad *arith.ADSecret
			var td *arith.TDSecret
			var key *arith.DKey
			var err error
			switch kind {
			case opGen:
				ad, err = arith.Gen(fmt.Sprint(i), s, egf, pid, n)
				if err == nil && !fail {
					gens[i] = ad
					if !c.Late {
						if h.vals[i], err = alone(ad); err != nil {
							return fmt.Errorf("operation %d: revealing a new secret: %v", i, err)
						}
					}
				}
			case opReshare:
				td, err = h.ads[o.X%len(h.ads)].a.Reshare(uint16(o.T))
			case opMult:
				ad, err = arith.Mult(h.ads[o.X%len(h.ads)].a, h.ads[o.Y%len(h.ads)].a, fmt.Sprint(i), k.priv, k.pub, all)
			case opLin:
				td = arith.Lin(o.A.Copy(), o.B.Copy(), h.tds[o.X%len(h.tds)].t, h.tds[o.Y%len(h.tds)].t, fmt.Sprint(i))
			case opExp:
				var tk *arith.TDKey
				if tk, err = h.tds[o.X%len(h.tds)].t.Exp(); err == nil {
					out.key = tk.PublicKey()
				}
			case opReveal:
				out.v, err = h.tds[o.X%len(h.tds)].t.Reveal()
			case opKey:
				if key, err = arith.GenExpReveal(pid, fmt.Sprint(i), s, n, g); err == nil {
					out.key = key.PublicKey()
				}
			case opDH:
				dk := h.keys[o.X%len(h.keys)]
				u := cv.Mul(o.A.Int)
				v := g.Add(arun.Mul(dk.PublicKey(), o.A.Int), cv.Mul(o.B.Int))
				out.err = arith.CheckDH(u, v, g, dk)
			}
			hit := garble[p.Pid] >= 0 && garble[p.Pid] < len(p.Rounds)
			garble[p.Pid] = -1
			if fail && hit {
				if err == nil {
					err = out.err
				}
				if kind == opExp && (c.N == 1 || h.tds[o.X%len(h.tds)].t.Threshold() <= 1) {
					// the own share is enough
				} else if err == nil {
					t.Failf("operation %d (%s) gives no error although all that party %d received was made useless", i, opNames[kind], p.Pid)
				}
			}
			if fail {
				// nothing of it is used again
				h.out = append(h.out, histOut{})
				continue
			}
			if err != nil {
				return fmt.Errorf("operation %d (%s): %v", i, opNames[kind], err)
			}
			if ad != nil {
				h.ads = append(h.ads, secret{a: ad})
			}
			if td != nil {
				h.tds = append(h.tds, secret{t: td})
			}
			if key != nil {
				h.keys = append(h.keys, key)
			}
			h.out = append(h.out, out)
		}
		if c.Late {
			for i := range c.Ops {
				if a := gens[i]; a != nil {
					var err error
					if h.vals[i], err = alone(a); err != nil {
						return fmt.Errorf("revealing the secret of operation %d in the end: %v", i, err)
					}
				}
			}
		}
		// whatever was done with them since, shares, randomness and commitments still go together
		for i, x := range h.tds {
			if _, err := x.t.Reshare(1); err != nil {
				return fmt.Errorf("in the end the share of threshold secret %d does not fit its commitments: %v", i, err)
			}
		}
		return nil
	})
	ok(t, cl, hang)
	// the model
	var ads, tds []*big.Int
	var keys []curve.Point
	mod := func(x *big.Int) *big.Int { return x.Mod(x, pbt.N) }
	kinds := map[int]bool{}
	for i, o := range c.Ops {
		kind := o.kind(len(ads), len(tds), len(keys))
		if kind < 0 {
			continue
		}
		t.Label("%s", opNames[o.Kind])
		kinds[o.Kind] = true
		if o.Kind == opFail {
			continue
		}
		var val *big.Int
		switch kind {
		case opGen:
			for _, h := range ps {
				t.Check(h.vals[i] != nil && h.vals[i].Cmp(ps[0].vals[i]) == 0, "operation %d: parties reveal different values of the same secret", i)
			}
			ads = append(ads, ps[0].vals[i])
		case opReshare:
			tds = append(tds, ads[o.X%len(ads)])
		case opMult:
			val = mod(new(big.Int).Mul(ads[o.X%len(ads)], ads[o.Y%len(ads)]))
			ads = append(ads, val)
		case opLin:
			val = new(big.Int).Mul(o.A.Int, tds[o.X%len(tds)])
			val.Add(val, new(big.Int).Mul(o.B.Int, tds[o.Y%len(tds)]))
			tds = append(tds, mod(val))
		case opExp:
			want := cv.Mul(tds[o.X%len(tds)])
			for q, h := range ps {
				t.Check(arun.Eq(h.out[i].key, want), "operation %d: raising gives party %d a wrong public key", i, q)
			}
		case opReveal:
			for q, h := range ps {
				t.Check(h.out[i].v != nil && h.out[i].v.Cmp(tds[o.X%len(tds)]) == 0, "operation %d: party %d reveals %x instead of %x", i, q, h.out[i].v, tds[o.X%len(tds)])
			}
		case opKey:
			keys = append(keys, ps[0].out[i].key)
			for q, h := range ps {
				t.Check(arun.Eq(h.out[i].key, keys[len(keys)-1]), "operation %d: parties 0 and %d have different keys", i, q)
			}
		case opDH:
			want := mod(new(big.Int).Set(o.B.Int)).Sign() == 0
			for q, h := range ps {
				t.Check((h.out[i].err == nil) == want, "operation %d: the check of a pair which is Diffie-Hellman: %v gives party %d %v", i, want, q, h.out[i].err)
			}
		}
	}
	if len(kinds) >= 3 {
		t.NonTrivial()
	}
}

func genHistory(rt *rapid.T) histCase {
	c := histCase{Base: arun.GenBase(rt, 2, 4, 3), Late: rapid.Bool().Draw(rt, "late")}
	c.Pk = genPk(rt, c.N)
	kinds := []int{opReshare, opReshare, opLin, opLin, opMult, opExp, opReveal, opReveal, opGen, opKey, opDH, opDH, opFail}
	for i := rapid.SampledFrom([]int{3, 5, 8, 10, 12, 14}).Draw(rt, "ops"); i > 0; i-- {
		o := histOp{Kind: rapid.SampledFrom(kinds).Draw(rt, "kind"), X: rapid.IntRange(0, 5).Draw(rt, "x"), Y: rapid.IntRange(0, 5).Draw(rt, "y"),
			T: rapid.IntRange(1, c.N).Draw(rt, "t"), A: coefficient(rt, "a"), B: coefficient(rt, "b")}
		if len(c.Ops) == 0 {
			o.Kind = opGen
		}
		if len(c.Ops) == 1 && rapid.IntRange(0, 3).Draw(rt, "reshare") > 0 {
			o.Kind = opReshare
		}
		if len(c.Ops) == 2 && rapid.IntRange(0, 3).Draw(rt, "key") == 0 {
			o.Kind = opKey
		}
		if o.Kind == opFail {
			o.What = rapid.SampledFrom([]int{opGen, opReshare, opReshare, opMult, opKey, opDH, opExp}).Draw(rt, "what")
			o.At = rapid.IntRange(0, 5).Draw(rt, "at")
		}
		if o.Kind == opDH && rapid.Bool().Draw(rt, "pair") {
			o.B = pbt.Int{Int: new(big.Int)}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func init() {
	i := func(x int64) pbt.Int { return pbt.Int{Int: big.NewInt(x)} }
	op := func(kind, x, y, th int, a, b int64) histOp {
		return histOp{Kind: kind, X: x, Y: y, T: th, A: i(a), B: i(b)}
	}
	pbt.Facet("C34", "history", "histories of up to 14 operations on secrets and keys of 2 to 4 parties, with operations failing at all parties in between, against the same computation on the joint values; non-trivial: at least three kinds of operations",
		900, 24000, genHistory, runHistory,
		histCase{Base: arun.Base{N: 3, D: i(7)}, Pk: pkCase{Seeds: []uint64{0, 8, 16}, Bits: []int{514, 520, 516}}, Ops: []histOp{
			op(opGen, 0, 0, 0, 0, 0), op(opGen, 0, 0, 0, 0, 0), op(opMult, 0, 1, 0, 0, 0), op(opMult, 2, 2, 0, 0, 0), op(opReshare, 0, 0, 3, 0, 0), op(opReshare, 1, 0, 2, 0, 0), op(opReshare, 3, 0, 2, 0, 0),
			op(opExp, 0, 0, 0, 0, 0), op(opLin, 0, 1, 0, 5, 7), op(opReveal, 0, 0, 0, 0, 0), op(opReveal, 3, 0, 0, 0, 0), op(opLin, 3, 3, 0, 1, 1), op(opExp, 2, 0, 0, 0, 0), op(opReveal, 4, 0, 0, 0, 0), op(opExp, 4, 0, 0, 0, 0), op(opReveal, 2, 0, 0, 0, 0), op(opReshare, 0, 0, 1, 0, 0), op(opReveal, 5, 0, 0, 0, 0)}})
}
