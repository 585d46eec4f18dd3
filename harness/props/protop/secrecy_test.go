package protop

import (
	"fmt"
	"math/big"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"

	"verif.local/harness/internal/arun"
	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/pbt"
)

// ---- C30

type secCase struct {
	arun.Base
	Pk     pkCase
	T      int
	Alpha  pbt.Int
	Reveal bool // the threshold secret is revealed at the end
	Few    bool // a party is missing when raising
}

// dict looks for secret numbers in messages.
type dict struct {
	by map[string]string // 24 bytes of the number -> what it is
	n  int
}

func newDict() *dict { return &dict{by: map[string]string{}} }

const window = 24

// add takes a number up, in big and in little endian, and the bytes of its negative.
func (d *dict) add(what string, x *big.Int) {
	y := new(big.Int).Mod(new(big.Int).Neg(x), pbt.N)
	for i, v := range []*big.Int{x, y} {
		b := v.Bytes()
		if len(b) < window {
			continue
		}
		w := what
		if i == 1 {
			w = "the negative of " + what
		}
		// any window that contains the middle of the number: the first and the last 24 bytes
		for _, s := range [][]byte{b[:window], b[len(b)-window:]} {
			d.by[string(s)] = w
			r := make([]byte, window)
			for j := range s {
				r[window-1-j] = s[j]
			}
			d.by[string(r)] = w + ", reversed,"
		}
	}
	d.n++
}

// find tells which of the numbers is in a message.
func (d *dict) find(m []byte) string {
	for i := 0; i+window <= len(m); i++ {
		if w, ok := d.by[string(m[i:i+window])]; ok {
			return w
		}
	}
	return ""
}

func runSecrecy(t *pbt.T, c secCase) {
	t.NonTrivial()
	t.Label("t=%d", c.T)
	cfg := c.Config()
	ks, pubs := c.Pk.keys()
	type marks struct{ gen, gen2, reshare, exp, lin, mult, multEnd, open, openEnd, key, check, reveal int }
	ms := make([]marks, c.N)
	multShare := make([]*big.Int, c.N)
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		m := &ms[p.Pid]
		at := func(i *int) { *i = len(p.Rounds) }
		gen := func(l string) (*arith.ADSecret, error) { return arith.Gen(l, s, c.Egf(), uint16(p.Pid), uint16(c.N)) }
		at(&m.gen)
		a, err := gen("a")
		if err != nil {
			return err
		}
		at(&m.gen2)
		b, err := gen("b")
		if err != nil {
			return err
		}
		at(&m.reshare)
		ts, err := a.Reshare(uint16(c.T))
		if err != nil {
			return err
		}
		at(&m.exp)
		if _, err := ts.Exp(); err != nil {
			return err
		}
		at(&m.lin)
		l := arith.Lin(c.Alpha.Copy(), c.Alpha.Copy(), ts, ts, "l")
		if _, err := l.Exp(); err != nil {
			return err
		}
		at(&m.mult)
		k := ks[p.Pid]
		pr, err := arith.Mult(a, b, "c", k.priv, k.pub, pubs())
		if err != nil {
			return err
		}
		at(&m.multEnd)
		at(&m.key)
		dk, err := arith.GenExpReveal(uint16(p.Pid), "key", s, uint16(c.N), g)
		if err != nil {
			return err
		}
		at(&m.check)
		u := cv.Mul(big.NewInt(int64(c.Seed%1000 + 2)))
		if err := arith.CheckDH(u, arun.Mul(dk.PublicKey(), big.NewInt(int64(c.Seed%1000+2))), g, dk); err != nil {
			return err
		}
		// the share of the product, through a resharing whose polynomials are constant
		at(&m.open)
		if _, err := pr.Reshare(1); err != nil {
			return err
		}
		at(&m.openEnd)
		if v, _, err := step8(p.Rounds[m.open+stSend].To((p.Pid + 1) % c.N)); err == nil {
			multShare[p.Pid] = v
		}
		at(&m.reveal)
		if c.Reveal {
			if _, err := ts.Reveal(); err != nil {
				return err
			}
		}
		return nil
	})
	ok(t, cl, hang)

	// the draws of all parties: shares, coefficients, randomness of commitments and proofs, masks
	draws := newDict()
	type known struct {
		pid int
		x   *big.Int
	}
	logs := map[string]known{}
	for _, p := range cl.Parties {
		for i, r := range p.Stream.Reads {
			if len(r) < 32 {
				continue
			}
			x := new(big.Int).SetBytes(r)
			draws.add(fmt.Sprintf("draw %d of party %d", i, p.Pid), x)
			if len(r) == 32 {
				for _, d := range []int64{0, 1} {
					y := new(big.Int).Add(x, big.NewInt(d))
					y.Mod(y, pbt.N)
					logs[string(cv.Enc(t, cv.Mul(y)))] = known{p.Pid, y}
				}
			}
		}
	}
	log := func(p curve.Point) *big.Int {
		if k, ok := logs[string(cv.Enc(t, p))]; ok {
			return k.x
		}
		return nil
	}
	// the polynomials: coefficients are draws
	polys := make([][]*big.Int, c.N)
	complete := true
	for _, p := range cl.Parties {
		for _, q := range coefPoints(t, c.Base, p, ms[p.Pid].reshare, c.T) {
			x := log(q)
			if x == nil {
				complete = false
				break
			}
			polys[p.Pid] = append(polys[p.Pid], x)
		}
		complete = complete && len(polys[p.Pid]) == c.T
	}
	// evaluations and new shares; what each party may get
	evals := map[string]string{}
	others := newDict()
	if complete {
		for l := 0; l < c.N; l++ {
			share := new(big.Int)
			for q := 0; q < c.N; q++ {
				v := new(big.Int)
				for i := c.T - 1; i >= 0; i-- {
					v.Mul(v, big.NewInt(int64(l+1))).Add(v, polys[q][i])
				}
				v.Mod(v, pbt.N)
				share.Add(share, v)
				evals[fmt.Sprint(q, " ", l)] = v.String()
				if c.T > 1 {
					others.add(fmt.Sprintf("the evaluation of party %d for party %d", q, l), v)
				}
			}
			share.Mod(share, pbt.N)
			others.add(fmt.Sprintf("the new share of party %d", l), share)
			twice := new(big.Int).Mul(share, big.NewInt(2))
			twice.Mul(twice, c.Alpha.Int)
			if c.Alpha.Sign() != 0 {
				others.add(fmt.Sprintf("the combined share of party %d", l), twice.Mod(twice, pbt.N))
			}
		}
	} else {
		t.Label("coefficients are not draws")
	}
	prod := newDict()
	for pid, x := range multShare {
		if x != nil {
			prod.add(fmt.Sprintf("the share of the product of party %d", pid), x)
		}
	}
	for _, p := range cl.Parties {
		m := ms[p.Pid]
		for k, ev := range p.Rounds {
			if k >= m.reveal {
				continue
			}
			send := k == m.reshare+stSend
			open := k >= m.open && k < m.openEnd
			for to := 0; to < c.N; to++ {
				if to == p.Pid {
					continue
				}
				msg := ev.To(to)
				// with threshold 1 the polynomial is the share itself
				if w := draws.find(msg); w != "" && !(send && c.T == 1) && !open {
					t.Failf("the message of party %d to party %d in round %d contains %s", p.Pid, to, k, w)
				}
				if w := prod.find(msg); w != "" && !open {
					t.Failf("the message of party %d to party %d in round %d contains %s", p.Pid, to, k, w)
				}
				if w := others.find(msg); w != "" {
					good := false
					if v, _, err := step8(msg); send && err == nil {
						good = evals[fmt.Sprint(p.Pid, " ", to)] == v.String()
					}
					if !good {
						t.Failf("the message of party %d to party %d in round %d contains %s", p.Pid, to, k, w)
					}
				}
				if send && complete {
					v, r, err := step8(msg)
					if err == nil {
						reduced := v.Cmp(pbt.N) < 0
						v.Mod(v, pbt.N)
						t.Check(reduced || evals[fmt.Sprint(p.Pid, " ", to)] != v.String(), "the evaluation that party %d sends to party %d is not reduced", p.Pid, to)
					}
					if err == nil && evals[fmt.Sprint(p.Pid, " ", to)] == v.String() {
						t.Label("evaluations seen")
						t.Check(arun.Reduced(r), "the randomness of the evaluation that party %d sends to party %d is not reduced", p.Pid, to)
						for other := 0; other < c.N && c.T > 1; other++ {
							if other != to {
								t.Check(v.String() != evals[fmt.Sprint(p.Pid, " ", other)], "party %d sends party %d the evaluation for party %d", p.Pid, to, other)
							}
						}
					} else if err == nil && c.T > 1 {
						for other := 0; other < c.N; other++ {
							t.Check(v.String() != evals[fmt.Sprint(p.Pid, " ", other)], "party %d sends party %d the evaluation for party %d", p.Pid, to, other)
						}
					}
				}
			}
			if send && len(ev.Sent) == 1 && c.N > 2 && c.T > 1 {
				t.Failf("party %d sends its evaluations to everybody", p.Pid)
			}
		}
	}
	secrecyOfMult(t, c, cl, ks, func(p int) (*big.Int, *big.Int, int, int) {
		a, b := shareOf(t, c, cl, log, p, ms[p].gen), shareOf(t, c, cl, log, p, ms[p].gen2)
		return a, b, ms[p].mult, ms[p].multEnd
	})
}

func shareOf(t *pbt.T, c secCase, cl *cluster.Cluster, log func(curve.Point) *big.Int, p, round int) *big.Int {
	return log(c.Open(published(t, cl.Parties[p], round)))
}

// secrecyOfMult decrypts the messages of a multiplication with the key of their receiver: shares must
// not be seen in them, nor follow from them.
func secrecyOfMult(t *pbt.T, c secCase, cl *cluster.Cluster, ks []pkey, of func(p int) (a, b *big.Int, from, to int)) {
	for _, p := range cl.Parties {
		a, b, from, to := of(p.Pid)
		if a == nil || b == nil {
			t.Label("shares are not draws")
			return
		}
		for k := from; k < to; k++ {
			for q := 0; q < c.N; q++ {
				if q == p.Pid {
					continue
				}
				m := p.Rounds[k].To(q)
				qa, qb, _, _ := of(q)
				x, err := ks[q].priv.Decrypt(new(big.Int).SetBytes(m))
				if err != nil || qa == nil {
					continue
				}
				t.Label("decrypted")
				d := newDict()
				d.add("the share of a", a)
				d.add("the share of b", b)
				w := d.find(x.Bytes())
				t.Check(w == "", "party %d decrypts %s of party %d", q, w, p.Pid)
				// the randomness of the answer, which its receiver can compute, must not be that of the
				// question raised to a share: guesses of the share could be tested
				n := ks[q].pub.N
				for j := from; j < k; j++ {
					c1 := new(big.Int).SetBytes(cl.Parties[q].Rounds[j].To(p.Pid))
					if c1.Mod(c1, n).BitLen() < 256 {
						continue
					}
					for i, s := range []*big.Int{a, b} {
						d := new(big.Int).Exp(c1, s, n)
						d.Sub(d, new(big.Int).SetBytes(m)).Mod(d, n)
						t.Check(s.BitLen() < 128 || d.Sign() != 0, "what party %d answers to party %d in round %d determines its share of %s: it is not randomised", p.Pid, q, k, []string{"a", "b"}[i])
						t.Label("answers seen")
					}
				}
				for _, f := range []*big.Int{qa, qb} {
					if f.Sign() == 0 {
						continue
					}
					// the quotient by the receiver's own share
					quo := new(big.Int).Div(x, f)
					for _, s := range []*big.Int{a, b} {
						diff := new(big.Int).Sub(quo, s)
						t.Check(diff.BitLen() > 128, "party %d reads the share of party %d, up to %d bits, off a message", q, p.Pid, diff.BitLen())
					}
				}
			}
		}
	}
}

// ---- the randomness hides: two runs that differ in a secret only

type maskCase struct {
	arun.Base
	Pk   pkCase
	A, B []pbt.Int
	Runs int
}

// runMasks multiplies the same numbers again and again: what the receiver decrypts must not repeat and
// must have random leading bits.
func runMasks(t *pbt.T, c maskCase) {
	t.NonTrivial()
	ks, pubs := c.Pk.keys()
	seen := map[string]bool{}
	high := map[int]map[string]int{}
	for r := 0; r < c.Runs; r++ {
		cfg := c.Config()
		cfg.Seed += uint64(r) * 7777777
		cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
			k := ks[p.Pid]
			_, err := arith.PrivMult(c.A[p.Pid].Copy(), c.B[p.Pid].Copy(), p.Pid, c.N, s, k.priv, k.pub, pubs())
			return err
		})
		ok(t, cl, hang)
		for _, p := range cl.Parties {
			for k := range p.Rounds {
				for q := 0; q < c.N; q++ {
					if q == p.Pid {
						continue
					}
					m := p.Rounds[k].To(q)
					// a message for all is not meant to be decrypted by each
					key := fmt.Sprintf("%d %x", p.Pid, m)
					if len(p.Rounds[k].Sent) == 1 {
						if q == (p.Pid+1)%c.N {
							t.Check(!seen[key], "party %d sends the same ciphertext twice", p.Pid)
							seen[key] = true
						}
						continue
					}
					t.Check(!seen[key], "party %d sends the same ciphertext twice", p.Pid)
					seen[key] = true
					x, err := ks[q].priv.Decrypt(new(big.Int).SetBytes(m))
					if err != nil {
						continue
					}
					// the top byte of the range
					top := new(big.Int).Rsh(x, uint(ks[q].pub.N.BitLen()-4))
					if high[q] == nil {
						high[q] = map[string]int{}
					}
					high[q][top.String()]++
				}
			}
		}
	}
	for q, h := range high {
		n := 0
		for _, k := range h {
			n += k
		}
		for top, k := range h {
			// the range covers at least 4 of the 16 values, but for the smallest keys
			t.Check(n < 24 || k < n*19/20, "%d of %d numbers that party %d decrypts have leading bits %s: the masks are too short", k, n, q, top)
		}
		t.Label("masks seen")
	}
}

func init() {
	pbt.Facet("C30", "messages", "generation, resharing, raising, combining, multiplication, key generation and the check by 2 to 5 parties: no message contains a draw of any party, an evaluation (but for its owner) or a new share, in any byte order or negated, nor does one follow from what a receiver decrypts; non-trivial: always",
		500, 20000,
		func(rt *rapid.T) secCase {
			c := secCase{Base: arun.GenBase(rt, 2, 5, 0), Alpha: pbt.NonZero(rt, "alpha")}
			c.Pk = genPk(rt, c.N)
			c.T = rapid.IntRange(1, c.N).Draw(rt, "t")
			c.Reveal = rapid.Bool().Draw(rt, "reveal")
			return c
		}, runSecrecy)
	pbt.Facet("C30", "masks", "the same numbers are multiplied 16 to 40 times: ciphertexts never repeat and the leading bits of what receivers decrypt vary; non-trivial: always",
		60, 2000,
		func(rt *rapid.T) maskCase {
			c := maskCase{Base: arun.GenBase(rt, 2, 3, 0), Runs: rapid.IntRange(24, 40).Draw(rt, "runs")}
			c.Pk = genPk(rt, c.N)
			for i := 0; i < c.N; i++ {
				c.A = append(c.A, pbt.Scalar(rt, "a"))
				c.B = append(c.B, pbt.Scalar(rt, "b"))
			}
			return c
		}, runMasks)
}
