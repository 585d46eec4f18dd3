package cryptop

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"pgregory.net/rapid"

	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/det"
	"verif.local/harness/internal/eg"
	"verif.local/harness/internal/pbt"
	"verif.local/harness/internal/ref"
)

func withStream(seed uint64, prefix []byte, f func()) { det.With(det.New(seed, prefix), f) }

// ---- C10

type honest struct {
	D, V, R, R2 pbt.Int
	Nonce       string
	Stream      uint64
}

func init() {
	pbt.Facet("C10", "knowledge", "value, randomness (any size), base, special blinding values; the proof made with the opening verifies, again, after a round trip and with another factory of the base; arguments unchanged; non-trivial: value and randomness non-zero",
		10000, 400000, func(rt *rapid.T) honest {
			return honest{baseLog(rt), pbt.BigScalar(rt, "v"), pbt.BigScalar(rt, "r"), pbt.Int{Int: zero()}, rapid.SampledFrom(nonces).Draw(rt, "nonce"), rapid.Uint64().Draw(rt, "stream")}
		}, func(t *pbt.T, c honest) {
			fct := commitment.NewElGamalFactory(cv.Mul(c.D.Int))
			fct2 := commitment.NewElGamalFactory(cv.Mul(c.D.Int))
			v, r := c.V.Copy(), c.R.Copy()
			comm := fct.Create(v, r)
			enc := eg.Encoded(t, comm)
			var p *zkpok.ZKEGKnow
			var err error
			withStream(c.Stream, noncePrefix(c.Nonce), func() { p, err = zkpok.NewZKEGKnow(fct, comm, v, r) })
			t.Check(err == nil, "making a proof: %v", err)
			for i := 0; i < 2; i++ {
				err = p.Verify(fct, comm)
				t.Check(err == nil, "verification %d of the proof of knowledge of (%x, %x) under %x*G: %v", i, c.V.Int, c.R.Int, c.D.Int, err)
			}
			err = p.Verify(fct2, eg.Components(t, comm).Comm(t))
			t.Check(err == nil, "verification of the proof with copies of the statement: %v", err)
			q := &zkpok.ZKEGKnow{}
			t.Check(q.Decode(bytes.NewReader(eg.Encoded(t, p))) == nil && q.Verify(fct, comm) == nil, "the proof of (%x, %x) does not verify after a round trip", c.V.Int, c.R.Int)
			t.Check(v.Cmp(c.V.Int) == 0 && r.Cmp(c.R.Int) == 0, "the witness was changed")
			before := eg.Encoded(t, p)
			pbt.Scribble(v, r)
			t.Check(p.Verify(fct, comm) == nil && bytes.Equal(before, eg.Encoded(t, p)), "the proof of (%x, %x) changes together with the numbers it was made from", c.V.Int, c.R.Int)
			t.Check(bytes.Equal(enc, eg.Encoded(t, comm)), "the commitment was changed")
			t.Check(fct.IsNeutral(fct.Neutral()), "the factory was changed")
			if mod(c.V.Int).Sign() != 0 && mod(c.R.Int).Sign() != 0 {
				t.NonTrivial()
			}
			if c.Nonce != "" {
				t.Label("special blinding")
			}
			if c.D.Sign() == 0 {
				t.Label("neutral base")
			}
		})
	pbt.Facet("C10", "refresh", "a commitment (value, randomness), a refreshing randomness, base, special blinding values; the refresh proof verifies, again, after a round trip and with another factory; arguments unchanged; non-trivial: refreshing randomness non-zero",
		10000, 400000, func(rt *rapid.T) honest {
			return honest{baseLog(rt), pbt.BigScalar(rt, "v"), pbt.BigScalar(rt, "r"), pbt.BigScalar(rt, "r2"), rapid.SampledFrom(nonces).Draw(rt, "nonce"), rapid.Uint64().Draw(rt, "stream")}
		}, func(t *pbt.T, c honest) {
			fct := commitment.NewElGamalFactory(cv.Mul(c.D.Int))
			fct2 := commitment.NewElGamalFactory(cv.Mul(c.D.Int))
			r := c.R2.Copy()
			c1 := fct.Create(c.V.Int, c.R.Int)
			c2 := fct.Neutral().Compose(c1, fct.Create(zero(), r))
			e1, e2 := eg.Encoded(t, c1), eg.Encoded(t, c2)
			var p *zkpok.ZKEGRefresh
			var err error
			withStream(c.Stream, noncePrefix(c.Nonce), func() { p, err = zkpok.NewZKEGRefresh(fct, c1, c2, r) })
			t.Check(err == nil, "making a proof: %v", err)
			for i := 0; i < 2; i++ {
				err = p.Verify(fct, c1, c2)
				t.Check(err == nil, "verification %d of the proof that (%x, %x) was refreshed by %x under %x*G: %v", i, c.V.Int, c.R.Int, c.R2.Int, c.D.Int, err)
			}
			err = p.Verify(fct2, eg.Components(t, c1).Comm(t), eg.Components(t, c2).Comm(t))
			t.Check(err == nil, "verification of the proof with copies of the statement: %v", err)
			q := &zkpok.ZKEGRefresh{}
			t.Check(q.Decode(bytes.NewReader(eg.Encoded(t, p))) == nil && q.Verify(fct, c1, c2) == nil, "the refresh proof does not verify after a round trip")
			t.Check(r.Cmp(c.R2.Int) == 0, "the witness was changed")
			before := eg.Encoded(t, p)
			pbt.Scribble(r)
			t.Check(p.Verify(fct, c1, c2) == nil && bytes.Equal(before, eg.Encoded(t, p)), "the refresh proof changes together with the number it was made from")
			t.Check(bytes.Equal(e1, eg.Encoded(t, c1)) && bytes.Equal(e2, eg.Encoded(t, c2)), "a commitment was changed")
			t.Check(fct.IsNeutral(fct.Neutral()), "the factory was changed")
			if mod(c.R2.Int).Sign() != 0 {
				t.NonTrivial()
			}
			if c.Nonce != "" {
				t.Label("special blinding")
			}
		})
}

// ---- C11, C12: common

func decKnow(t *pbt.T, p eg.Proof) *zkpok.ZKEGKnow {
	z := &zkpok.ZKEGKnow{}
	if z.Decode(bytes.NewReader(p.Enc())) != nil {
		return nil
	}
	return z
}

func decRefresh(t *pbt.T, p eg.Proof) *zkpok.ZKEGRefresh {
	z := &zkpok.ZKEGRefresh{}
	if z.Decode(bytes.NewReader(p.Enc())) != nil {
		return nil
	}
	return z
}

// alterProof changes one component; it reports whether the result differs as an element.
func alterProof(p eg.Proof, what string, delta *big.Int, other eg.Pair) (eg.Proof, bool) {
	q := p
	switch what {
	case "z1":
		q.Z1 = add(p.Z1, delta)
	case "z2":
		q.Z2 = add(p.Z2, delta)
	case "z1neg":
		q.Z1 = sub(zero(), p.Z1)
	case "z2neg":
		q.Z2 = sub(zero(), p.Z2)
	case "swapz":
		q.Z1, q.Z2 = p.Z2, p.Z1
	case "first":
		q.XY.A = g.Add(p.XY.A, cv.Mul(delta))
	case "second":
		q.XY.B = g.Add(p.XY.B, cv.Mul(delta))
	case "firstneg":
		q.XY.A = eg.Pair{A: p.XY.A, B: p.XY.A}.Inv().A
	case "secondneg":
		q.XY.B = eg.Pair{A: p.XY.B, B: p.XY.B}.Inv().A
	case "swapxy":
		q.XY.A, q.XY.B = p.XY.B, p.XY.A
	case "xy":
		q.XY = p.XY.Mul(other)
	case "xyneutral":
		q.XY = eg.Pair{A: g.Neutral(), B: g.Neutral()}
	case "z1zero":
		q.Z1 = zero()
	case "z2zero":
		q.Z2 = zero()
	case "z1lowbits": // only the top byte changes
		q.Z1 = mod(new(big.Int).Xor(p.Z1, new(big.Int).Lsh(big.NewInt(1), 248)))
	case "z2lowbits":
		q.Z2 = mod(new(big.Int).Xor(p.Z2, new(big.Int).Lsh(big.NewInt(1), 248)))
	}
	same := mod(q.Z1).Cmp(mod(p.Z1)) == 0 && mod(q.Z2).Cmp(mod(p.Z2)) == 0 && q.XY.Eq(p.XY)
	return q, !same
}

var alterations = []string{"z1", "z2", "z1neg", "z2neg", "swapz", "first", "second", "firstneg", "secondneg", "swapxy", "xy", "xyneutral", "z1zero", "z2zero", "z1lowbits", "z2lowbits"}

// unknownPoint maps an integer to a point nobody knows the logarithm of.
func unknownPoint(t *pbt.T, x *big.Int) curve.Point {
	x = new(big.Int).Mod(x, pbt.P)
	for {
		if q, ok := ref.LiftX(x); ok {
			b := append([]byte{0, 0, 0, byte(len(q.X.Bytes())), 0, 0, 0, byte(len(q.Y.Bytes()))}, q.X.Bytes()...)
			p, err := g.Decode(bytes.NewReader(append(b, q.Y.Bytes()...)))
			if err != nil {
				t.Failf("a point of the curve does not decode: %v", err)
			}
			return p
		}
		x.Add(x, big.NewInt(1))
		x.Mod(x, pbt.P)
	}
}

// subsets of parts in every order, as bytes to hash.
func orders(parts [][]byte) [][]byte {
	var res [][]byte
	seen := map[string]bool{}
	var rec func(used int, cur []byte)
	rec = func(used int, cur []byte) {
		if !seen[string(cur)] {
			seen[string(cur)] = true
			res = append(res, append([]byte{}, cur...))
		}
		for i := range parts {
			if used&(1<<i) == 0 {
				rec(used|1<<i, append(append([]byte{}, cur...), parts[i]...))
			}
		}
	}
	rec(0, nil)
	return res
}

func challenges(parts ...[]byte) []*big.Int {
	res := []*big.Int{zero(), big.NewInt(1), big.NewInt(2)}
	for _, o := range orders(parts) {
		res = append(res, ref.Challenge(o))
	}
	return res
}

func encPt(p curve.Point) []byte {
	b := &bytes.Buffer{}
	if err := g.Encode(p, b); err != nil {
		pbt.Abort("%v", err)
	}
	return b.Bytes()
}

func expPt(p curve.Point, k *big.Int) curve.Point { return eg.Pair{A: p, B: p}.Exp(k).A }

// ---- C11

type soundCase struct {
	D, D2          pbt.Int
	V, R           pbt.Int
	V2, R2         pbt.Int
	Delta          pbt.Int
	What           string
	A, B, X, Y     pbt.Int // forger's choices
	Stream         uint64
	AfterRoundTrip bool
}

func genSound(kinds []string) func(rt *rapid.T) soundCase {
	return func(rt *rapid.T) soundCase {
		return soundCase{pbt.NonZero(rt, "d"), pbt.NonZero(rt, "d2"), pbt.Scalar(rt, "v"), pbt.Scalar(rt, "r"), pbt.Scalar(rt, "v2"), pbt.Scalar(rt, "r2"),
			pbt.NonZero(rt, "delta"), rapid.SampledFrom(kinds).Draw(rt, "what"),
			pbt.NonZero(rt, "a"), pbt.NonZero(rt, "b"), pbt.Int{Int: pbt.Uniform(rt, pbt.P, "x")}, pbt.Int{Int: pbt.Uniform(rt, pbt.P, "y")},
			rapid.Uint64().Draw(rt, "stream"), rapid.Bool().Draw(rt, "rt")}
	}
}

func init() {
	pbt.Facet("C11", "transfer", "an accepted proof and another statement: value, randomness, one component, inverse, neutral, multiple, other base; must be rejected; non-trivial: the statement differs",
		8000, 300000, genSound([]string{"value", "rnd", "first", "second", "inverse", "neutral", "double", "swap", "base", "base-recommit", "any"}),
		func(t *pbt.T, c soundCase) {
			fct := commitment.NewElGamalFactory(cv.Mul(c.D.Int))
			comm := fct.Create(c.V.Int, c.R.Int)
			var p *zkpok.ZKEGKnow
			var err error
			withStream(c.Stream, nil, func() { p, err = zkpok.NewZKEGKnow(fct, comm, c.V.Copy(), c.R.Copy()) })
			t.Check(err == nil && p.Verify(fct, comm) == nil, "an honest proof is not accepted")
			a := eg.Components(t, comm)
			b := a
			vf := fct
			switch c.What {
			case "value":
				b = eg.Create(cv.Mul(c.D.Int), add(c.V.Int, c.Delta.Int), c.R.Int)
			case "rnd":
				b = eg.Create(cv.Mul(c.D.Int), c.V.Int, add(c.R.Int, c.Delta.Int))
			case "first":
				b.A = g.Add(a.A, cv.Mul(c.Delta.Int))
			case "second":
				b.B = g.Add(a.B, cv.Mul(c.Delta.Int))
			case "inverse":
				b = a.Inv()
			case "neutral":
				b = eg.Pair{A: g.Neutral(), B: g.Neutral()}
			case "double":
				b = a.Exp(big.NewInt(2))
			case "swap":
				b = eg.Pair{A: a.B, B: a.A}
			case "base":
				vf = commitment.NewElGamalFactory(cv.Mul(c.D2.Int))
			case "base-recommit":
				vf = commitment.NewElGamalFactory(cv.Mul(c.D2.Int))
				b = eg.Create(cv.Mul(c.D2.Int), c.V.Int, c.R.Int)
			case "any":
				b = eg.Create(cv.Mul(c.D.Int), c.V2.Int, c.R2.Int)
			}
			if b.Eq(a) && (vf == fct || c.D.Cmp(c.D2.Int) == 0) {
				t.Label("same statement")
				return
			}
			t.NonTrivial()
			t.Label("%s", c.What)
			t.Check(p.Verify(vf, b.Comm(t)) != nil, "the proof for the commitment to (%x, %x) under %x*G is accepted for another statement (%s)", c.V.Int, c.R.Int, c.D.Int, c.What)
		})
	pbt.Facet("C11", "alter", "an accepted proof with one component altered: rejected, for every kind of alteration; non-trivial: always",
		4000, 150000, genSound([]string{""}), func(t *pbt.T, c soundCase) {
			fct := commitment.NewElGamalFactory(cv.Mul(c.D.Int))
			comm := fct.Create(c.V.Int, c.R.Int)
			var p *zkpok.ZKEGKnow
			var err error
			withStream(c.Stream, nil, func() { p, err = zkpok.NewZKEGKnow(fct, comm, c.V.Copy(), c.R.Copy()) })
			t.Check(err == nil && p.Verify(fct, comm) == nil, "an honest proof is not accepted")
			pp := eg.ParseProof(t, eg.Encoded(t, p))
			for _, what := range alterations {
				q, differs := alterProof(pp, what, c.Delta.Int, eg.Create(cv.Mul(c.D.Int), c.V2.Int, c.R2.Int))
				if !differs {
					continue
				}
				t.NonTrivial()
				if z := decKnow(t, q); z != nil {
					t.Check(z.Verify(fct, comm) != nil, "the proof for the commitment to (%x, %x) is accepted after changing %s", c.V.Int, c.R.Int, what)
				}
			}
		})
	pbt.Facet("C11", "wrong-opening", "a proof made from a value or randomness that is not the opening: rejected; non-trivial: the opening differs",
		6000, 200000, genSound([]string{"value", "rnd", "both", "swap", "same-second"}), func(t *pbt.T, c soundCase) {
			fct := commitment.NewElGamalFactory(cv.Mul(c.D.Int))
			comm := fct.Create(c.V.Int, c.R.Int)
			v, r := c.V.Copy(), c.R.Copy()
			switch c.What {
			case "value":
				v = add(v, c.Delta.Int)
			case "rnd":
				r = add(r, c.Delta.Int)
			case "both":
				v, r = c.V2.Copy(), c.R2.Copy()
			case "swap":
				v, r = r, v
			case "same-second": // opens the second component only
				r = add(r, c.Delta.Int)
				v = sub(v, mul(c.D.Int, c.Delta.Int))
			}
			if v.Cmp(c.V.Int) == 0 && r.Cmp(c.R.Int) == 0 {
				return
			}
			t.NonTrivial()
			t.Label("%s", c.What)
			withStream(c.Stream, nil, func() {
				if p, err := zkpok.NewZKEGKnow(fct, comm, v, r); err == nil {
					t.Check(p.Verify(fct, comm) != nil, "a proof made with (%x, %x) is accepted for the commitment to (%x, %x)", v, r, c.V.Int, c.R.Int)
				}
			})
		})
	pbt.Facet("C11", "forge", "forgers that fix the challenge as a constant or the hash of any ordered subset of (commitment, components of the first message, base), then choose the remaining first message or the commitment; every attempt rejected; non-trivial: always",
		800, 30000, genSound([]string{"xy-last", "comm-last", "xy-second-last", "xy-first-last", "comm-second-last", "comm-first-last"}), forgeKnow)

	pbt.Facet("C12", "transfer", "an accepted refresh proof and another pair: swapped, one commitment replaced or shifted, both shifted, other base; rejected; non-trivial: the pair differs",
		8000, 300000, genSound([]string{"swap", "first", "second", "both", "same1", "same2", "base", "value1", "value2", "rnd1", "rnd2", "inverse", "compA", "compB"}),
		func(t *pbt.T, c soundCase) {
			h := cv.Mul(c.D.Int)
			fct := commitment.NewElGamalFactory(h)
			c1 := fct.Create(c.V.Int, c.R.Int)
			c2 := fct.Create(c.V.Int, add(c.R.Int, c.R2.Int))
			var p *zkpok.ZKEGRefresh
			var err error
			withStream(c.Stream, nil, func() { p, err = zkpok.NewZKEGRefresh(fct, c1, c2, c.R2.Copy()) })
			t.Check(err == nil && p.Verify(fct, c1, c2) == nil, "an honest proof is not accepted")
			a1, a2 := eg.Components(t, c1), eg.Components(t, c2)
			b1, b2 := a1, a2
			vf := fct
			sh := eg.Create(h, zero(), c.Delta.Int)
			vsh := eg.Create(h, c.Delta.Int, zero())
			switch c.What {
			case "swap":
				b1, b2 = a2, a1
			case "first":
				b1 = eg.Create(h, c.V2.Int, c.A.Int)
			case "second":
				b2 = eg.Create(h, c.V2.Int, c.A.Int)
			case "both":
				b1, b2 = b1.Mul(sh), b2.Mul(sh)
			case "same1":
				b2 = a1
			case "same2":
				b1 = a2
			case "base":
				vf = commitment.NewElGamalFactory(cv.Mul(c.D2.Int))
			case "value1":
				b1 = b1.Mul(vsh)
			case "value2":
				b2 = b2.Mul(vsh)
			case "rnd1":
				b1 = b1.Mul(sh)
			case "rnd2":
				b2 = b2.Mul(sh)
			case "inverse":
				b1, b2 = b1.Inv(), b2.Inv()
			case "compA":
				b2.A = g.Add(b2.A, cv.Mul(c.Delta.Int))
			case "compB":
				b2.B = g.Add(b2.B, cv.Mul(c.Delta.Int))
			}
			if b1.Eq(a1) && b2.Eq(a2) && (vf == fct || c.D.Cmp(c.D2.Int) == 0) {
				t.Label("same statement")
				return
			}
			t.NonTrivial()
			t.Label("%s", c.What)
			t.Check(p.Verify(vf, b1.Comm(t), b2.Comm(t)) != nil, "the proof that (%x, %x) was refreshed by %x under %x*G is accepted for another pair (%s)", c.V.Int, c.R.Int, c.R2.Int, c.D.Int, c.What)
		})
	pbt.Facet("C12", "alter", "an accepted refresh proof with one component altered: rejected, for every kind of alteration; non-trivial: always",
		4000, 150000, genSound([]string{""}), func(t *pbt.T, c soundCase) {
			h := cv.Mul(c.D.Int)
			fct := commitment.NewElGamalFactory(h)
			c1 := fct.Create(c.V.Int, c.R.Int)
			c2 := fct.Create(c.V.Int, add(c.R.Int, c.R2.Int))
			// the neutral commitment contributes nothing to the verified product
			trivial := c.V.Sign() == 0 && c.R.Sign() == 0
			var p *zkpok.ZKEGRefresh
			var err error
			withStream(c.Stream, nil, func() { p, err = zkpok.NewZKEGRefresh(fct, c1, c2, c.R2.Copy()) })
			t.Check(err == nil && p.Verify(fct, c1, c2) == nil, "an honest proof is not accepted")
			pp := eg.ParseProof(t, eg.Encoded(t, p))
			for _, what := range alterations {
				q, differs := alterProof(pp, what, c.Delta.Int, eg.Create(h, c.V2.Int, c.R2.Int))
				if !differs || (trivial && q.XY.Eq(pp.XY) && mod(q.Z1).Cmp(mod(pp.Z1)) == 0) {
					continue
				}
				t.NonTrivial()
				if z := decRefresh(t, q); z != nil {
					t.Check(z.Verify(fct, c1, c2) != nil, "the proof that (%x, %x) was refreshed by %x is accepted after changing %s", c.V.Int, c.R.Int, c.R2.Int, what)
				}
			}
		})
	pbt.Facet("C12", "wrong-witness", "a refresh proof made from wrong randomness, or for commitments to different values or that are no refreshment at all: rejected; non-trivial: always",
		6000, 200000, genSound([]string{"rnd", "value", "value-adjusted", "first-only", "second-only", "unrelated", "neg"}), func(t *pbt.T, c soundCase) {
			h := cv.Mul(c.D.Int)
			fct := commitment.NewElGamalFactory(h)
			p1 := eg.Create(h, c.V.Int, c.R.Int)
			p2 := eg.Create(h, c.V.Int, add(c.R.Int, c.R2.Int))
			r := c.R2.Copy()
			switch c.What {
			case "rnd":
				r = add(r, c.Delta.Int)
			case "neg":
				p2 = eg.Create(h, sub(zero(), c.V.Int), add(c.R.Int, c.R2.Int))
			case "value":
				p2 = p2.Mul(eg.Create(h, c.Delta.Int, zero()))
			case "value-adjusted": // same second component as an honest refreshment
				p2 = eg.Create(h, add(c.V.Int, mul(c.D.Int, c.Delta.Int)), sub(add(c.R.Int, c.R2.Int), c.Delta.Int))
			case "first-only":
				p2.A = unknownPoint(t, c.X.Int)
			case "second-only":
				p2.B = unknownPoint(t, c.X.Int)
			case "unrelated":
				p2 = eg.Create(h, c.V2.Int, c.A.Int)
			}
			if p1.Mul(eg.Create(h, zero(), r)).Eq(p2) {
				t.Label("happens to be a refreshment")
				return
			}
			t.NonTrivial()
			t.Label("%s", c.What)
			c1, c2 := p1.Comm(t), p2.Comm(t)
			withStream(c.Stream, nil, func() {
				if p, err := zkpok.NewZKEGRefresh(fct, c1, c2, r); err == nil {
					t.Check(p.Verify(fct, c1, c2) != nil, "a refresh proof made with %x is accepted for the commitment to (%x, %x) and one that is not refreshed by that (%s)", r, c.V.Int, c.R.Int, c.What)
				}
			})
		})
	pbt.Facet("C12", "forge", "forgers of refreshments between different values: challenge a constant or the hash of any ordered subset of (commitments, first message, base), remaining first message or a commitment chosen afterwards, or a scaled commitment with consistent responses; rejected; non-trivial: always",
		400, 16000, genSound([]string{"xy-last", "c2-last", "c1-last", "scaled", "scaled", "xy-second-last", "xy-first-last", "c2-second-last", "c2-first-last"}), forgeRefresh)
}

func forgeKnow(t *pbt.T, c soundCase) {
	t.NonTrivial()
	t.Label("%s", c.What)
	h := cv.Mul(c.D.Int)
	fct := commitment.NewElGamalFactory(h)
	hEnc := encPt(h)
	U, W := unknownPoint(t, c.X.Int), unknownPoint(t, c.Y.Int)
	z1, z2 := c.A.Int, c.B.Int // chosen responses
	sigma, rho := c.V2.Int, c.R2.Int
	r, v := c.R.Int, c.V.Int
	gh := func(z1, z2 *big.Int) eg.Pair { return eg.Create(h, z2, z1) } // what the responses must give
	try := func(comm eg.Pair, p eg.Proof, how string) {
		if z := decKnow(t, p); z != nil {
			t.Check(z.Verify(fct, comm.Comm(t)) != nil, "a proof of knowledge of an opening nobody knows is accepted: forged by choosing %s", how)
		}
	}
	inv := func(e *big.Int) *big.Int { return new(big.Int).ModInverse(e, pbt.N) }
	switch c.What {
	case "xy-last":
		comm := eg.Pair{A: U, B: W}
		for _, e := range challenges(comm.Enc(), hEnc) {
			try(comm, eg.Proof{Z1: z1, Z2: z2, XY: gh(z1, z2).Mul(comm.Exp(e).Inv())}, "the first message after the challenge")
		}
		for _, e := range challenges(encPt(U), encPt(W)) {
			try(comm, eg.Proof{Z1: z1, Z2: z2, XY: gh(z1, z2).Mul(comm.Exp(e).Inv())}, "the first message after the challenge")
		}
	case "comm-last":
		xy := eg.Pair{A: U, B: W}
		for _, e := range challenges(xy.Enc(), hEnc) {
			if e.Sign() == 0 {
				continue
			}
			try(gh(z1, z2).Mul(xy.Inv()).Exp(inv(e)), eg.Proof{Z1: z1, Z2: z2, XY: xy}, "the commitment after the challenge")
		}
	case "xy-second-last":
		// r known, v not: the second component of the first message is chosen last
		comm := eg.Pair{A: cv.Mul(r), B: U}
		xa := cv.Mul(sigma)
		for _, e := range append(challenges(comm.Enc(), encPt(xa), hEnc), challenges(encPt(comm.A), encPt(xa))...) {
			z1 := add(sigma, mul(e, r))
			xb := g.Add(gh(z1, z2).B, expPt(comm.B, sub(zero(), e)))
			try(comm, eg.Proof{Z1: z1, Z2: z2, XY: eg.Pair{A: xa, B: xb}}, "the second half of the first message after the challenge")
		}
	case "xy-first-last":
		// the first component of the commitment does not belong to the second
		comm := eg.Pair{A: U, B: eg.Create(h, v, r).B}
		xb := eg.Create(h, rho, sigma).B
		for _, e := range append(challenges(comm.Enc(), encPt(xb), hEnc), challenges(encPt(comm.B), encPt(xb))...) {
			z1, z2 := add(sigma, mul(e, r)), add(rho, mul(e, v))
			xa := g.Add(cv.Mul(z1), expPt(comm.A, sub(zero(), e)))
			try(comm, eg.Proof{Z1: z1, Z2: z2, XY: eg.Pair{A: xa, B: xb}}, "the first half of the first message after the challenge")
		}
	case "comm-second-last":
		ca := cv.Mul(r)
		xy := eg.Pair{A: cv.Mul(sigma), B: U}
		for _, e := range challenges(encPt(ca), xy.Enc(), hEnc) {
			if e.Sign() == 0 {
				continue
			}
			z1 := add(sigma, mul(e, r))
			cb := expPt(g.Add(gh(z1, z2).B, expPt(xy.B, sub(zero(), big.NewInt(1)))), inv(e))
			try(eg.Pair{A: ca, B: cb}, eg.Proof{Z1: z1, Z2: z2, XY: xy}, "the second half of the commitment after the challenge")
		}
	case "comm-first-last":
		cb := eg.Create(h, v, r).B
		xy := eg.Pair{A: U, B: eg.Create(h, rho, sigma).B}
		for _, e := range challenges(encPt(cb), xy.Enc(), hEnc) {
			if e.Sign() == 0 {
				continue
			}
			z1, z2 := add(sigma, mul(e, r)), add(rho, mul(e, v))
			ca := expPt(g.Add(cv.Mul(z1), expPt(xy.A, sub(zero(), big.NewInt(1)))), inv(e))
			try(eg.Pair{A: ca, B: cb}, eg.Proof{Z1: z1, Z2: z2, XY: xy}, "the first half of the commitment after the challenge")
		}
	}
}

func forgeRefresh(t *pbt.T, c soundCase) {
	t.NonTrivial()
	t.Label("%s", c.What)
	h := cv.Mul(c.D.Int)
	fct := commitment.NewElGamalFactory(h)
	hEnc := encPt(h)
	U, W := unknownPoint(t, c.X.Int), unknownPoint(t, c.Y.Int)
	v, r := c.V.Int, c.R.Int
	if v.Sign() == 0 {
		v = big.NewInt(1)
	}
	c1 := eg.Create(h, v, r)
	z1 := c.A.Int
	sigma := c.R2.Int
	try := func(c1, c2 eg.Pair, z1, z2 *big.Int, xy eg.Pair, how string) {
		if z := decRefresh(t, eg.Proof{Z1: mod(z1), Z2: mod(z2), XY: xy}); z != nil {
			t.Check(z.Verify(fct, c1.Comm(t), c2.Comm(t)) != nil, "a refresh proof between commitments to different values is accepted: forged by choosing %s", how)
		}
	}
	inv := func(e *big.Int) *big.Int { return new(big.Int).ModInverse(e, pbt.N) }
	g0 := func(z *big.Int) eg.Pair { return eg.Create(h, zero(), z) }
	// the equation to satisfy: g0(z1) * c1^z2 = xy * c2^e; a verifier may insist on z2 = e or z2 = tau + e
	z2s := func(e *big.Int) []*big.Int { return []*big.Int{e, zero(), c.B.Int, add(e, c.B.Int)} }
	switch c.What {
	case "xy-last":
		c2 := eg.Pair{A: U, B: W}
		for _, e := range challenges(c1.Enc(), c2.Enc(), hEnc) {
			for _, z2 := range z2s(e) {
				try(c1, c2, z1, z2, g0(z1).Mul(c1.Exp(z2)).Mul(c2.Exp(e).Inv()), "the first message after the challenge")
			}
		}
	case "c2-last":
		xy := eg.Pair{A: U, B: W}
		for _, e := range challenges(c1.Enc(), xy.Enc(), hEnc) {
			if e.Sign() == 0 {
				continue
			}
			for _, z2 := range z2s(e) {
				try(c1, g0(z1).Mul(c1.Exp(z2)).Mul(xy.Inv()).Exp(inv(e)), z1, z2, xy, "the second commitment after the challenge")
			}
		}
	case "c1-last":
		xy := eg.Pair{A: U, B: W}
		c2 := c1
		for _, e := range challenges(c2.Enc(), xy.Enc(), hEnc) {
			for _, z2 := range z2s(e) {
				if z2.Sign() != 0 {
					try(xy.Mul(c2.Exp(e)).Mul(g0(z1).Inv()).Exp(inv(z2)), c2, z1, z2, xy, "the first commitment after the challenge")
				}
			}
		}
	case "scaled":
		// c2 = c1^w refreshed: consistent responses for another multiple of the value
		w := add(c.Delta.Int, big.NewInt(1))
		if w.Sign() == 0 {
			w = big.NewInt(2)
		}
		s := c.V2.Int
		c2 := c1.Exp(w).Mul(g0(s))
		tau := c.B.Int
		for _, tau := range []*big.Int{tau, zero()} {
			xy := c1.Exp(tau).Mul(g0(sigma))
			for _, e := range challenges(c1.Enc(), c2.Enc(), xy.Enc(), hEnc) {
				try(c1, c2, add(sigma, mul(e, s)), add(tau, mul(e, w)), xy, "the second commitment as a power of the first")
			}
		}
	case "xy-second-last":
		// first components are consistent, second ones are not: c2 commits to another value
		s := c.V2.Int
		c2 := eg.Pair{A: g.Add(c1.A, cv.Mul(s)), B: U}
		xa := cv.Mul(sigma)
		for _, e := range challenges(c1.Enc(), c2.Enc(), encPt(xa), hEnc) {
			z1 := add(sigma, mul(e, s))
			xb := g.Add(g.Add(g0(z1).B, expPt(c1.B, e)), expPt(c2.B, sub(zero(), e)))
			try(c1, c2, z1, e, eg.Pair{A: xa, B: xb}, "the second half of the first message after the challenge")
		}
	case "xy-first-last":
		s := c.V2.Int
		c2 := eg.Pair{A: U, B: g.Add(c1.B, g0(s).B)}
		xb := g0(sigma).B
		for _, e := range challenges(c1.Enc(), c2.Enc(), encPt(xb), hEnc) {
			z1 := add(sigma, mul(e, s))
			xa := g.Add(g.Add(g0(z1).A, expPt(c1.A, e)), expPt(c2.A, sub(zero(), e)))
			try(c1, c2, z1, e, eg.Pair{A: xa, B: xb}, "the first half of the first message after the challenge")
		}
	case "c2-second-last":
		s := c.V2.Int
		ca := g.Add(c1.A, cv.Mul(s))
		xy := eg.Pair{A: cv.Mul(sigma), B: U}
		for _, e := range challenges(c1.Enc(), encPt(ca), xy.Enc(), hEnc) {
			if e.Sign() == 0 {
				continue
			}
			z1 := add(sigma, mul(e, s))
			cb := expPt(g.Add(g.Add(g0(z1).B, expPt(c1.B, e)), expPt(xy.B, sub(zero(), big.NewInt(1)))), inv(e))
			try(c1, eg.Pair{A: ca, B: cb}, z1, e, xy, "the second half of the second commitment after the challenge")
		}
	case "c2-first-last":
		s := c.V2.Int
		cb := g.Add(c1.B, g0(s).B)
		xy := eg.Pair{A: U, B: g0(sigma).B}
		for _, e := range challenges(c1.Enc(), encPt(cb), xy.Enc(), hEnc) {
			if e.Sign() == 0 {
				continue
			}
			z1 := add(sigma, mul(e, s))
			ca := expPt(g.Add(g.Add(g0(z1).A, expPt(c1.A, e)), expPt(xy.A, sub(zero(), big.NewInt(1)))), inv(e))
			try(c1, eg.Pair{A: ca, B: cb}, z1, e, xy, "the first half of the second commitment after the challenge")
		}
	}
}

// ---- C13

type nonceCase struct {
	D      pbt.Int
	V, R   pbt.Int
	K      string
	N      int
	Stream uint64
}

func init() {
	pbt.Facet("C13", "uniform", "batches of 256 proofs of statements whose responses are the blinding values themselves; distinct, differences distinct, every bit balanced within 8 sigma, also between the two values and consecutive proofs; non-trivial: always",
		64, 1200, func(rt *rapid.T) nonceCase {
			return nonceCase{pbt.NonZero(rt, "d"), pbt.Int{Int: zero()}, pbt.Int{Int: zero()}, rapid.SampledFrom([]string{"know", "refresh"}).Draw(rt, "k"), 256, rapid.Uint64().Draw(rt, "stream")}
		}, runUniform)
	pbt.Facet("C13", "fresh", "several proofs of one statement from one random stream: no two share a component, none equals value, randomness or their blinding-free responses; the same stream gives the same proofs and another one others; at least as many random bytes are drawn as the blinding values have; non-trivial: always",
		3000, 100000, func(rt *rapid.T) nonceCase {
			return nonceCase{pbt.NonZero(rt, "d"), pbt.Scalar(rt, "v"), pbt.Scalar(rt, "r"), rapid.SampledFrom([]string{"know", "refresh"}).Draw(rt, "k"), rapid.IntRange(2, 4).Draw(rt, "n"), rapid.Uint64().Draw(rt, "stream")}
		}, runFresh)
}

func init() {
	pbt.Facet("C13", "no-randomness", "the source of randomness fails after 0 to all but one of the bytes of the blinding values; no proof is made; non-trivial: always",
		2000, 50000, func(rt *rapid.T) nonceCase {
			k := rapid.SampledFrom([]string{"know", "refresh"}).Draw(rt, "k")
			most := 31
			if k == "know" {
				most = 63
			}
			return nonceCase{pbt.NonZero(rt, "d"), pbt.Scalar(rt, "v"), pbt.Scalar(rt, "r"), k, rapid.OneOf(rapid.IntRange(0, most), rapid.SampledFrom([]int{0, 31, most})).Draw(rt, "n"), rapid.Uint64().Draw(rt, "stream")}
		}, func(t *pbt.T, c nonceCase) {
			t.NonTrivial()
			fct := commitment.NewElGamalFactory(cv.Mul(c.D.Int))
			c1 := fct.Create(c.V.Int, c.R.Int)
			made := false
			func() {
				defer func() { _ = recover() }() // giving up is as good as an error
				det.With(io.LimitReader(det.New(c.Stream, nil), int64(c.N)), func() {
					var err error
					if c.K == "know" {
						_, err = zkpok.NewZKEGKnow(fct, c1, c.V.Copy(), c.R.Copy())
					} else {
						_, err = zkpok.NewZKEGRefresh(fct, c1, fct.Create(c.V.Int, add(c.R.Int, c.R.Int)), c.R.Copy())
					}
					made = err == nil
				})
			}()
			t.Check(!made, "a proof is made although only %d random bytes were available for its blinding values", c.N)
			t.Label("%s", c.K)
		})
}

func makeProof(t *pbt.T, fct *commitment.ElGamalFactory, c nonceCase) eg.Proof {
	if c.K == "know" {
		p, err := zkpok.NewZKEGKnow(fct, fct.Create(c.V.Int, c.R.Int), c.V.Copy(), c.R.Copy())
		t.Check(err == nil, "making a proof: %v", err)
		return eg.ParseProof(t, eg.Encoded(t, p))
	}
	c1 := fct.Create(c.V.Int, big.NewInt(7))
	c2 := fct.Create(c.V.Int, add(big.NewInt(7), c.R.Int))
	p, err := zkpok.NewZKEGRefresh(fct, c1, c2, c.R.Copy())
	t.Check(err == nil, "making a proof: %v", err)
	return eg.ParseProof(t, eg.Encoded(t, p))
}

func balanced(t *pbt.T, what string, xs []*big.Int) {
	lim := 8 * math.Sqrt(float64(len(xs))) / 2
	for b := 0; b < 256; b++ {
		n := 0
		for _, x := range xs {
			n += int(x.Bit(b))
		}
		t.Check(math.Abs(float64(n)-float64(len(xs))/2) <= lim, "%s: bit %d is set in %d of %d", what, b, n, len(xs))
	}
}

func distinct(t *pbt.T, what string, xs []*big.Int) {
	seen := map[string]bool{}
	for _, x := range xs {
		t.Check(!seen[x.String()], "%s: %x occurs twice in %d", what, x, len(xs))
		seen[x.String()] = true
	}
}

func runUniform(t *pbt.T, c nonceCase) {
	t.NonTrivial()
	t.Label("%s", c.K)
	fct := commitment.NewElGamalFactory(cv.Mul(c.D.Int))
	var a, b []*big.Int
	withStream(c.Stream, nil, func() {
		for i := 0; i < c.N; i++ {
			p := makeProof(t, fct, c)
			a = append(a, p.Z1)
			b = append(b, p.Z2)
		}
	})
	group := func(what string, xs []*big.Int) {
		distinct(t, what, xs)
		balanced(t, what, xs)
		var diff, xor []*big.Int
		for i := 1; i < len(xs); i++ {
			diff = append(diff, sub(xs[i], xs[i-1]))
			xor = append(xor, new(big.Int).Xor(xs[i], xs[i-1]))
		}
		distinct(t, what+", differences of consecutive ones", diff)
		balanced(t, what+", consecutive ones xored", xor)
	}
	// value and randomness are zero: the responses are the blinding values (for refresh proofs the
	// second response may be just the challenge, which is uniform as well)
	group("first blinding value of "+c.K+" proofs", a)
	group("second blinding value of "+c.K+" proofs", b)
	var x, d, s []*big.Int
	for i := range a {
		x = append(x, new(big.Int).Xor(a[i], b[i]))
		d = append(d, sub(a[i], b[i]))
		s = append(s, add(a[i], b[i]))
	}
	balanced(t, "the two blinding values of a proof xored", x)
	distinct(t, "difference of the two blinding values", d)
	var q []*big.Int
	for i := range a {
		if inv := new(big.Int).ModInverse(b[i], pbt.N); inv != nil {
			q = append(q, mul(a[i], inv))
		}
	}
	distinct(t, "quotient of the two blinding values", q)
	balanced(t, "quotient of the two blinding values", q)
	distinct(t, "sum of the two blinding values", s)
	balanced(t, "difference of the two blinding values", d)
	all := append(append([]*big.Int{}, a...), b...)
	distinct(t, "all blinding values", all)
}

func runFresh(t *pbt.T, c nonceCase) {
	t.NonTrivial()
	t.Label("%s", c.K)
	fct := commitment.NewElGamalFactory(cv.Mul(c.D.Int))
	series := func(seed uint64) (ps []eg.Proof, counts []int) {
		s := det.New(seed, nil)
		det.With(s, func() {
			for i := 0; i < c.N; i++ {
				before := s.Count
				ps = append(ps, makeProof(t, fct, c))
				counts = append(counts, s.Count-before)
			}
		})
		return
	}
	ps, counts := series(c.Stream)
	again, _ := series(c.Stream)
	others, _ := series(c.Stream + 1)
	need := 64
	if c.K == "refresh" {
		need = 32
	}
	comps := func(p eg.Proof) map[string]string {
		return map[string]string{"first response": p.Z1.Text(16), "second response": p.Z2.Text(16), "first half of the first message": fmt.Sprintf("%x", encPt(p.XY.A)), "second half of the first message": fmt.Sprintf("%x", encPt(p.XY.B))}
	}
	for i, p := range ps {
		t.Check(bytes.Equal(p.Enc(), again[i].Enc()), "two runs with the same randomness give different proofs: there is another source of randomness")
		t.Check(counts[i] >= need, "making a proof draws %d random bytes, its blinding values have %d", counts[i], need)
		a := comps(p)
		for j, q := range append(append([]eg.Proof{}, ps...), others...) {
			if j == i {
				continue
			}
			for k, v := range comps(q) {
				t.Check(a[k] != v, "two proofs of one statement have the same %s", k)
			}
		}
		big1 := func(x *big.Int) bool { return x.BitLen() > 64 }
		for _, z := range []*big.Int{p.Z1, p.Z2} {
			for _, w := range []*big.Int{c.V.Int, c.R.Int} {
				t.Check(z.Cmp(w) != 0 || !big1(w), "a response equals the witness %x", w)
			}
		}
		// a response without a blinding value is challenge times witness: then response / witness, or the
		// response less the witness, is the same or a challenge
		for _, w := range []*big.Int{c.V.Int, c.R.Int} {
			if w.Sign() == 0 {
				continue
			}
			wi := new(big.Int).ModInverse(w, pbt.N)
			for _, z := range []*big.Int{p.Z1, p.Z2} {
				if c.K == "refresh" && z == p.Z2 {
					continue
				}
				e := mul(z, wi)
				res := fct.Create(c.V.Int, c.R.Int)
				st := eg.Components(t, res)
				for _, ch := range challenges(st.Enc(), p.XY.Enc()) {
					t.Check(e.Cmp(ch) != 0, "a response is the witness times the challenge, without a blinding value")
				}
			}
		}
	}
}
