package curvep

import (
	"bytes"
	"encoding/binary"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"pgregory.net/rapid"

	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/pbt"
	"verif.local/harness/internal/ref"
)

func TestProps(t *testing.T) { pbt.Main(t) }

var g = cv.Group

type op struct {
	K    string  `json:"k"`
	A    int     `json:"a,omitempty"`
	B    int     `json:"b,omitempty"`
	S    pbt.Int `json:"s"`
	Copy bool    `json:"copy,omitempty"` // use a decoded copy of the operands
	// Reuse: the scalar is the same object as that of other operations, and changes when the operation is over.
	Reuse bool `json:"reuse,omitempty"`
}

type program struct {
	Ops []op `json:"ops"`
}

func genOp(rt *rapid.T, scalar func(*rapid.T, string) pbt.Int) op {
	o := op{S: pbt.Int{Int: new(big.Int)}}
	o.K = rapid.SampledFrom([]string{"base", "add", "add", "add", "neg", "mul", "dbl", "opp", "sub", "aff"}).Draw(rt, "op")
	switch o.K {
	case "base":
		o.S = scalar(rt, "s")
		if rapid.IntRange(0, 4).Draw(rt, "short") == 0 {
			o.S = cv.PointLog(rt, "short-s")
		}
	case "mul", "aff":
		o.S = scalar(rt, "s")
	}
	o.A = rapid.IntRange(0, 30).Draw(rt, "a")
	o.B = rapid.IntRange(0, 30).Draw(rt, "b")
	o.Copy = rapid.Bool().Draw(rt, "copy")
	o.Reuse = rapid.Bool().Draw(rt, "reuse")
	return o
}

func genProgram(scalar func(*rapid.T, string) pbt.Int) func(*rapid.T) program {
	return func(rt *rapid.T) program {
		return program{rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) op { return genOp(rt, scalar) }), 1, 14).Draw(rt, "ops")}
	}
}

type elem struct {
	p   curve.Point
	log *big.Int
	enc []byte
}

// dup returns an equal element that shares no memory with p.
func dup(t *pbt.T, e elem) curve.Point {
	if e.log.Sign() == 0 {
		return g.Neutral()
	}
	q, err := g.Decode(bytes.NewReader(e.enc))
	if err != nil {
		t.Failf("decoding the encoding of a group element fails: %v", err)
	}
	return q
}

// runProgram executes the operations against the model Z_n and, where concrete is set, compares the
// coordinates with an independent implementation. It also checks that nothing given is changed.
func runProgram(t *pbt.T, c program, concrete bool) {
	grp := curve.NewSecp256k1Group()
	order := new(big.Int).Set(grp.Order())
	t.Check(order.Cmp(pbt.N) == 0, "the order is %x", order)
	gen := cv.Enc(t, grp.Gen())
	pool := []elem{{p: grp.Gen(), log: big.NewInt(1)}, {p: grp.Neutral(), log: new(big.Int)}}
	for i := range pool {
		pool[i].enc = cv.Enc(t, pool[i].p)
	}
	seenOpp, seenDbl, seenNeutral := false, false, false
	kinds := map[string]bool{}
	scratch := new(big.Int)
	for i, o := range c.Ops {
		a, b := pool[o.A%len(pool)], pool[o.B%len(pool)]
		pa, pb := a.p, b.p
		if o.Copy {
			pa, pb = dup(t, a), dup(t, b)
		}
		s := o.S.Copy()
		if o.Reuse {
			s = scratch.Set(s)
		}
		var r curve.Point
		l := new(big.Int)
		kinds[o.K] = true
		switch o.K {
		case "base":
			r = grp.ScalarBaseMult(s)
			l.Set(o.S.Int)
		case "add":
			r = grp.Add(pa, pb)
			l.Add(a.log, b.log)
		case "neg":
			r = grp.Neg(pa)
			l.Neg(a.log)
		case "mul":
			r = grp.ScalarMult(pa, s)
			l.Mul(a.log, o.S.Int)
		case "dbl":
			r = grp.Add(pa, a.p)
			l.Lsh(a.log, 1)
			seenDbl = true
		case "opp":
			r = grp.Add(pa, grp.Neg(a.p))
			seenOpp = true
		case "sub":
			r = grp.Add(pa, grp.Neg(pb))
			l.Sub(a.log, b.log)
		case "aff":
			r = grp.Add(grp.ScalarMult(pa, s), pb)
			l.Mul(a.log, o.S.Int)
			l.Add(l, b.log)
		}
		l.Mod(l, pbt.N)
		if a.log.Sign() == 0 || b.log.Sign() == 0 || l.Sign() == 0 {
			seenNeutral = true
		}
		t.Check(s.Cmp(o.S.Int) == 0, "operation %d (%s) changes its scalar %x to %x", i, o.K, o.S.Int, s)
		if o.Reuse {
			pbt.Scribble(s)
		}
		e := elem{r, l, cv.Enc(t, r)}
		if concrete {
			want := ref.G().Mul(l)
			got := cv.Coords(t, r)
			t.Check(got.Eq(want), "operation %d (%s of %x, %x, scalar %x): the result has coordinates %x, %x instead of those of %x*G, %x, %x",
				i, o.K, a.log, b.log, o.S.Int, got.X, got.Y, l, want.X, want.Y)
		}
		pool = append(pool, e)
	}
	for i := range pool {
		for j := range pool {
			want := pool[i].log.Cmp(pool[j].log) == 0
			t.Check(grp.Equal(pool[i].p, pool[j].p) == want, "Equal(%x*G, %x*G) = %v", pool[i].log, pool[j].log, !want)
		}
		t.Check(bytes.Equal(cv.Enc(t, pool[i].p), pool[i].enc), "element %d, %x*G, was changed by later operations", i, pool[i].log)
	}
	t.Check(grp.Order().Cmp(order) == 0 && g.Order().Cmp(pbt.N) == 0, "the order was changed")
	t.Check(bytes.Equal(cv.Enc(t, grp.Gen()), gen), "the generator was changed")
	if seenOpp {
		t.Label("sum of opposites")
	}
	if seenDbl {
		t.Label("doubling")
	}
	if seenNeutral {
		t.Label("neutral element")
	}
	if len(c.Ops) >= 3 && len(kinds) >= 2 {
		t.NonTrivial()
	}
}

func init() {
	i := func(x int64) pbt.Int { return pbt.Int{Int: big.NewInt(x)} }
	pbt.Facet("C01", "program", "sequences of 1-14 group operations on a pool starting with generator and neutral element, against logarithms in Z_n and an independent implementation; non-trivial: at least 3 operations of at least 2 kinds",
		9600, 400000, genProgram(pbt.Scalar), func(t *pbt.T, c program) { runProgram(t, c, true) },
		program{[]op{{K: "opp", A: 0, S: i(0)}, {K: "add", A: 2, B: 0, S: i(0)}}},
		program{[]op{{K: "neg", A: 1, S: i(0)}, {K: "mul", A: 1, S: i(5)}, {K: "mul", A: 0, S: i(0)}, {K: "dbl", A: 1, S: i(0)}}},
	)
	type laws struct {
		A, B, C, K, L pbt.Int
	}
	pbt.Facet("C01", "laws", "three points and two scalars; associativity, commutativity, distributivity, inverses, and scalar multiplication composed, without the model; non-trivial: all three points differ from the neutral element",
		12000, 400000, func(rt *rapid.T) laws {
			pt := func(l string) pbt.Int {
				if rapid.IntRange(0, 5).Draw(rt, "small") == 0 {
					// small multiples, to meet equal and opposite intermediate results
					x := big.NewInt(int64(rapid.IntRange(-3, 3).Draw(rt, l)))
					return pbt.Int{Int: x.Mod(x, pbt.N)}
				}
				return cv.PointLog(rt, l)
			}
			return laws{pt("a"), pt("b"), pt("c"), pbt.Scalar(rt, "k"), pbt.Scalar(rt, "l")}
		}, func(t *pbt.T, c laws) {
			A, B, C := g.ScalarBaseMult(c.A.Copy()), g.ScalarBaseMult(c.B.Copy()), g.ScalarBaseMult(c.C.Copy())
			eq := func(what string, x, y curve.Point) {
				t.Check(g.Equal(x, y) && g.Equal(y, x), "%s does not hold for %x*G, %x*G, %x*G, scalars %x, %x", what, c.A.Int, c.B.Int, c.C.Int, c.K.Int, c.L.Int)
			}
			k, l := c.K.Int, c.L.Int
			eq("associativity", g.Add(g.Add(A, B), C), g.Add(A, g.Add(B, C)))
			eq("commutativity", g.Add(A, B), g.Add(B, A))
			eq("neutrality", g.Add(A, g.Neutral()), A)
			eq("neutrality on the left", g.Add(g.Neutral(), A), A)
			eq("inverse", g.Add(A, g.Neg(A)), g.Neutral())
			eq("double negation", g.Neg(g.Neg(A)), A)
			eq("negation of a sum", g.Neg(g.Add(A, B)), g.Add(g.Neg(A), g.Neg(B)))
			eq("distributivity over points", g.ScalarMult(g.Add(A, B), k), g.Add(g.ScalarMult(A, k), g.ScalarMult(B, k)))
			eq("distributivity over scalars", g.ScalarMult(A, new(big.Int).Add(k, l)), g.Add(g.ScalarMult(A, k), g.ScalarMult(A, l)))
			eq("composition", g.ScalarMult(g.ScalarMult(A, k), l), g.ScalarMult(A, new(big.Int).Mul(k, l)))
			eq("base multiplication", g.ScalarBaseMult(k), g.ScalarMult(g.Gen(), k))
			eq("order", g.ScalarMult(A, g.Order()), g.Neutral())
			if c.A.Sign() != 0 && c.B.Sign() != 0 && c.C.Sign() != 0 {
				t.NonTrivial()
			}
		})

	type smul struct {
		P pbt.Int
		S pbt.Int
	}
	pbt.Facet("C02", "scalars", "a point and a scalar of up to 1024 bits, favouring neighbourhoods of multiples of the order; the result equals that of the reduced scalar, by the independent implementation; arguments unchanged; non-trivial: scalar at or above the order",
		16000, 800000, func(rt *rapid.T) smul { return smul{cv.PointLog(rt, "p"), pbt.BigScalar(rt, "s")} },
		func(t *pbt.T, c smul) {
			red := new(big.Int).Mod(c.S.Int, pbt.N)
			p := cv.Mul(c.P.Int)
			encP := cv.Enc(t, p)
			gen := cv.Enc(t, g.Gen())
			s := c.S.Copy()
			r := g.ScalarMult(p, s)
			t.Check(s.Cmp(c.S.Int) == 0, "ScalarMult changes its scalar %x to %x", c.S.Int, s)
			rb := g.ScalarBaseMult(s)
			t.Check(s.Cmp(c.S.Int) == 0, "ScalarBaseMult changes its scalar %x to %x", c.S.Int, s)
			t.Check(bytes.Equal(encP, cv.Enc(t, p)), "ScalarMult changes its point")
			t.Check(bytes.Equal(gen, cv.Enc(t, g.Gen())), "the generator changes")
			t.Check(g.Order().Cmp(pbt.N) == 0, "the order changes")
			l := new(big.Int).Mul(c.P.Int, red)
			want, wantB := ref.G().Mul(l), ref.G().Mul(red)
			got, gotB := cv.Coords(t, r), cv.Coords(t, rb)
			t.Check(got.Eq(want), "%x * (%x*G) = (%x, %x), want (%x, %x)", c.S.Int, c.P.Int, got.X, got.Y, want.X, want.Y)
			t.Check(gotB.Eq(wantB), "%x * G = (%x, %x), want (%x, %x)", c.S.Int, gotB.X, gotB.Y, wantB.X, wantB.Y)
			t.Check(g.Equal(r, g.ScalarMult(p, red)), "scalar %x and its reduction give different multiples of %x*G", c.S.Int, c.P.Int)
			t.Check(g.Equal(rb, g.ScalarBaseMult(red)), "scalar %x and its reduction give different multiples of G", c.S.Int)
			// the same object with another value
			s.Add(s, big.NewInt(1))
			t.Check(g.Equal(g.ScalarMult(p, s), g.Add(r, p)), "%x*G multiplied by %x, and by the same object after adding one", c.P.Int, c.S.Int)
			t.Check(g.Equal(g.ScalarBaseMult(s), g.Add(rb, g.Gen())), "G multiplied by %x, and by the same object after adding one", c.S.Int)
			if c.S.Cmp(pbt.N) >= 0 {
				t.NonTrivial()
				t.Label("at or above the order")
			}
			if c.S.BitLen() > 256 {
				t.Label("longer than 256 bits")
			} else if c.S.Cmp(pbt.N) >= 0 {
				t.Label("in [order, 2^256)")
			}
			if red.Sign() == 0 {
				t.Label("multiple of the order")
			}
			if c.P.Sign() == 0 {
				t.Label("neutral point")
			}
		},
		smul{i(0), i(7)}, smul{i(3), pbt.Int{Int: pbt.N}}, smul{i(3), pbt.Int{Int: new(big.Int).Add(pbt.N, big.NewInt(2))}})
	pbt.Facet("C02", "immutability", "the operation sequences of C01 with scalars of any size; every point and scalar given and the group's constants keep their values to the end; non-trivial: at least 3 operations of at least 2 kinds",
		40000, 1000000, genProgram(pbt.BigScalar), func(t *pbt.T, c program) { runProgram(t, c, false) })

	type stream struct {
		Logs  []pbt.Int
		Trail pbt.Bytes
		Frag  []int
		EOF   bool
	}
	pbt.Facet("C03", "stream", "1-6 elements written to one stream with trailing bytes, read back in pieces of generated sizes; equal elements in order, exact consumption; non-trivial: fragmented or several elements or short coordinates or neutral",
		12000, 600000, func(rt *rapid.T) stream {
			return stream{
				rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) pbt.Int { return cv.PointLog(rt, "log") }), 1, 6).Draw(rt, "logs"),
				pbt.BytesUpTo(rt, 12, "trail"), cv.Frags(rt, "frag"), rapid.Bool().Draw(rt, "eof"),
			}
		}, func(t *pbt.T, c stream) {
			buf := &bytes.Buffer{}
			pts := []curve.Point{}
			encs := [][]byte{}
			for _, l := range c.Logs {
				p := cv.Mul(l.Int)
				pts = append(pts, p)
				before := buf.Len()
				if err := g.Encode(p, buf); err != nil {
					t.Failf("encoding %x*G: %v", l.Int, err)
				}
				encs = append(encs, append([]byte{}, buf.Bytes()[before:]...))
				if l.Sign() == 0 {
					t.Label("neutral")
				}
				q := ref.G().Mul(l.Int)
				if !q.Neutral() && (len(q.X.Bytes()) < 32 || len(q.Y.Bytes()) < 32) {
					t.Label("short coordinate")
				}
			}
			total := buf.Len()
			buf.Write(c.Trail)
			r := &cv.FragReader{Data: append([]byte{}, buf.Bytes()...), Frag: c.Frag, EOFWithData: c.EOF}
			pos := 0
			for k, l := range c.Logs {
				p, err := g.Decode(r)
				if err != nil {
					t.Failf("decoding element %d (%x*G) of a stream delivered in pieces %v: %v", k, l.Int, c.Frag, err)
				}
				pos += len(encs[k])
				t.Check(r.Consumed == pos, "decoding element %d consumed %d bytes up to here, its encoding ends at %d", k, r.Consumed, pos)
				t.Check(g.Equal(p, pts[k]) && g.Equal(pts[k], p), "element %d, %x*G, decodes to another element", k, l.Int)
				t.Check(bytes.Equal(cv.Enc(t, p), encs[k]), "re-encoding element %d gives other bytes", k)
				t.Check(g.Equal(g.Add(p, pts[k]), g.Add(pts[k], pts[k])), "the decoded element %d computes differently", k)
			}
			t.Check(bytes.Equal(r.Data, c.Trail), "%d bytes of the %d trailing ones are left", len(r.Data), len(c.Trail))
			for a := range encs {
				for b := range encs {
					t.Check(bytes.Equal(encs[a], encs[b]) == (c.Logs[a].Cmp(c.Logs[b].Int) == 0), "elements %x*G and %x*G: equal encodings iff equal elements does not hold", c.Logs[a].Int, c.Logs[b].Int)
				}
			}
			if len(c.Frag) > 0 {
				t.Label("fragmented")
			}
			if len(c.Logs) > 1 || len(c.Frag) > 0 {
				t.NonTrivial()
			}
			_ = total
		}, stream{Logs: []pbt.Int{i(0)}}, stream{Logs: []pbt.Int{i(0), i(5), i(0)}, Trail: []byte{0}})
	type pair struct{ A, B pbt.Int }
	pbt.Facet("C03", "injective", "pairs of elements, often related (same, opposite, neighbours, neutral): equal encodings exactly for equal elements; non-trivial: different elements",
		40000, 800000, func(rt *rapid.T) pair {
			a := cv.PointLog(rt, "a")
			b := pbt.Int{Int: new(big.Int)}
			switch rapid.IntRange(0, 3).Draw(rt, "rel") {
			case 0:
				b.Sub(pbt.N, a.Int)
			case 1:
				b.Add(a.Int, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(rt, "d"))))
			default:
				b = cv.PointLog(rt, "b")
			}
			b.Mod(b.Int, pbt.N)
			return pair{a, b}
		}, func(t *pbt.T, c pair) {
			same := c.A.Cmp(c.B.Int) == 0
			ea, eb := cv.Enc(t, cv.Mul(c.A.Int)), cv.Enc(t, cv.Mul(c.B.Int))
			t.Check(bytes.Equal(ea, eb) == same, "%x*G and %x*G encode to %x and %x", c.A.Int, c.B.Int, ea, eb)
			if !same {
				t.NonTrivial()
			}
		})

	pbt.Facet("C04", "bytes", "structured alterations of encodings (truncation, lengths, off-curve and out-of-range coordinates, padding, flips) and random bytes, in pieces; error or a genuine element that re-encodes; bounded allocation; non-trivial: at least 8 bytes and not simply a valid encoding",
		40000, 3000000, genBytes, runBytes,
		rawCase{Data: binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, 1<<31), 1<<31)},
		rawCase{Data: binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, 0xffffffff), 2)},
		rawCase{Data: []byte{0, 0, 0, 1, 0, 0, 0, 1, 0, 0}},
		rawCase{Data: []byte{0, 0, 0, 1, 0, 0, 0, 1, 1, 1}, OffCurve: true},
	)
}

type rawCase struct {
	Data     pbt.Bytes
	Frag     []int
	EOF      bool
	Kind     string
	Prefix   bool // Data is a strict prefix of a valid encoding
	OffCurve bool // Data is well-formed with coordinates that are not those of a point
}

func encXY(x, y []byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(len(x)))
	b = binary.BigEndian.AppendUint32(b, uint32(len(y)))
	return append(append(b, x...), y...)
}

func genBytes(rt *rapid.T) rawCase {
	c := rawCase{Frag: cv.Frags(rt, "frag"), EOF: rapid.Bool().Draw(rt, "eof")}
	log := cv.PointLog(rt, "log")
	p := ref.G().Mul(log.Int)
	if p.Neutral() {
		p = ref.G()
	}
	x, y := p.X.Bytes(), p.Y.Bytes()
	kind := rapid.SampledFrom([]string{"prefix", "random", "flip", "lengths", "huge", "offcurve", "offcurve2", "range", "pad", "zero", "swap", "neutral", "valid", "negy", "smallxy"}).Draw(rt, "kind")
	c.Kind = kind
	switch kind {
	case "valid":
		c.Data = append(encXY(x, y), pbt.BytesUpTo(rt, 8, "trail")...)
	case "prefix":
		e := encXY(x, y)
		c.Data = e[:rapid.IntRange(0, len(e)-1).Draw(rt, "cut")]
		c.Prefix = true
	case "random":
		c.Data = pbt.BytesUpTo(rt, 90, "data")
	case "flip":
		e := encXY(x, y)
		i := rapid.IntRange(0, 8*len(e)-1).Draw(rt, "bit")
		e[i/8] ^= 1 << (i % 8)
		c.Data = e
		c.OffCurve = i >= 64 // no two points differ in a single bit of x or y only: checked below
	case "lengths":
		// arbitrary lengths in front of the coordinates
		c.Data = binary.BigEndian.AppendUint32(nil, uint32(rapid.IntRange(0, 40).Draw(rt, "lx")))
		c.Data = binary.BigEndian.AppendUint32(c.Data, uint32(rapid.IntRange(0, 40).Draw(rt, "ly")))
		c.Data = append(append(c.Data, x...), y...)
	case "huge":
		l := rapid.SampledFrom([]uint32{1 << 16, 1 << 20, 1 << 24, 1 << 28, 1 << 30, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 33, 1<<32 - 1, 32, 1})
		c.Data = binary.BigEndian.AppendUint32(nil, l.Draw(rt, "lx"))
		c.Data = binary.BigEndian.AppendUint32(c.Data, l.Draw(rt, "ly"))
		c.Data = append(append(c.Data, x...), y...)
	case "offcurve":
		c.Data = encXY(pbt.RandBytes(rt, 32, "x"), pbt.RandBytes(rt, 32, "y"))
		c.OffCurve = true
	case "offcurve2":
		// one coordinate of a point, the other one off by a little or from another point
		q := new(big.Int).Set(p.Y)
		d := int64(rapid.SampledFrom([]int{-3, -2, -1, 1, 2, 3}).Draw(rt, "d"))
		q.Add(q, big.NewInt(d))
		q.Mod(q, pbt.P)
		if rapid.Bool().Draw(rt, "which") {
			c.Data = encXY(x, q.Bytes())
		} else {
			xx := new(big.Int).Add(p.X, big.NewInt(d))
			c.Data = encXY(xx.Mod(xx, pbt.P).Bytes(), y)
		}
		c.OffCurve = true
	case "range":
		// coordinates that satisfy the equation only modulo the prime
		xx, yy := new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
		k := big.NewInt(int64(rapid.IntRange(1, 3).Draw(rt, "k")))
		k.Mul(k, pbt.P)
		switch rapid.IntRange(0, 3).Draw(rt, "which") {
		case 0:
			xx.Add(xx, k)
		case 1:
			yy.Add(yy, k)
		case 2:
			// small y, so that y+p has 32 bytes
			sy := big.NewInt(int64(rapid.IntRange(1, 900).Draw(rt, "sy")))
			for {
				if q, ok := ref.LiftY(sy); ok {
					xx.Set(q.X)
					yy.Add(sy, pbt.P)
					break
				}
				sy.Add(sy, big.NewInt(1))
			}
		default:
			// small x, so that x+p has 32 bytes
			sx := big.NewInt(int64(rapid.IntRange(1, 900).Draw(rt, "sx")))
			for {
				if q, ok := ref.LiftX(sx); ok {
					xx.Add(sx, pbt.P)
					yy.Set(q.Y)
					break
				}
				sx.Add(sx, big.NewInt(1))
			}
		}
		c.Data = encXY(xx.Bytes(), yy.Bytes())
	case "pad":
		c.Data = encXY(append(make([]byte, rapid.IntRange(0, 4).Draw(rt, "px")), x...), append(make([]byte, rapid.IntRange(0, 4).Draw(rt, "py")), y...))
	case "zero":
		switch rapid.IntRange(0, 4).Draw(rt, "which") {
		case 0:
			c.Data = encXY(x, nil)
		case 1:
			c.Data = encXY(nil, y)
		case 2:
			c.Data = encXY([]byte{0}, []byte{0})
			c.OffCurve = true
		case 3:
			c.Data = encXY(x, []byte{0})
			c.OffCurve = true
		default:
			c.Data = encXY([]byte{0}, y)
			c.OffCurve = true
		}
	case "swap":
		c.Data = encXY(y, x)
	case "neutral":
		c.Data = make([]byte, rapid.IntRange(0, 12).Draw(rt, "n"))
	case "negy":
		c.Data = encXY(x, p.Neg().Y.Bytes())
	case "smallxy":
		c.Data = encXY([]byte{byte(rapid.IntRange(0, 255).Draw(rt, "x"))}, []byte{byte(rapid.IntRange(0, 255).Draw(rt, "y"))})
		c.OffCurve = true
	}
	return c
}

func runBytes(t *pbt.T, c rawCase) {
	off := false
	if c.OffCurve {
		if q, _, err := cv.ParsePoint(c.Data); err == nil {
			off = !q.OnCurve()
		}
	}
	r := &cv.FragReader{Data: append([]byte{}, c.Data...), Frag: c.Frag, EOFWithData: c.EOF}
	var p curve.Point
	var err error
	n := cv.Alloc(func() { p, err = g.Decode(r) })
	t.Check(n <= cv.AllocLimit(len(c.Data)), "decoding %d bytes %s allocates %d bytes", len(c.Data), cv.Short(c.Data), n)
	t.Label("kind %s", c.Kind)
	if c.Kind != "valid" && len(c.Data) >= 8 {
		t.NonTrivial()
	}
	if err != nil {
		t.Label("rejected")
		t.Check(c.Kind != "valid", "a valid encoding is rejected: %v", err)
		return
	}
	t.Label("accepted")
	t.Check(!c.Prefix, "the truncated encoding %x is accepted", []byte(c.Data))
	t.Check(!off, "coordinates off the curve are accepted: %x", []byte(c.Data))
	q := cv.Coords(t, p)
	t.Check(q.OnCurve(), "%x decodes to (%x, %x), which is not on the curve", []byte(c.Data), q.X, q.Y)
	e := cv.Enc(t, p)
	p2, err := g.Decode(bytes.NewReader(e))
	t.Check(err == nil, "re-encoding of the decoded %x does not decode: %v", []byte(c.Data), err)
	t.Check(g.Equal(p, p2), "re-encoding of the decoded %x decodes to another element", []byte(c.Data))
	// a genuine element takes part in computations
	d := cv.Coords(t, g.Add(p, p2))
	t.Check(d.Eq(q.Add(q)), "doubling the decoded %x gives a wrong result", []byte(c.Data))
	t.Check(g.Equal(g.Add(p, g.Neg(p)), g.Neutral()), "the decoded %x plus its negation is not neutral", []byte(c.Data))
}
