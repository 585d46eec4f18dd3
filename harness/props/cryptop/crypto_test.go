package cryptop

import (
	"bytes"
	"encoding/binary"
	"math/big"
	"testing"

	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"pgregory.net/rapid"

	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/eg"
	"verif.local/harness/internal/pbt"
	"verif.local/harness/internal/ref"
)

func TestProps(t *testing.T) { pbt.Main(t) }

var g = cv.Group

func zero() *big.Int             { return new(big.Int) }
func mod(x *big.Int) *big.Int    { return new(big.Int).Mod(x, pbt.N) }
func add(x, y *big.Int) *big.Int { return mod(new(big.Int).Add(x, y)) }
func sub(x, y *big.Int) *big.Int { return mod(new(big.Int).Sub(x, y)) }
func mul(x, y *big.Int) *big.Int { return mod(new(big.Int).Mul(x, y)) }

// baseLog draws the logarithm of a commitment base; rarely that of the neutral element.
func baseLog(rt *rapid.T) pbt.Int {
	if rapid.IntRange(0, 20).Draw(rt, "neutral-base") == 20 {
		return pbt.Int{Int: zero()}
	}
	return pbt.NonZero(rt, "base")
}

// ---- C05

type hashCase struct {
	Msg   pbt.Bytes
	Other pbt.Bytes
	Bit   int
}

type bigHashCase struct{ Len, Seed, Bit int }

func genMsg(rt *rapid.T, label string) []byte {
	n := rapid.OneOf(rapid.IntRange(0, 200), rapid.SampledFrom([]int{0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 72, 127, 128, 129, 136, 144, 145, 255, 256, 257, 511, 512, 513, 1024, 4096, 4097})).Draw(rt, label+"-len")
	switch rapid.IntRange(0, 3).Draw(rt, label+"-kind") {
	case 0:
		return make([]byte, n)
	case 1:
		return bytes.Repeat([]byte{byte(rapid.IntRange(0, 255).Draw(rt, label))}, n)
	default:
		b := pbt.RandBytes(rt, (n+3)/4, label)
		r := make([]byte, n)
		for i := range r {
			r[i] = b[i/4] + byte(i*i)
		}
		return r
	}
}

func init() {
	pbt.Facet("C05", "reference", "messages of 0-4097 bytes with lengths around hash block boundaries; equal to an independent HKDF, repeated and interleaved calls agree, message unchanged; non-trivial: non-empty message",
		40000, 2000000, func(rt *rapid.T) hashCase {
			return hashCase{Msg: genMsg(rt, "msg"), Other: genMsg(rt, "other")}
		}, func(t *pbt.T, c hashCase) {
			m := append([]byte{}, c.Msg...)
			// spare capacity must not be used either
			m = append(m, 0xaa, 0xbb)[:len(m)]
			want := ref.Challenge(c.Msg)
			h := pkg.HashToBigInt(m)
			t.Check(h.Cmp(want) == 0, "the challenge of %s is %x, want %x", cv.Short(c.Msg), h, want)
			t.Check(h.Sign() >= 0 && h.Cmp(pbt.N) < 0, "the challenge %x of %s is outside the scalar range", h, cv.Short(c.Msg))
			o := pkg.HashToBigInt(append([]byte{}, c.Other...))
			t.Check(o.Cmp(ref.Challenge(c.Other)) == 0, "the challenge of %s after another one is %x", cv.Short(c.Other), o)
			t.Check(h.Cmp(want) == 0, "a later call changes an earlier challenge")
			h.SetInt64(5) // the result belongs to the caller
			t.Check(pkg.HashToBigInt(m).Cmp(want) == 0, "the second challenge of %s differs", cv.Short(c.Msg))
			t.Check(bytes.Equal(m, c.Msg) && bytes.Equal(m[:len(m)+2][len(m):], []byte{0xaa, 0xbb}), "the message %s was changed", cv.Short(c.Msg))
			// the same buffer with other contents
			n := copy(m, c.Other)
			t.Check(pkg.HashToBigInt(m[:n]).Cmp(ref.Challenge(c.Other[:n])) == 0, "the challenge of %s, written over another message, is wrong", cv.Short(c.Other[:n]))
			if n < len(m) || n > 0 {
				m[len(m)-1] ^= 1
				t.Check(pkg.HashToBigInt(m).Cmp(ref.Challenge(m)) == 0, "the challenge of a changed buffer %s is wrong", cv.Short(m))
			}
			if len(c.Msg) > 0 {
				t.NonTrivial()
			}
			if len(c.Msg) > 64 {
				t.Label("longer than a block")
			}
			if len(c.Msg) == 0 {
				t.Label("empty")
			}
		}, hashCase{}, hashCase{Msg: make([]byte, 64)}, hashCase{Msg: make([]byte, 65)})
	pbt.Facet("C05", "large", "messages of 5000 bytes to 2 MB: equal to an independent HKDF, and another challenge when a bit of it is changed; non-trivial: always",
		200, 4000, func(rt *rapid.T) bigHashCase {
			l := rapid.OneOf(rapid.IntRange(5000, 140000), rapid.SampledFrom([]int{8191, 8192, 8193, 16383, 16385, 32769, 65535, 65536, 65537, 1<<20 - 1, 1 << 20, 1<<20 + 1, 2 << 20})).Draw(rt, "len")
			return bigHashCase{Len: l, Seed: rapid.IntRange(0, 1<<20).Draw(rt, "seed"), Bit: rapid.OneOf(rapid.IntRange(0, 8*l-1), rapid.IntRange(8*l-40, 8*l-1)).Draw(rt, "bit")}
		}, func(t *pbt.T, c bigHashCase) {
			t.NonTrivial()
			m := make([]byte, c.Len)
			x := uint64(c.Seed)
			for i := range m {
				x = x*6364136223846793005 + 1442695040888963407
				m[i] = byte(x >> 56)
			}
			h := pkg.HashToBigInt(m)
			t.Check(h.Cmp(ref.Challenge(m)) == 0, "the challenge of a message of %d bytes is wrong", c.Len)
			m[c.Bit/8] ^= 1 << (c.Bit % 8)
			o := pkg.HashToBigInt(m)
			t.Check(o.Cmp(h) != 0, "the challenge of a message of %d bytes does not depend on bit %d", c.Len, c.Bit)
			t.Check(o.Cmp(ref.Challenge(m)) == 0, "the challenge of a changed message of %d bytes is wrong", c.Len)
		}, bigHashCase{Len: 65537, Bit: 8*65537 - 1}, bigHashCase{Len: 1<<20 + 3, Bit: 8<<20 + 20})
	pbt.Facet("C05", "every-byte", "a message and a changed bit, a dropped or an added byte at any position: another challenge; non-trivial: changed bit",
		40000, 2000000, func(rt *rapid.T) hashCase {
			m := genMsg(rt, "msg")
			return hashCase{Msg: m, Bit: rapid.IntRange(0, 8*len(m)+15).Draw(rt, "bit")}
		}, func(t *pbt.T, c hashCase) {
			h := pkg.HashToBigInt(append([]byte{}, c.Msg...))
			m := append([]byte{}, c.Msg...)
			switch {
			case c.Bit < 8*len(m):
				m[c.Bit/8] ^= 1 << (c.Bit % 8)
				t.NonTrivial()
				t.Label("bit changed")
			case c.Bit%2 == 0 && len(m) > 0:
				m = m[:len(m)-1]
				t.Label("byte dropped")
			default:
				m = append(m, 0)
				t.Label("zero byte added")
			}
			t.Check(pkg.HashToBigInt(m).Cmp(h) != 0, "%s and %s have the same challenge", cv.Short(c.Msg), cv.Short(m))
		})
}

// ---- C06

type egOp struct {
	K       string
	C, A, B int
	V, R    pbt.Int
	Reuse   bool // the scalars are the same objects as those of other operations, and change afterwards
}
type egProgram struct {
	D   pbt.Int // logarithm of the base
	Ops []egOp
}

func init() {
	pbt.Facet("C06", "program", "sequences of 1-14 commitment operations on a pool, receiver fresh or any pool element (aliasing operands), scalars of any size, base with known logarithm; against pairs modulo the order; all other pool elements keep their value; non-trivial: at least 3 operations of at least 2 kinds",
		40000, 2000000, func(rt *rapid.T) egProgram {
			return egProgram{baseLog(rt), rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) egOp {
				o := egOp{K: rapid.SampledFrom([]string{"create", "compose", "compose", "exp", "inverse", "neutral", "cancel"}).Draw(rt, "op")}
				o.C, o.A, o.B = rapid.IntRange(-3, 8).Draw(rt, "c"), rapid.IntRange(0, 8).Draw(rt, "a"), rapid.IntRange(0, 8).Draw(rt, "b")
				o.V, o.R = pbt.Int{Int: zero()}, pbt.Int{Int: zero()}
				if o.K == "create" || o.K == "exp" {
					o.V = pbt.BigScalar(rt, "v")
				}
				if o.K == "create" {
					o.R = pbt.BigScalar(rt, "r")
				}
				o.Reuse = rapid.Bool().Draw(rt, "reuse")
				return o
			}), 1, 14).Draw(rt, "ops")}
		}, runEGProgram)
}

func runEGProgram(t *pbt.T, c egProgram) {
	h := cv.Mul(c.D.Int)
	fct := commitment.NewElGamalFactory(h)
	other := commitment.NewElGamalFactory(cv.Mul(c.D.Int))
	type el struct {
		c    *commitment.ElGamal
		v, r *big.Int
	}
	pool := []*el{{fct.Create(big.NewInt(3), big.NewInt(5)), big.NewInt(3), big.NewInt(5)}, {fct.Neutral(), zero(), zero()}}
	same := func(what string, e *el) {
		t.Check(e.v != nil, "internal")
		want := eg.Pair{A: cv.Mul(e.r), B: cv.Mul(add(e.v, mul(c.D.Int, e.r)))}
		got := eg.Components(t, e.c)
		t.Check(got.Eq(want), "%s is not the commitment to %x with randomness %x under the base %x*G", what, e.v, e.r, c.D.Int)
		t.Check(e.c.Equal(e.c, fct.Create(e.v, e.r)), "%s is not Equal to the commitment to %x with randomness %x", what, e.v, e.r)
		t.Check(fct.IsNeutral(e.c) == (e.v.Sign() == 0 && e.r.Sign() == 0), "IsNeutral is wrong for %s, the commitment to %x with randomness %x", what, e.v, e.r)
	}
	kinds := map[string]bool{}
	scratchV, scratchR := zero(), zero()
	for i, o := range c.Ops {
		kinds[o.K] = true
		a, b := pool[o.A%len(pool)], pool[o.B%len(pool)]
		var rcv *el
		fresh := o.C < 0 || o.K == "create" || o.K == "neutral"
		if fresh {
			rcv = &el{c: fct.Neutral()}
		} else {
			rcv = pool[o.C%len(pool)]
			if rcv == a || rcv == b {
				t.Label("receiver is an operand")
			}
		}
		before := map[*el][]byte{}
		for _, e := range pool {
			if e != rcv {
				before[e] = eg.Encoded(t, e.c)
			}
		}
		v, r := o.V.Copy(), o.R.Copy()
		if o.Reuse {
			v, r = scratchV.Set(v), scratchR.Set(r)
		}
		var res *commitment.ElGamal
		var nv, nr *big.Int
		switch o.K {
		case "create":
			f := fct
			if i%2 == 1 {
				f = other
			}
			res = f.Create(v, r)
			rcv.c = res
			nv, nr = mod(o.V.Int), mod(o.R.Int)
		case "neutral":
			res = fct.Neutral()
			rcv.c = res
			nv, nr = zero(), zero()
		case "compose":
			res = rcv.c.Compose(a.c, b.c)
			nv, nr = add(a.v, b.v), add(a.r, b.r)
		case "cancel":
			inv := fct.Neutral().Inverse(a.c)
			res = rcv.c.Compose(inv, a.c)
			nv, nr = zero(), zero()
		case "exp":
			res = rcv.c.Exp(a.c, v)
			nv, nr = mul(a.v, o.V.Int), mul(a.r, o.V.Int)
		case "inverse":
			res = rcv.c.Inverse(a.c)
			nv, nr = sub(zero(), a.v), sub(zero(), a.r)
		}
		t.Check(v.Cmp(o.V.Int) == 0 && r.Cmp(o.R.Int) == 0, "operation %d (%s) changes a scalar it was given", i, o.K)
		if o.Reuse {
			pbt.Scribble(v, r)
		}
		rcv.v, rcv.r = nv, nr
		same("the receiver of operation "+o.K, rcv)
		if res != rcv.c {
			same("the result of operation "+o.K, &el{res, nv, nr})
		}
		for e, enc := range before {
			t.Check(bytes.Equal(enc, eg.Encoded(t, e.c)), "operation %d (%s) changes a commitment other than its receiver", i, o.K)
		}
		if fresh {
			pool = append(pool, rcv)
		}
	}
	for i, e := range pool {
		for j, f := range pool {
			t.Check(e.c.Equal(e.c, f.c) == (e.v.Cmp(f.v) == 0 && e.r.Cmp(f.r) == 0), "Equal is wrong for elements %d and %d", i, j)
		}
	}
	t.Check(fct.IsNeutral(fct.Neutral()) && g.Equal(h, cv.Mul(c.D.Int)), "the factory was changed")
	if len(c.Ops) >= 3 && len(kinds) >= 2 {
		t.NonTrivial()
	}
	if c.D.Sign() == 0 {
		t.Label("neutral base")
	}
}

// ---- C07

type bindCase struct {
	D, D2          pbt.Int
	V, R, V2, R2   pbt.Int
	Rel            string
	UnreduceV, Unr bool
}

func init() {
	pbt.Facet("C07", "binding", "two openings, related (congruent, one part equal, same second component, same first component, opposite) or independent, under one base and another base; Equal, components and the recovered g^v; non-trivial: different openings",
		40000, 2000000, func(rt *rapid.T) bindCase {
			c := bindCase{D: pbt.NonZero(rt, "d"), V: pbt.Scalar(rt, "v"), R: pbt.Scalar(rt, "r"), D2: pbt.Scalar(rt, "d2")}
			c.Rel = rapid.SampledFrom([]string{"same", "value", "rnd", "second", "swap", "neg", "any", "negfirst", "negsecond"}).Draw(rt, "rel")
			v2, r2 := mod(c.V.Int), mod(c.R.Int)
			d := pbt.NonZero(rt, "delta").Int
			switch c.Rel {
			case "value":
				v2 = add(v2, d)
			case "rnd":
				r2 = add(r2, d)
			case "second": // h^r g^v stays
				r2 = add(r2, d)
				v2 = sub(v2, mul(c.D.Int, d))
			case "swap":
				v2, r2 = r2, v2
			case "neg":
				v2, r2 = sub(zero(), v2), sub(zero(), r2)
			case "negfirst": // (-first, second)
				nr := sub(zero(), r2)
				v2 = add(v2, mul(c.D.Int, sub(r2, nr)))
				r2 = nr
			case "negsecond": // (first, -second)
				v2 = sub(sub(zero(), v2), mul(c.D.Int, add(r2, r2)))
			case "any":
				v2, r2 = pbt.Scalar(rt, "v2").Int, pbt.Scalar(rt, "r2").Int
			}
			c.V2, c.R2 = pbt.Int{Int: v2}, pbt.Int{Int: r2}
			c.UnreduceV, c.Unr = rapid.Bool().Draw(rt, "unv"), rapid.Bool().Draw(rt, "unr")
			return c
		}, func(t *pbt.T, c bindCase) {
			h := cv.Mul(c.D.Int)
			fct := commitment.NewElGamalFactory(h)
			v2, r2 := c.V2.Copy(), c.R2.Copy()
			if c.UnreduceV {
				v2.Add(v2, pbt.N)
			}
			if c.Unr {
				r2.Add(r2, new(big.Int).Lsh(pbt.N, 3))
			}
			a, b := fct.Create(c.V.Copy(), c.R.Copy()), fct.Create(v2, r2)
			same := c.V.Cmp(c.V2.Int) == 0 && c.R.Cmp(c.R2.Int) == 0
			for _, x := range []*commitment.ElGamal{a, b, fct.Neutral()} {
				t.Check(x.Equal(a, b) == same && x.Equal(b, a) == same, "Equal of the commitments to (%x, %x) and (%x, %x) under %x*G is %v", c.V.Int, c.R.Int, v2, r2, c.D.Int, !same)
			}
			ea, eb := eg.Encoded(t, a), eg.Encoded(t, b)
			t.Check(bytes.Equal(ea, eb) == same, "encodings of the commitments to (%x, %x) and (%x, %x) under %x*G equal: %v", c.V.Int, c.R.Int, v2, r2, c.D.Int, !same)
			p := eg.Components(t, a)
			t.Check(g.Equal(p.A, cv.Mul(c.R.Int)), "the first component of the commitment to %x with randomness %x is not g^r", c.V.Int, c.R.Int)
			rec := g.Add(p.B, eg.Pair{A: p.A, B: p.B}.Exp(sub(zero(), c.D.Int)).A)
			t.Check(g.Equal(rec, cv.Mul(c.V.Int)), "decrypting the commitment to %x with randomness %x under %x*G does not give g^v", c.V.Int, c.R.Int, c.D.Int)
			// the same opening under another base
			fct2 := commitment.NewElGamalFactory(cv.Mul(c.D2.Int))
			d := fct2.Create(c.V.Copy(), c.R.Copy())
			sameBase := c.D.Cmp(c.D2.Int) == 0 || c.R.Sign() == 0
			t.Check(a.Equal(a, d) == sameBase, "commitments to %x with randomness %x under %x*G and %x*G equal: %v", c.V.Int, c.R.Int, c.D.Int, c.D2.Int, !sameBase)
			t.Label("relation %s", c.Rel)
			if !same {
				t.NonTrivial()
			}
		})
}

// ---- C08, C09

type object struct {
	K      string // comm, know, refresh
	V, R   pbt.Int
	R2     pbt.Int
	Nonce  string
	Stream uint64
}

type objStream struct {
	D     pbt.Int
	Objs  []object
	Frag  []int
	EOF   bool
	Trail pbt.Bytes
}

var nonces = []string{"", "", "", "", "zero", "one", "max", "short"}

// prefix of the random stream that makes the first blinding values special
func noncePrefix(kind string) []byte {
	b := make([]byte, 64)
	switch kind {
	case "zero":
	case "one":
		b[31], b[63] = 1, 1
	case "max":
		m := new(big.Int).Sub(pbt.N, big.NewInt(1)).Bytes()
		copy(b, m)
		copy(b[32:], m)
	case "short":
		b[30], b[61] = 7, 9
	default:
		return nil
	}
	return b
}

func genObject(rt *rapid.T) object {
	return object{rapid.SampledFrom([]string{"comm", "know", "refresh"}).Draw(rt, "kind"), pbt.Scalar(rt, "v"), pbt.Scalar(rt, "r"), pbt.Scalar(rt, "r2"),
		rapid.SampledFrom(nonces).Draw(rt, "nonce"), rapid.Uint64().Draw(rt, "stream")}
}

// built is an object with what it is about.
type built struct {
	obj     object
	enc     []byte
	c1, c2  *commitment.ElGamal
	comm    *commitment.ElGamal
	know    *zkpok.ZKEGKnow
	refresh *zkpok.ZKEGRefresh
}

func build(t *pbt.T, fct *commitment.ElGamalFactory, o object) *built {
	b := &built{obj: o}
	var err error
	withStream(o.Stream, noncePrefix(o.Nonce), func() {
		b.c1 = fct.Create(o.V.Copy(), o.R.Copy())
		switch o.K {
		case "comm":
			b.comm = b.c1
			b.enc = eg.Encoded(t, b.comm)
		case "know":
			if b.know, err = zkpok.NewZKEGKnow(fct, b.c1, o.V.Copy(), o.R.Copy()); err == nil {
				b.enc = eg.Encoded(t, b.know)
			}
		case "refresh":
			b.c2 = fct.Create(o.V.Copy(), add(o.R.Int, o.R2.Int))
			if b.refresh, err = zkpok.NewZKEGRefresh(fct, b.c1, b.c2, o.R2.Copy()); err == nil {
				b.enc = eg.Encoded(t, b.refresh)
			}
		}
	})
	t.Check(err == nil, "making a proof: %v", err)
	return b
}

func init() {
	pbt.Facet("C08", "stream", "1-4 commitments, knowledge and refresh proofs (also with zero, one, maximal, short blinding values) written to one stream with trailing bytes, read in generated pieces; decoded objects behave and encode the same and consume their bytes exactly; non-trivial: several objects or fragments",
		25000, 1000000, func(rt *rapid.T) objStream {
			return objStream{baseLog(rt), rapid.SliceOfN(rapid.Custom(genObject), 1, 4).Draw(rt, "objs"), cv.Frags(rt, "frag"), rapid.Bool().Draw(rt, "eof"), pbt.BytesUpTo(rt, 9, "trail")}
		}, func(t *pbt.T, c objStream) {
			fct := commitment.NewElGamalFactory(cv.Mul(c.D.Int))
			var all []*built
			buf := &bytes.Buffer{}
			for _, o := range c.Objs {
				b := build(t, fct, o)
				all = append(all, b)
				buf.Write(b.enc)
				t.Label("%s", o.K)
				if o.Nonce != "" {
					t.Label("special blinding")
				}
			}
			buf.Write(c.Trail)
			r := &cv.FragReader{Data: append([]byte{}, buf.Bytes()...), Frag: c.Frag, EOFWithData: c.EOF}
			pos := 0
			for i, b := range all {
				pos += len(b.enc)
				var re []byte
				var err error
				switch b.obj.K {
				case "comm":
					d := &commitment.ElGamal{}
					if err = d.Decode(r); err == nil {
						re = eg.Encoded(t, d)
						t.Check(d.Equal(d, b.comm) && b.comm.Equal(b.comm, d), "object %d: the decoded commitment is not equal to the original", i)
						x := fct.Neutral().Compose(d, d)
						t.Check(x.Equal(x, fct.Neutral().Compose(b.comm, b.comm)), "object %d: the decoded commitment computes differently", i)
						// a decoded commitment can be the receiver
						d.Compose(d, d)
						t.Check(d.Equal(d, x), "object %d: the decoded commitment computes differently as a receiver", i)
					}
				case "know":
					d := &zkpok.ZKEGKnow{}
					if err = d.Decode(r); err == nil {
						re = eg.Encoded(t, d)
						err := d.Verify(fct, b.c1)
						t.Check(err == nil, "object %d: the decoded knowledge proof does not verify: %v", i, err)
						o := fct.Create(add(b.obj.V.Int, big.NewInt(1)), b.obj.R.Int)
						t.Check(d.Verify(fct, o) != nil, "object %d: the decoded knowledge proof verifies for another commitment", i)
					}
				case "refresh":
					d := &zkpok.ZKEGRefresh{}
					if err = d.Decode(r); err == nil {
						re = eg.Encoded(t, d)
						err := d.Verify(fct, b.c1, b.c2)
						t.Check(err == nil, "object %d: the decoded refresh proof does not verify: %v", i, err)
						o := fct.Create(b.obj.V.Int, add(add(b.obj.R.Int, b.obj.R2.Int), big.NewInt(1)))
						t.Check(d.Verify(fct, b.c1, o) != nil, "object %d: the decoded refresh proof verifies for another pair", i)
					}
				}
				t.Check(err == nil, "object %d (%s) of a stream delivered in pieces %v does not decode: %v", i, b.obj.K, c.Frag, err)
				t.Check(r.Consumed == pos, "after object %d (%s) %d bytes were consumed, it ends at %d", i, b.obj.K, r.Consumed, pos)
				t.Check(bytes.Equal(re, b.enc), "object %d (%s) encodes to %x after decoding %x", i, b.obj.K, re, b.enc)
			}
			t.Check(bytes.Equal(r.Data, c.Trail), "trailing bytes were touched")
			if len(all) > 1 || len(c.Frag) > 0 {
				t.NonTrivial()
			}
		})

	pbt.Facet("C09", "bytes", "encodings of commitments and proofs truncated, with altered bits, lengths, components or points off the curve, or random bytes, in pieces; an error, or an object that encodes, compares and verifies without a panic; bounded allocation; non-trivial: at least 8 bytes",
		16000, 800000, genMalformed, runMalformed,
		malCase{K: "know", Data: []byte{0, 0, 0, 1, 0, 0, 0, 1, 5, 6}},
		malCase{K: "refresh", Data: []byte{0, 0, 0, 1, 0, 0, 0, 1, 5, 6}},
		malCase{K: "know", Data: []byte{255, 255, 255, 255, 0, 0, 0, 2, 5, 6}},
		malCase{K: "refresh", Data: []byte{0x80, 0, 0, 0, 0x80, 0, 0, 0, 5, 6}},
	)
}

type malCase struct {
	K      string
	How    string
	Data   pbt.Bytes
	Prefix bool
	Frag   []int
	EOF    bool
}

func genMalformed(rt *rapid.T) malCase {
	o := genObject(rt)
	c := malCase{K: o.K, Frag: cv.Frags(rt, "frag"), EOF: rapid.Bool().Draw(rt, "eof")}
	// a well-formed encoding, put together without the code under test's proofs
	h := cv.Mul(big.NewInt(77))
	pr := eg.Proof{Z1: o.V.Int, Z2: o.R.Int, XY: eg.Create(h, o.R2.Int, o.V.Int)}
	if rapid.IntRange(0, 5).Draw(rt, "neutral-part") == 0 {
		pr.XY.A = g.Neutral()
	}
	var enc []byte
	if o.K == "comm" {
		enc = pr.XY.Enc()
	} else {
		enc = pr.Enc()
	}
	c.How = rapid.SampledFrom([]string{"prefix", "prefix", "bit", "word", "random", "cutpoint", "extra", "insert", "delete", "bigz", "offcurve"}).Draw(rt, "how")
	switch c.How {
	case "prefix":
		c.Data = enc[:rapid.IntRange(0, len(enc)-1).Draw(rt, "cut")]
		c.Prefix = true
	case "cutpoint":
		// cut after the responses or after the first component
		cut := 8 + len(pr.Z1.Bytes()) + len(pr.Z2.Bytes())
		if o.K == "comm" {
			cut = 0
		}
		if rapid.Bool().Draw(rt, "second") {
			cut += len(eg.Pair{A: pr.XY.A, B: g.Neutral()}.Enc()) - 4
		}
		c.Data = enc[:cut]
		c.Prefix = cut < len(enc)
	case "bit":
		c.Data = append([]byte{}, enc...)
		i := rapid.IntRange(0, 8*len(enc)-1).Draw(rt, "bit")
		c.Data[i/8] ^= 1 << (i % 8)
	case "word":
		// overwrite one aligned or unaligned 32-bit word
		c.Data = append([]byte{}, enc...)
		if len(enc) >= 4 {
			at := rapid.SampledFrom([]int{0, 4, 8, len(enc) / 2, len(enc) - 4}).Draw(rt, "at")
			if at > len(enc)-4 {
				at = 0
			}
			binary.BigEndian.PutUint32(c.Data[at:], rapid.SampledFrom([]uint32{0, 1, 2, 31, 32, 33, 64, 1 << 16, 1 << 20, 1 << 26, 1 << 30, 1 << 31, 1<<32 - 1, 1<<32 - 32, 1<<32 - 8}).Draw(rt, "word"))
		}
	case "random":
		c.Data = pbt.BytesUpTo(rt, 120, "data")
	case "extra":
		c.Data = append(append([]byte{}, enc...), pbt.BytesUpTo(rt, 8, "extra")...)
	case "insert":
		at := rapid.IntRange(0, len(enc)).Draw(rt, "at")
		c.Data = append(append(append([]byte{}, enc[:at]...), pbt.RandBytes(rt, 1, "ins")...), enc[at:]...)
	case "delete":
		at := rapid.IntRange(0, len(enc)-1).Draw(rt, "at")
		c.Data = append(append([]byte{}, enc[:at]...), enc[at+1:]...)
	case "bigz":
		p := pr
		p.Z1 = new(big.Int).SetBytes(pbt.RandBytes(rt, rapid.IntRange(0, 80).Draw(rt, "z1len"), "z1"))
		p.Z2 = new(big.Int).SetBytes(pbt.RandBytes(rt, rapid.IntRange(0, 80).Draw(rt, "z2len"), "z2"))
		c.Data = p.Enc()
	case "offcurve":
		// the last byte of a coordinate of the last point
		c.Data = append([]byte{}, enc...)
		c.Data[len(c.Data)-1] ^= byte(rapid.IntRange(1, 255).Draw(rt, "x"))
	}
	return c
}

func runMalformed(t *pbt.T, c malCase) {
	r := &cv.FragReader{Data: append([]byte{}, c.Data...), Frag: c.Frag, EOFWithData: c.EOF}
	var err error
	comm, know, refresh := &commitment.ElGamal{}, &zkpok.ZKEGKnow{}, &zkpok.ZKEGRefresh{}
	n := cv.Alloc(func() {
		switch c.K {
		case "comm":
			err = comm.Decode(r)
		case "know":
			err = know.Decode(r)
		default:
			err = refresh.Decode(r)
		}
	})
	t.Check(n <= cv.AllocLimit(len(c.Data)), "decoding %d bytes %s as %s allocates %d bytes", len(c.Data), cv.Short(c.Data), c.K, n)
	t.Label("%s by %s", c.K, c.How)
	if len(c.Data) >= 8 {
		t.NonTrivial()
	}
	if err != nil {
		t.Label("rejected")
		return
	}
	t.Label("accepted")
	t.Check(!c.Prefix, "the truncated encoding %x is accepted as %s", []byte(c.Data), c.K)
	fct := commitment.NewElGamalFactory(cv.Mul(big.NewInt(77)))
	c1, c2 := fct.Create(big.NewInt(2), big.NewInt(3)), fct.Create(big.NewInt(2), big.NewInt(4))
	var enc []byte
	switch c.K {
	case "comm":
		comm.Equal(comm, fct.Neutral())
		fct.IsNeutral(comm)
		p := eg.Components(t, comm)
		t.Check(cv.Coords(t, p.A).OnCurve() && cv.Coords(t, p.B).OnCurve(), "the decoded commitment has components off the curve")
		x := fct.Neutral().Compose(comm, fct.Neutral().Exp(comm, big.NewInt(5)))
		t.Check(x.Equal(x, fct.Neutral().Exp(comm, big.NewInt(6))), "the decoded commitment does not compute")
		enc = eg.Encoded(t, comm)
		d := &commitment.ElGamal{}
		t.Check(d.Decode(bytes.NewReader(enc)) == nil && d.Equal(d, comm), "re-encoding of the decoded commitment does not decode to it")
	case "know":
		know.Verify(fct, c1)
		enc = eg.Encoded(t, know)
		d := &zkpok.ZKEGKnow{}
		t.Check(d.Decode(bytes.NewReader(enc)) == nil && bytes.Equal(eg.Encoded(t, d), enc), "re-encoding of the decoded proof does not decode to it")
	default:
		refresh.Verify(fct, c1, c2)
		enc = eg.Encoded(t, refresh)
		d := &zkpok.ZKEGRefresh{}
		t.Check(d.Decode(bytes.NewReader(enc)) == nil && bytes.Equal(eg.Encoded(t, d), enc), "re-encoding of the decoded proof does not decode to it")
	}
}

func encPair(t *pbt.T, p eg.Pair) []byte { return p.Enc() }

var _ curve.Point
