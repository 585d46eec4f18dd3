// Package arun has what runs of the arithmetic protocols share: bases with a known logarithm, reading
// messages, and interpolation in the exponent.
package arun

import (
	"bytes"
	"encoding/binary"
	"errors"
	"math/big"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"

	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/eg"
	"verif.local/harness/internal/pbt"
	"verif.local/harness/internal/vnet"
)

// G is the group.
var G = cv.Group

// Base says who takes part and under which base commitments are made.
type Base struct {
	N    int
	Seed uint64
	D    pbt.Int // logarithm of the base
	Net  int     // which kind of connections
	// Special are the first random scalars of the parties, used cyclically; empty: random ones.
	Special [][]pbt.Int
	// Par: the parties run at the same time; their randomness is then not that of the seed.
	Par bool `json:",omitempty"`
}

var nets = []vnet.Link{
	{},
	{Frag: []int{1, 7, 64}},
	{Frag: []int{5}, Cap: 333},
	{Delay: []int{0, 700, 20}},
	{Eager: true, Delay: []int{90, 0}},
}

// Config is the configuration of the cluster.
func (b Base) Config() cluster.Config {
	c := cluster.Config{N: b.N, Seed: b.Seed, KeepRand: true, NoBaton: b.Par, Prefix: map[int][]byte{}}
	c.Link = func(from, to int) vnet.Link {
		if b.Net == 0 {
			return vnet.Link{}
		}
		return nets[(b.Net+from*3+to)%len(nets)]
	}
	for i := 0; i < b.N; i++ {
		if len(b.Special) == 0 {
			break
		}
		for _, x := range b.Special[i%len(b.Special)] {
			c.Prefix[i] = append(c.Prefix[i], x.FillBytes(make([]byte, 32))...)
		}
	}
	return c
}

// Egf makes commitments under the base.
func (b Base) Egf() *commitment.ElGamalFactory { return commitment.NewElGamalFactory(cv.Mul(b.D.Int)) }

// GenBase draws a Base with lo to hi parties; special scalars come count per party.
func GenBase(rt *rapid.T, lo, hi, count int) Base {
	b := Base{N: rapid.IntRange(lo, hi).Draw(rt, "n"), Seed: rapid.Uint64().Draw(rt, "seed"), D: pbt.NonZero(rt, "d"), Net: rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4}).Draw(rt, "net")}
	if count > 0 && rapid.IntRange(0, 2).Draw(rt, "special") == 0 {
		for i := rapid.IntRange(1, b.N).Draw(rt, "specials"); i > 0; i-- {
			var l []pbt.Int
			for j := rapid.IntRange(0, count).Draw(rt, "count"); j > 0; j-- {
				l = append(l, pbt.Scalar(rt, "scalar"))
			}
			b.Special = append(b.Special, l)
		}
		if b.N >= 2 && len(b.Special) == 2 && rapid.Bool().Draw(rt, "cancel") && len(b.Special[0]) > 0 && len(b.Special[1]) > 0 && b.N == 2 {
			// the shares add up to zero
			x := new(big.Int).Sub(pbt.N, b.Special[0][0].Int)
			b.Special[1][0] = pbt.Int{Int: x.Mod(x, pbt.N)}
		}
	}
	return b
}

// SpecialLen is the number of special scalars of a party.
func (b Base) SpecialLen(pid int) int {
	if len(b.Special) == 0 {
		return 0
	}
	return len(b.Special[pid%len(b.Special)])
}

// ReadPoint takes a point off an encoding.
func ReadPoint(b []byte) (curve.Point, []byte, error) {
	_, rest, err := cv.ParsePoint(b)
	if err != nil {
		return nil, nil, err
	}
	p, err := G.Decode(bytes.NewReader(b[:len(b)-len(rest)]))
	return p, rest, err
}

// ReadPair takes a commitment off an encoding.
func ReadPair(b []byte) (eg.Pair, []byte, error) {
	x, b, err := ReadPoint(b)
	if err != nil {
		return eg.Pair{}, nil, err
	}
	y, b, err := ReadPoint(b)
	return eg.Pair{A: x, B: y}, b, err
}

// ReadProof takes a proof off an encoding.
func ReadProof(b []byte) (eg.Proof, []byte, error) {
	if len(b) < 8 {
		return eg.Proof{}, nil, errors.New("short proof")
	}
	l1, l2 := uint64(binary.BigEndian.Uint32(b)), uint64(binary.BigEndian.Uint32(b[4:]))
	if uint64(len(b)) < 8+l1+l2 {
		return eg.Proof{}, nil, errors.New("short proof")
	}
	p := eg.Proof{Z1: new(big.Int).SetBytes(b[8 : 8+l1]), Z2: new(big.Int).SetBytes(b[8+l1 : 8+l1+l2])}
	var err error
	p.XY, b, err = ReadPair(b[8+l1+l2:])
	return p, b, err
}

// Open decrypts a commitment under the base: the generator raised to the value.
func (b Base) Open(c eg.Pair) curve.Point {
	return G.Add(c.B, c.Mul(eg.Pair{A: G.Neutral(), B: G.Neutral()}).Exp(new(big.Int).Sub(pbt.N, b.D.Int)).A)
}

// Mul multiplies a point by any scalar.
func Mul(p curve.Point, k *big.Int) curve.Point { return eg.Pair{A: p, B: G.Neutral()}.Exp(k).A }

// Lagrange is the coefficient of xs[i] for the value at x of a polynomial known at xs.
func Lagrange(xs []int, i int, x int) *big.Int {
	num, den := big.NewInt(1), big.NewInt(1)
	for j, y := range xs {
		if j != i {
			num.Mul(num, big.NewInt(int64(x-y)))
			den.Mul(den, big.NewInt(int64(xs[i]-y)))
		}
	}
	den.Mod(den, pbt.N)
	den.ModInverse(den, pbt.N)
	num.Mul(num, den)
	return num.Mod(num, pbt.N)
}

// At interpolates in the exponent: the value at x of the polynomial with values ps at xs.
func At(xs []int, ps []curve.Point, x int) curve.Point {
	s := G.Neutral()
	for i := range xs {
		s = G.Add(s, Mul(ps[i], Lagrange(xs, i, x)))
	}
	return s
}

// Sum adds up points.
func Sum(ps []curve.Point) curve.Point {
	s := G.Neutral()
	for _, p := range ps {
		s = G.Add(s, p)
	}
	return s
}

// Eq compares points.
func Eq(a, b curve.Point) bool { return G.Equal(a, b) }

// IsNeutral tells whether a point is the neutral element.
func IsNeutral(a curve.Point) bool { return G.Equal(a, G.Neutral()) }

// Reduced tells whether a scalar is in [0, order).
func Reduced(x *big.Int) bool { return x != nil && x.Sign() >= 0 && x.Cmp(pbt.N) < 0 }
