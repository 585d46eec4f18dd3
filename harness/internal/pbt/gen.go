package pbt

import (
	"encoding/hex"
	"encoding/json"
	"math/big"

	"pgregory.net/rapid"
)

// Int is a big.Int written as hexadecimal in cases.
type Int struct{ *big.Int }

// MarshalJSON implements json.Marshaler
func (i Int) MarshalJSON() ([]byte, error) { return json.Marshal(i.Int.Text(16)) }

// UnmarshalJSON implements json.Unmarshaler
func (i *Int) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	i.Int = new(big.Int)
	if _, ok := i.Int.SetString(s, 16); !ok {
		return &json.UnsupportedValueError{Str: s}
	}
	return nil
}

// Copy returns a fresh copy of the value.
func (i Int) Copy() *big.Int { return new(big.Int).Set(i.Int) }

// Scribble gives numbers other values, as their owner may do once a call is over.
func Scribble(xs ...*big.Int) {
	for _, x := range xs {
		x.SetBit(x, 2, x.Bit(2)^1)
		x.Add(x, big.NewInt(11))
	}
}

// Bytes is a byte slice written as hexadecimal in cases.
type Bytes []byte

// MarshalJSON implements json.Marshaler
func (b Bytes) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(b)) }

// UnmarshalJSON implements json.Unmarshaler
func (b *Bytes) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	x, err := hex.DecodeString(s)
	*b = x
	return err
}

// P is the prime of the field of secp256k1, N the order of its group.
var (
	P, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	N, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
)

// RandBytes draws n bytes.
func RandBytes(rt *rapid.T, n int, label string) []byte {
	return rapid.SliceOfN(rapid.Byte(), n, n).Draw(rt, label)
}

// BytesUpTo draws up to n bytes.
func BytesUpTo(rt *rapid.T, n int, label string) []byte {
	return rapid.SliceOfN(rapid.Byte(), 0, n).Draw(rt, label)
}

// Uniform draws a value in [0, m) close to uniformly.
func Uniform(rt *rapid.T, m *big.Int, label string) *big.Int {
	x := new(big.Int)
	for i := 0; i < (m.BitLen()+127)/64; i++ {
		x.Lsh(x, 64)
		x.Or(x, new(big.Int).SetUint64(splitmix(rapid.Uint64().Draw(rt, label))))
	}
	return x.Mod(x, m)
}

// rapid favours small numbers; this spreads them while 0 stays 0 for shrinking.
func splitmix(x uint64) uint64 {
	if x == 0 {
		return 0
	}
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Scalar draws a reduced scalar: edge values and uniform ones.
func Scalar(rt *rapid.T, label string) Int {
	switch rapid.IntRange(0, 7).Draw(rt, label+"-kind") {
	case 0, 1:
		return Int{big.NewInt(int64(rapid.IntRange(0, 20).Draw(rt, label)))}
	case 2:
		return Int{new(big.Int).Sub(N, big.NewInt(int64(rapid.IntRange(1, 20).Draw(rt, label))))}
	case 3:
		x := new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, 255).Draw(rt, label)))
		x.Add(x, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(rt, label+"-off"))))
		return Int{x.Mod(x, N)}
	case 4:
		// half of the order, small fractions
		x := new(big.Int).Div(N, big.NewInt(int64(rapid.IntRange(2, 9).Draw(rt, label))))
		x.Add(x, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(rt, label+"-off"))))
		return Int{x.Mod(x, N)}
	default:
		return Int{Uniform(rt, N, label)}
	}
}

// NonZero draws a non-zero reduced scalar.
func NonZero(rt *rapid.T, label string) Int {
	s := Scalar(rt, label)
	if s.Sign() == 0 {
		s.SetInt64(1)
	}
	return s
}

// BigScalar draws a nonnegative integer of any size, favouring the neighbourhood of multiples of the
// order and of powers of two.
func BigScalar(rt *rapid.T, label string) Int {
	off := big.NewInt(int64(rapid.IntRange(-3, 3).Draw(rt, label+"-off")))
	x := new(big.Int)
	switch rapid.IntRange(0, 8).Draw(rt, label+"-kind") {
	case 0, 1:
		return Scalar(rt, label)
	case 2:
		// around a multiple of the order
		x.Mul(N, big.NewInt(int64(rapid.IntRange(1, 5).Draw(rt, label))))
		x.Add(x, off)
	case 3:
		x.Mul(N, Uniform(rt, new(big.Int).Lsh(big.NewInt(1), 300), label))
		x.Add(x, off)
	case 4:
		x.Lsh(big.NewInt(1), uint(rapid.SampledFrom([]int{8, 64, 128, 248, 255, 256, 257, 264, 320, 384, 512, 1024}).Draw(rt, label)))
		x.Add(x, off)
	case 5:
		x.Add(P, off)
	case 6:
		// in [n, 2^256)
		x.Sub(new(big.Int).Lsh(big.NewInt(1), 256), N)
		x = Uniform(rt, x, label)
		x.Add(x, N)
	default:
		x.SetBytes(RandBytes(rt, rapid.IntRange(0, 96).Draw(rt, label+"-len"), label))
	}
	if x.Sign() < 0 {
		x.SetInt64(0)
	}
	return Int{x}
}
