// Package cv has helpers around the curve package: reading coordinates off encodings, readers that
// fragment a stream, and measuring allocation.
package cv

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"runtime"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"pgregory.net/rapid"

	"verif.local/harness/internal/pbt"
	"verif.local/harness/internal/ref"
)

// Group is an instance of the group.
var Group = curve.NewSecp256k1Group()

// Enc encodes a point.
func Enc(t *pbt.T, p curve.Point) []byte {
	b := &bytes.Buffer{}
	if err := Group.Encode(p, b); err != nil {
		t.Failf("encoding a group element fails: %v", err)
	}
	return b.Bytes()
}

// ParsePoint reads the coordinates off an encoding: lengths of x and y (4 bytes each, big endian),
// x, y; the neutral element is a zero length.
func ParsePoint(b []byte) (ref.Pt, []byte, error) {
	if len(b) < 4 {
		return ref.Pt{}, nil, errors.New("short point encoding")
	}
	lx := binary.BigEndian.Uint32(b)
	if lx == 0 {
		return ref.Pt{}, b[4:], nil
	}
	if len(b) < 8 {
		return ref.Pt{}, nil, errors.New("short point encoding")
	}
	ly := binary.BigEndian.Uint32(b[4:])
	if uint64(len(b)) < 8+uint64(lx)+uint64(ly) {
		return ref.Pt{}, nil, errors.New("short point encoding")
	}
	x := new(big.Int).SetBytes(b[8 : 8+lx])
	y := new(big.Int).SetBytes(b[8+lx : 8+lx+ly])
	return ref.Pt{X: x, Y: y}, b[8+lx+ly:], nil
}

// Coords returns the coordinates of a point, as its encoding tells.
func Coords(t *pbt.T, p curve.Point) ref.Pt {
	if Group.Equal(p, Group.Neutral()) {
		return ref.Pt{}
	}
	b := Enc(t, p)
	q, rest, err := ParsePoint(b)
	if err != nil || len(rest) != 0 || q.Neutral() {
		t.Failf("encoding %x of a point other than the neutral element is not of the form lenX lenY x y (%v)", b, err)
	}
	return q
}

// Mul is k*G computed by the group under test, from a reduced scalar.
func Mul(k *big.Int) curve.Point {
	k = new(big.Int).Mod(k, pbt.N)
	if k.Sign() == 0 {
		return Group.Neutral()
	}
	return Group.ScalarBaseMult(k)
}

// ShortLogs are logarithms of points with a coordinate of 31 or 30 bytes.
var ShortLogs = []int64{122, 130, 153, 246, 533, 886, 1158, 1348, 41192, 44629, 58165, 63439, 127948, 394851}

// PointLog draws the logarithm of a point: any scalar, or that of a point with short coordinates.
func PointLog(rt *rapid.T, label string) pbt.Int {
	if rapid.IntRange(0, 3).Draw(rt, label+"-short") == 3 {
		k := big.NewInt(rapid.SampledFrom(ShortLogs).Draw(rt, label))
		if rapid.Bool().Draw(rt, label+"-neg") {
			k.Sub(pbt.N, k)
		}
		return pbt.Int{Int: k}
	}
	return pbt.Scalar(rt, label)
}

// FragReader delivers data in pieces of the given sizes (cyclically; 0 stands for an empty read),
// and reports the end together with the last piece if EOFWithData.
type FragReader struct {
	Data        []byte
	Frag        []int
	EOFWithData bool
	i, atEnd    int
	Consumed    int
}

// Read implements io.Reader
func (r *FragReader) Read(b []byte) (int, error) {
	if len(r.Data) == 0 {
		if r.atEnd++; r.atEnd > 10000 {
			panic("endless reads at the end of the stream")
		}
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	if len(r.Frag) > 0 {
		f := r.Frag[r.i%len(r.Frag)]
		r.i++
		if f < n {
			n = f
		}
	}
	if n > len(r.Data) {
		n = len(r.Data)
	}
	copy(b, r.Data[:n])
	r.Data = r.Data[n:]
	r.Consumed += n
	if len(r.Data) == 0 && r.EOFWithData {
		return n, io.EOF
	}
	return n, nil
}

// Frags draws the sizes of the pieces of a stream; the last one is positive.
func Frags(rt *rapid.T, label string) []int {
	if rapid.IntRange(0, 3).Draw(rt, label+"-whole") == 0 {
		return nil
	}
	f := rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7, 8, 9, 12, 31, 32, 33, 40, 64, 71, 100, 0}), 1, 6).Draw(rt, label)
	if f[len(f)-1] == 0 {
		f[len(f)-1] = 1
	}
	return f
}

// Alloc returns the number of bytes f allocates.
func Alloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// AllocLimit is what decoding an input of n bytes may allocate at most.
func AllocLimit(n int) uint64 { return 256<<10 + 64*uint64(n) }

// Short renders bytes for messages.
func Short(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x... (%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}
