// Package eg reads and builds the encodings of ElGamal commitments and proofs and computes with
// their components.
package eg

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"

	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/pbt"
)

var g = cv.Group

// Pair is a pair of group elements.
type Pair struct{ A, B curve.Point }

// Enc is the encoding of a commitment with these components.
func (p Pair) Enc() []byte {
	b := &bytes.Buffer{}
	if err := g.Encode(p.A, b); err != nil {
		pbt.Abort("encode: %v", err)
	}
	if err := g.Encode(p.B, b); err != nil {
		pbt.Abort("encode: %v", err)
	}
	return b.Bytes()
}

// Comm makes a commitment with these components.
func (p Pair) Comm(t *pbt.T) *commitment.ElGamal {
	c := &commitment.ElGamal{}
	if err := c.Decode(bytes.NewReader(p.Enc())); err != nil {
		t.Failf("the encoding of a pair of group elements does not decode as a commitment: %v", err)
	}
	return c
}

// Mul is the component-wise product.
func (p Pair) Mul(q Pair) Pair { return Pair{g.Add(p.A, q.A), g.Add(p.B, q.B)} }

// Exp raises both components.
func (p Pair) Exp(k *big.Int) Pair {
	k = new(big.Int).Mod(k, pbt.N)
	m := func(x curve.Point) curve.Point {
		if k.Sign() == 0 || g.Equal(x, g.Neutral()) {
			return g.Neutral()
		}
		return g.ScalarMult(x, k)
	}
	return Pair{m(p.A), m(p.B)}
}

// Inv inverts both components.
func (p Pair) Inv() Pair { return p.Exp(new(big.Int).Sub(pbt.N, big.NewInt(1))) }

// Eq compares pairs.
func (p Pair) Eq(q Pair) bool { return g.Equal(p.A, q.A) && g.Equal(p.B, q.B) }

// Create is the commitment to v with randomness r under base h.
func Create(h curve.Point, v, r *big.Int) Pair {
	hr := Pair{h, h}.Exp(r).A
	return Pair{cv.Mul(r), g.Add(hr, cv.Mul(v))}
}

// Encoded encodes anything encodable.
func Encoded(t *pbt.T, e interface{ Encode(w io.Writer) error }) []byte {
	b := &bytes.Buffer{}
	if err := e.Encode(b); err != nil {
		t.Failf("encoding fails: %v", err)
	}
	return b.Bytes()
}

// Components reads the components off the encoding of a commitment.
func Components(t *pbt.T, c *commitment.ElGamal) Pair {
	return parsePair(t, Encoded(t, c))
}

func parsePair(t *pbt.T, b []byte) Pair {
	r := bytes.NewReader(b)
	x, err := g.Decode(r)
	if err != nil {
		t.Failf("first component of the encoding %x: %v", b, err)
	}
	y, err := g.Decode(r)
	if err != nil {
		t.Failf("second component of the encoding %x: %v", b, err)
	}
	if r.Len() != 0 {
		t.Failf("%d bytes after the components of a commitment", r.Len())
	}
	return Pair{x, y}
}

// Proof is a decoded proof: lengths of z1 and z2 (4 bytes each, big endian), z1, z2, first message.
type Proof struct {
	Z1, Z2 *big.Int
	XY     Pair
}

// Enc is the encoding of the proof.
func (p Proof) Enc() []byte {
	a, b := p.Z1.Bytes(), p.Z2.Bytes()
	r := binary.BigEndian.AppendUint32(nil, uint32(len(a)))
	r = binary.BigEndian.AppendUint32(r, uint32(len(b)))
	r = append(append(r, a...), b...)
	return append(r, p.XY.Enc()...)
}

// ParseProof reads a proof from its encoding.
func ParseProof(t *pbt.T, b []byte) Proof {
	p, err := TryParseProof(t, b)
	if err != nil {
		t.Failf("proof encoding %x: %v", b, err)
	}
	return p
}

// TryParseProof is ParseProof with an error.
func TryParseProof(t *pbt.T, b []byte) (Proof, error) {
	if len(b) < 8 {
		return Proof{}, errors.New("too short")
	}
	l1, l2 := uint64(binary.BigEndian.Uint32(b)), uint64(binary.BigEndian.Uint32(b[4:]))
	if uint64(len(b)) < 8+l1+l2 {
		return Proof{}, errors.New("too short")
	}
	return Proof{new(big.Int).SetBytes(b[8 : 8+l1]), new(big.Int).SetBytes(b[8+l1 : 8+l1+l2]), parsePair(t, b[8+l1+l2:])}, nil
}
