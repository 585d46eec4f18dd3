// Package ref holds independent reference implementations.
package ref

import (
	"crypto/hmac"
	"crypto/sha256"
	"math/big"
)

// Parameters of secp256k1 (SEC 2).
var (
	P, _  = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	N, _  = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	Gx, _ = new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
	Gy, _ = new(big.Int).SetString("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16)
	seven = big.NewInt(7)
)

// Pt is an affine point; a nil X is the neutral element.
type Pt struct{ X, Y *big.Int }

// G is the generator.
func G() Pt { return Pt{Gx, Gy} }

// Neutral tells whether p is the neutral element.
func (p Pt) Neutral() bool { return p.X == nil }

// OnCurve tells whether p is an element of the group.
func (p Pt) OnCurve() bool {
	if p.X == nil {
		return true
	}
	if p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(P) >= 0 || p.Y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.Y, p.Y)
	r := new(big.Int).Mul(p.X, p.X)
	r.Mul(r, p.X)
	r.Add(r, seven)
	l.Sub(l, r)
	return l.Mod(l, P).Sign() == 0
}

// Eq compares two points.
func (p Pt) Eq(q Pt) bool {
	if p.X == nil || q.X == nil {
		return p.X == nil && q.X == nil
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

// Neg returns -p.
func (p Pt) Neg() Pt {
	if p.X == nil {
		return p
	}
	y := new(big.Int).Sub(P, p.Y)
	return Pt{p.X, y.Mod(y, P)}
}

// Add returns p+q, by the textbook affine formulas.
func (p Pt) Add(q Pt) Pt {
	if p.X == nil {
		return q
	}
	if q.X == nil {
		return p
	}
	var num, den *big.Int
	if p.X.Cmp(q.X) == 0 {
		s := new(big.Int).Add(p.Y, q.Y)
		if s.Mod(s, P).Sign() == 0 {
			return Pt{}
		}
		num = new(big.Int).Mul(p.X, p.X)
		num.Mul(num, big.NewInt(3))
		den = new(big.Int).Lsh(p.Y, 1)
	} else {
		num = new(big.Int).Sub(q.Y, p.Y)
		den = new(big.Int).Sub(q.X, p.X)
	}
	den.Mod(den, P)
	den.ModInverse(den, P)
	l := num.Mul(num, den)
	l.Mod(l, P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X)
	x.Sub(x, q.X)
	x.Mod(x, P)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l)
	y.Sub(y, p.Y)
	y.Mod(y, P)
	return Pt{x, y}
}

// jac is a point in Jacobian coordinates; z = 0 is the neutral element.
type jac struct{ x, y, z *big.Int }

func (a jac) double() jac {
	if a.z.Sign() == 0 || a.y.Sign() == 0 {
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	mod := func(x *big.Int) *big.Int { return x.Mod(x, P) }
	y2 := mod(new(big.Int).Mul(a.y, a.y))
	s := mod(new(big.Int).Mul(a.x, y2))
	s.Lsh(s, 2)
	m := new(big.Int).Mul(a.x, a.x)
	m = mod(m.Mul(m, big.NewInt(3)))
	x := new(big.Int).Mul(m, m)
	x.Sub(x, s)
	x = mod(x.Sub(x, s))
	y := new(big.Int).Sub(s, x)
	y.Mul(y, m)
	y4 := new(big.Int).Mul(y2, y2)
	y = mod(y.Sub(y, y4.Lsh(y4, 3)))
	z := new(big.Int).Mul(a.y, a.z)
	z = mod(z.Lsh(z, 1))
	return jac{x, y, z}
}

func (a jac) addAffine(q Pt) jac {
	if a.z.Sign() == 0 {
		return jac{q.X, q.Y, big.NewInt(1)}
	}
	mod := func(x *big.Int) *big.Int { return x.Mod(x, P) }
	z2 := mod(new(big.Int).Mul(a.z, a.z))
	u2 := mod(new(big.Int).Mul(q.X, z2))
	s2 := new(big.Int).Mul(q.Y, z2)
	s2 = mod(s2.Mul(mod(s2), a.z))
	h := mod(new(big.Int).Sub(u2, a.x))
	r := mod(new(big.Int).Sub(s2, a.y))
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return a.double()
		}
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	h2 := mod(new(big.Int).Mul(h, h))
	h3 := mod(new(big.Int).Mul(h2, h))
	v := mod(new(big.Int).Mul(a.x, h2))
	x := new(big.Int).Mul(r, r)
	x.Sub(x, h3)
	x.Sub(x, v)
	x = mod(x.Sub(x, v))
	y := new(big.Int).Sub(v, x)
	y.Mul(y, r)
	t := new(big.Int).Mul(a.y, h3)
	y = mod(y.Sub(y, t))
	z := mod(new(big.Int).Mul(a.z, h))
	return jac{x, y, z}
}

// Mul returns k*p for k >= 0; p must be in the group.
func (p Pt) Mul(k *big.Int) Pt {
	k = new(big.Int).Mod(k, N)
	if p.X == nil || k.Sign() == 0 {
		return Pt{}
	}
	a := jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		a = a.double()
		if k.Bit(i) == 1 {
			a = a.addAffine(p)
		}
	}
	if a.z.Sign() == 0 {
		return Pt{}
	}
	zi := new(big.Int).ModInverse(a.z, P)
	z2 := new(big.Int).Mul(zi, zi)
	z2.Mod(z2, P)
	x := new(big.Int).Mul(a.x, z2)
	x.Mod(x, P)
	y := new(big.Int).Mul(a.y, z2)
	y.Mod(y, P)
	y.Mul(y, zi)
	y.Mod(y, P)
	return Pt{x, y}
}

// LiftX returns a point with the given x coordinate, if there is one.
func LiftX(x *big.Int) (Pt, bool) {
	r := new(big.Int).Exp(x, big.NewInt(3), P)
	r.Add(r, seven)
	r.Mod(r, P)
	y := new(big.Int).ModSqrt(r, P)
	if y == nil {
		return Pt{}, false
	}
	return Pt{new(big.Int).Set(x), y}, true
}

// LiftY finds a point with the given second coordinate.
func LiftY(y *big.Int) (Pt, bool) {
	a := new(big.Int).Mul(y, y)
	a.Sub(a, seven)
	a.Mod(a, P)
	// p is 7 modulo 9: a cube root, if there is one
	e := new(big.Int).Add(P, big.NewInt(2))
	e.Div(e, big.NewInt(9))
	q := Pt{new(big.Int).Exp(a, e, P), new(big.Int).Set(y)}
	return q, q.OnCurve()
}

// HKDF is RFC 5869 with SHA-256.
func HKDF(ikm, salt, info []byte, n int) []byte {
	ext := hmac.New(sha256.New, salt)
	ext.Write(ikm)
	prk := ext.Sum(nil)
	var out, prev []byte
	for i := byte(1); len(out) < n; i++ {
		h := hmac.New(sha256.New, prk)
		h.Write(prev)
		h.Write(info)
		h.Write([]byte{i})
		prev = h.Sum(nil)
		out = append(out, prev...)
	}
	return out[:n]
}

// Challenge is the challenge hash of a message.
func Challenge(msg []byte) *big.Int {
	x := new(big.Int).SetBytes(HKDF(msg, []byte("ThresholdECDSA"), []byte{'H', '2', 'F', 0, 1}, 48))
	return x.Mod(x, N)
}

// ECDSAVerify verifies an ECDSA signature over secp256k1 (FIPS 186-4).
func ECDSAVerify(pub Pt, m, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 || pub.Neutral() {
		return false
	}
	w := new(big.Int).ModInverse(s, N)
	u1 := new(big.Int).Mul(m, w)
	u2 := new(big.Int).Mul(r, w)
	q := G().Mul(u1.Mod(u1, N)).Add(pub.Mul(u2.Mod(u2, N)))
	if q.Neutral() {
		return false
	}
	return new(big.Int).Mod(q.X, N).Cmp(r) == 0
}
