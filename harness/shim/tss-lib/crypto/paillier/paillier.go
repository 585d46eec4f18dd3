// Package paillier is a stand-in for github.com/binance-chain/tss-lib/crypto/paillier, which is not
// available offline. It implements the same textbook Paillier scheme (g = N+1) with the same API,
// argument checks and errors as the original.
package paillier

import (
	"crypto/rand"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"time"
)

type (
	// PublicKey is a Paillier public key
	PublicKey struct {
		N *big.Int
	}
	// PrivateKey is a Paillier private key
	PrivateKey struct {
		PublicKey
		LambdaN, // lcm(p-1, q-1)
		PhiN *big.Int // (p-1) * (q-1)
	}
)

var (
	// ErrMessageTooLong is returned for arguments out of range
	ErrMessageTooLong = fmt.Errorf("the message is too large or < 0")
	// ErrMessageMalFormed is returned for ciphertexts not prime to N
	ErrMessageMalFormed = fmt.Errorf("the message is mal-formed")

	zero = big.NewInt(0)
	one  = big.NewInt(1)
)

func randPrime(r io.Reader, bits int) (*big.Int, error) {
	buf := make([]byte, (bits+7)/8)
	p := new(big.Int)
	for {
		if _, err := io.ReadFull(r, buf); err != nil {
			return nil, err
		}
		p.SetBytes(buf)
		p.Rsh(p, uint(8*len(buf)-bits))
		p.SetBit(p, bits-1, 1)
		p.SetBit(p, bits-2, 1)
		p.SetBit(p, 0, 1)
		if p.ProbablyPrime(20) {
			return p, nil
		}
	}
}

// KeyFromPrimes builds a key pair from two primes (not part of the original API).
func KeyFromPrimes(p, q *big.Int) (*PrivateKey, *PublicKey) {
	n := new(big.Int).Mul(p, q)
	p1, q1 := new(big.Int).Sub(p, one), new(big.Int).Sub(q, one)
	phi := new(big.Int).Mul(p1, q1)
	gcd := new(big.Int).GCD(nil, nil, p1, q1)
	lambda := new(big.Int).Div(phi, gcd)
	pub := &PublicKey{N: n}
	return &PrivateKey{PublicKey: *pub, LambdaN: lambda, PhiN: phi}, pub
}

// GenerateKeyPairFrom is GenerateKeyPair with an explicit source of randomness (not part of the original API).
func GenerateKeyPairFrom(r io.Reader, modulusBitLen int) (*PrivateKey, *PublicKey, error) {
	for {
		p, err := randPrime(r, modulusBitLen/2)
		if err != nil {
			return nil, nil, err
		}
		q, err := randPrime(r, modulusBitLen-modulusBitLen/2)
		if err != nil {
			return nil, nil, err
		}
		if p.Cmp(q) == 0 {
			continue
		}
		priv, pub := KeyFromPrimes(p, q)
		if new(big.Int).GCD(nil, nil, pub.N, priv.PhiN).Cmp(one) != 0 {
			continue
		}
		return priv, pub, nil
	}
}

// GenerateKeyPair generates a key pair with a modulus of the given length.
func GenerateKeyPair(modulusBitLen int, timeout time.Duration, optionalConcurrency ...int) (privateKey *PrivateKey, publicKey *PublicKey, err error) {
	if modulusBitLen < 16 {
		return nil, nil, errors.New("modulus too short")
	}
	if e := os.Getenv("VERIF_PAILLIER"); e != "" {
		if e == "fail" {
			return nil, nil, errors.New("timeout or error during the generation of primes")
		}
		// keys of programs under test: from a seed, and of another size if one is given
		fmt.Sscanf(e, "%d:%d", &env.seed, &env.bits)
		if env.bits > 0 {
			modulusBitLen = env.bits
		}
		return GenerateKeyPairFrom(&env, modulusBitLen)
	}
	return GenerateKeyPairFrom(rand.Reader, modulusBitLen)
}

type seeded struct {
	seed uint64
	bits int
	n    uint64
	rest []byte
}

var env seeded

// Read implements io.Reader
func (s *seeded) Read(b []byte) (int, error) {
	for i := range b {
		if len(s.rest) == 0 {
			s.n++
			h := sha256.Sum256([]byte(fmt.Sprintf("%d/%d", s.seed, s.n)))
			s.rest = h[:]
		}
		b[i], s.rest = s.rest[0], s.rest[1:]
	}
	return len(b), nil
}

// NSquare returns N^2
func (publicKey *PublicKey) NSquare() *big.Int {
	return new(big.Int).Mul(publicKey.N, publicKey.N)
}

// Gamma returns N+1
func (publicKey *PublicKey) Gamma() *big.Int {
	return new(big.Int).Add(publicKey.N, one)
}

// EncryptAndReturnRandomness encrypts m
func (publicKey *PublicKey) EncryptAndReturnRandomness(m *big.Int) (c *big.Int, x *big.Int, err error) {
	if m.Cmp(zero) == -1 || m.Cmp(publicKey.N) != -1 {
		return nil, nil, ErrMessageTooLong
	}
	for {
		x, err = rand.Int(rand.Reader, publicKey.N)
		if err != nil {
			return nil, nil, err
		}
		if x.Sign() != 0 && new(big.Int).GCD(nil, nil, x, publicKey.N).Cmp(one) == 0 {
			break
		}
	}
	n2 := publicKey.NSquare()
	gm := new(big.Int).Exp(publicKey.Gamma(), m, n2)
	xn := new(big.Int).Exp(x, publicKey.N, n2)
	c = gm.Mul(gm, xn)
	c.Mod(c, n2)
	return c, x, nil
}

// Encrypt encrypts m
func (publicKey *PublicKey) Encrypt(m *big.Int) (c *big.Int, err error) {
	c, _, err = publicKey.EncryptAndReturnRandomness(m)
	return
}

// HomoMult returns an encryption of m times the plaintext of c1
func (publicKey *PublicKey) HomoMult(m, c1 *big.Int) (*big.Int, error) {
	if m.Cmp(zero) == -1 || m.Cmp(publicKey.N) != -1 {
		return nil, ErrMessageTooLong
	}
	n2 := publicKey.NSquare()
	if c1.Cmp(zero) == -1 || c1.Cmp(n2) != -1 {
		return nil, ErrMessageTooLong
	}
	return new(big.Int).Exp(c1, m, n2), nil
}

// HomoAdd returns an encryption of the sum of the plaintexts of c1 and c2
func (publicKey *PublicKey) HomoAdd(c1, c2 *big.Int) (*big.Int, error) {
	n2 := publicKey.NSquare()
	if c1.Cmp(zero) == -1 || c1.Cmp(n2) != -1 {
		return nil, ErrMessageTooLong
	}
	if c2.Cmp(zero) == -1 || c2.Cmp(n2) != -1 {
		return nil, ErrMessageTooLong
	}
	r := new(big.Int).Mul(c1, c2)
	return r.Mod(r, n2), nil
}

func l(u, n *big.Int) *big.Int {
	t := new(big.Int).Sub(u, one)
	return t.Div(t, n)
}

// Decrypt decrypts c
func (privateKey *PrivateKey) Decrypt(c *big.Int) (m *big.Int, err error) {
	n2 := privateKey.NSquare()
	if c.Cmp(zero) == -1 || c.Cmp(n2) != -1 {
		return nil, ErrMessageTooLong
	}
	if cg := new(big.Int).GCD(nil, nil, c, n2); cg.Cmp(one) == 1 {
		return nil, ErrMessageMalFormed
	}
	lc := l(new(big.Int).Exp(c, privateKey.LambdaN, n2), privateKey.N)
	lg := l(new(big.Int).Exp(privateKey.Gamma(), privateKey.LambdaN, n2), privateKey.N)
	inv := new(big.Int).ModInverse(lg, privateKey.N)
	if inv == nil {
		return nil, ErrMessageMalFormed
	}
	m = lc.Mul(lc, inv)
	return m.Mod(m, privateKey.N), nil
}
