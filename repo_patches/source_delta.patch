From ed92b434a92ec5add7e65563a4ffcb2520792d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 01/28] fix: multiply curve points by scalars of any size
 without changing the scalar

Scalars in [order, 2^256) gave the neutral element, longer ones were
overwritten by their reduction, and multiplying or negating the neutral
element panicked.
---
 pkg/curve/secp256k1.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index da77bfc..59682a3 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -69,17 +69,22 @@ func (g sGroup) Neg(a Point) Point {
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarMult(a Point, scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
+	as := a.(sPoint)
+	if as.x == nil && as.y == nil {
+		return g.Neutral()
+	}
+	// the underlying implementation handles only scalars smaller than the order
+	if scale.Cmp(g.Order()) >= 0 {
+		scale = new(big.Int).Mod(scale, g.Order())
 	}
-	resultX, resultY := g.curve.ScalarMult(a.(sPoint).x, a.(sPoint).y, scale.Bytes())
+	resultX, resultY := g.curve.ScalarMult(as.x, as.y, scale.Bytes())
 	return sPoint{resultX, resultY}
 }
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarBaseMult(scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
+	if scale.Cmp(g.Order()) >= 0 {
+		scale = new(big.Int).Mod(scale, g.Order())
 	}
 	resultX, resultY := g.curve.ScalarBaseMult(scale.Bytes())
 	return sPoint{resultX, resultY}
-- 
2.43.0


From 09243436900f198db183b96dbd5e97d154a856ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 02/28] fix: the sum of opposite curve points is the neutral
 element

---
 pkg/curve/secp256k1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 59682a3..9dd1f81 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -52,6 +52,9 @@ func (g sGroup) Add(a Point, b Point) Point {
 		resultY = new(big.Int).Set(as.y)
 	} else if (as.x.Cmp(bs.x) == 0) && (as.y.Cmp(bs.y) == 0) {
 		resultX, resultY = g.curve.Double(as.x, as.y)
+	} else if as.x.Cmp(bs.x) == 0 {
+		// opposite points
+		return g.Neutral()
 	} else {
 		resultX, resultY = g.curve.Add(as.x, as.y, bs.x, bs.y)
 	}
-- 
2.43.0


From 4d96a108ae91e7abfc2e830944bb33a088784569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 03/28] fix: decode points from any stream, the neutral element
 included

The encoding of the neutral element has 4 bytes, but 8 were read for it,
and readers that return less than asked for made decoding fail.
---
 pkg/curve/secp256k1.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 9dd1f81..52234f0 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -132,27 +132,22 @@ func (g sGroup) Encode(a Point, w io.Writer) error {
 
 func (g sGroup) Decode(r io.Reader) (Point, error) {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
+	if _, err := io.ReadFull(r, lenBytes[:4]); err != nil {
 		return nil, err
 	}
-	if n < 8 {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected 8, got %d", n)
-	}
 
 	lenX := binary.BigEndian.Uint32(lenBytes[:4])
 	if lenX == 0 {
 		return sPoint{nil, nil}, nil
 	}
 
+	if _, err := io.ReadFull(r, lenBytes[4:8]); err != nil {
+		return nil, fmt.Errorf("Too few bytes for lenX and lenY: %v", err)
+	}
 	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
 	xyBytes := make([]byte, lenX+lenY)
-	n, err = r.Read(xyBytes)
-	if err != nil {
-		return nil, err
-	}
-	if uint32(n) < lenX+lenY {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected %d, got %d", lenX+lenY, n)
+	if _, err := io.ReadFull(r, xyBytes); err != nil {
+		return nil, fmt.Errorf("Too few bytes for x and y: expected %d: %v", lenX+lenY, err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
-- 
2.43.0


From 9faa0cd19a7a11a819923583eed8595ee1bc7311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 04/28] fix: reject encodings of points that are not on the
 curve

Lengths were trusted, so that a few bytes made Decode panic or allocate
gigabytes, and coordinates off the curve were accepted.
---
 pkg/curve/secp256k1.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 52234f0..0481537 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -145,12 +145,19 @@ func (g sGroup) Decode(r io.Reader) (Point, error) {
 		return nil, fmt.Errorf("Too few bytes for lenX and lenY: %v", err)
 	}
 	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
+	maxLen := uint32(g.curve.BitSize+7) / 8
+	if lenX > maxLen || lenY > maxLen {
+		return nil, fmt.Errorf("Too long coordinates: lenX is %d and lenY is %d", lenX, lenY)
+	}
 	xyBytes := make([]byte, lenX+lenY)
 	if _, err := io.ReadFull(r, xyBytes); err != nil {
 		return nil, fmt.Errorf("Too few bytes for x and y: expected %d: %v", lenX+lenY, err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
+	if x.Cmp(g.curve.P) >= 0 || y.Cmp(g.curve.P) >= 0 || !g.curve.IsOnCurve(x, y) {
+		return nil, fmt.Errorf("Decoded coordinates are not coordinates of a point on the curve")
+	}
 
 	return sPoint{x, y}, nil
 }
-- 
2.43.0


From d280c9d5d66aba4840a930c3940bc0025735c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:56 +0000
Subject: [PATCH 05/28] fix: reduce challenges modulo the order of the group

---
 pkg/crypto/hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/crypto/hash.go b/pkg/crypto/hash.go
index c70ba74..c1270a0 100644
--- a/pkg/crypto/hash.go
+++ b/pkg/crypto/hash.go
@@ -7,8 +7,8 @@ import (
 	"golang.org/x/crypto/hkdf"
 )
 
-// Q TODO: placeholder, should be replaced with order of the curve
-var Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+// Q is the order of the group of the secp256k1 curve
+var Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
 
 //HashToBigInt takes []byte and returns its hash as a big.Int
 func HashToBigInt(msg []byte) *big.Int {
-- 
2.43.0


From 5a94e1ce54af67d03d2d7c0de89e06139aedba72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:56 +0000
Subject: [PATCH 06/28] fix: compute with scalars modulo the order of the group

---
 pkg/arith/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/arith/config.go b/pkg/arith/config.go
index a9141da..3bf5d83 100644
--- a/pkg/arith/config.go
+++ b/pkg/arith/config.go
@@ -8,6 +8,6 @@ import (
 
 var (
 	randReader io.Reader = rand.Reader
-	// Q TODO: placeholder, should be replaced with order of the curve
-	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+	// Q is the order of the group of the secp256k1 curve
+	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
 )
-- 
2.43.0


From 125845cea4800992c9bfcdc05adbd00c66afead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 07/28] fix: decode proofs from any stream and report malformed
 ones

---
 pkg/crypto/zkpok/zkpok.go | 72 ++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 39 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index f017369..7c29c46 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -13,6 +13,30 @@ import (
 	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
 )
 
+//maxResponseLen is the number of bytes of the longest encoding of a scalar
+const maxResponseLen = 32
+
+//decodeResponses decodes two scalars preceded by their lengths
+func decodeResponses(r io.Reader) (*big.Int, *big.Int, error) {
+	lenBytes := make([]byte, 8)
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return nil, nil, err
+	}
+
+	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
+	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
+	if z1Len > maxResponseLen || z2Len > maxResponseLen {
+		return nil, nil, fmt.Errorf("Too long responses: expected at most %d bytes, got %d and %d", maxResponseLen, z1Len, z2Len)
+	}
+
+	allBytes := make([]byte, z1Len+z2Len)
+	if _, err := io.ReadFull(r, allBytes); err != nil {
+		return nil, nil, err
+	}
+
+	return new(big.Int).SetBytes(allBytes[:z1Len]), new(big.Int).SetBytes(allBytes[z1Len:]), nil
+}
+
 //ZKproof represents a zero-knowledge proof that may be verified
 type ZKproof interface {
 	Verify() bool
@@ -95,31 +119,15 @@ func (z *ZKEGKnow) Encode(w io.Writer) error {
 
 //Decode decodes ZKEGKnow proof
 func (z *ZKEGKnow) Decode(r io.Reader) error {
-	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
+	z1, z2, err := decodeResponses(r)
 	if err != nil {
 		return err
 	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
-	}
-
-	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
-	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
-	allBytes := make([]byte, z1Len+z2Len)
-
-	n, err = r.Read(allBytes)
-	if err != nil {
+	xy := &commitment.ElGamal{}
+	if err := xy.Decode(r); err != nil {
 		return err
 	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
-	}
-
-	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
-	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
-	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
+	z.z1, z.z2, z.xy = z1, z2, xy
 
 	return nil
 }
@@ -280,30 +288,16 @@ func (z *ZKEGRefresh) Encode(w io.Writer) error {
 
 //Decode decodes ZKEGRefresh proof
 func (z *ZKEGRefresh) Decode(r io.Reader) error {
-	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
+	z1, z2, err := decodeResponses(r)
 	if err != nil {
 		return err
 	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
-	}
-
-	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
-	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
-	allBytes := make([]byte, z1Len+z2Len)
-
-	n, err = r.Read(allBytes)
-	if err != nil {
+	xy := &commitment.ElGamal{}
+	if err := xy.Decode(r); err != nil {
 		return err
 	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
-	}
-	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
-	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
-	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
+	z.z1, z.z2, z.xy = z1, z2, xy
+
 	return nil
 }
 
-- 
2.43.0


From 6c998f3b3ab44e95f2348d13e479b8b66257eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 08/28] fix: derive the challenge of a proof from its first
 message too

---
 pkg/crypto/zkpok/zkpok.go | 47 ++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 7c29c46..3987638 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -13,6 +13,18 @@ import (
 	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
 )
 
+//challenge computes the challenge of a proof from its statement and its first message
+func challenge(comms ...*commitment.ElGamal) (*big.Int, error) {
+	buf := &bytes.Buffer{}
+	for _, comm := range comms {
+		if err := comm.Encode(buf); err != nil {
+			return nil, err
+		}
+	}
+
+	return pkg.HashToBigInt(buf.Bytes()), nil
+}
+
 //maxResponseLen is the number of bytes of the longest encoding of a scalar
 const maxResponseLen = 32
 
@@ -56,19 +68,17 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 	sigma, _ := rand.Int(rand.Reader, order)
 	rho, _ := rand.Int(rand.Reader, order)
 
+	xy := fct.Create(rho, sigma)
+
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
-	buf := &bytes.Buffer{}
-	if err := comm.Encode(buf); err != nil {
+	e, err := challenge(comm, xy)
+	if err != nil {
 		return nil, err
 	}
-	e := pkg.HashToBigInt(buf.Bytes())
 	var z1, z2 big.Int
 
-	d := fct.Neutral()
-	d = d.Compose(fct.Create(rho, sigma), d.Exp(comm, e))
 	z1.Add(sigma, z1.Mul(e, rnd))
 	z2.Add(rho, z2.Mul(e, value))
-	xy := fct.Create(rho, sigma)
 	z1.Mod(&z1, order)
 	z2.Mod(&z2, order)
 
@@ -82,11 +92,10 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 //Verify verifies proof z of knowledge of value and r for commitment c
 func (z *ZKEGKnow) Verify(fct *commitment.ElGamalFactory, comm *commitment.ElGamal) error {
 	d := fct.Neutral()
-	buf := &bytes.Buffer{}
-	if err := comm.Encode(buf); err != nil {
+	e, err := challenge(comm, z.xy)
+	if err != nil {
 		return err
 	}
-	e := pkg.HashToBigInt(buf.Bytes())
 	d = d.Compose(z.xy, d.Exp(comm, e))
 
 	if !comm.Equal(d, fct.Create(z.z2, z.z1)) {
@@ -216,16 +225,14 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	g := fct.Curve()
 	sigma, _ := rand.Int(rand.Reader, g.Order())
 	tau, _ := rand.Int(rand.Reader, g.Order())
+	xy := fct.Neutral()
+	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
 
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
-	buf := &bytes.Buffer{}
-	if err := c1.Encode(buf); err != nil {
-		return nil, err
-	}
-	if err := c2.Encode(buf); err != nil {
+	e, err := challenge(c1, c2, xy)
+	if err != nil {
 		return nil, err
 	}
-	e := pkg.HashToBigInt(buf.Bytes())
 
 	var z1 big.Int
 	var z2 big.Int
@@ -233,8 +240,6 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	z2.Add(tau, e)
 	z1.Mod(&z1, fct.Curve().Order())
 	z2.Mod(&z2, fct.Curve().Order())
-	xy := fct.Neutral()
-	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
 
 	return &ZKEGRefresh{
 		z1: &z1,
@@ -245,14 +250,10 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 
 //Verify verifies ZKEGRefresh proof
 func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal) error {
-	buf := &bytes.Buffer{}
-	if err := c1.Encode(buf); err != nil {
-		return err
-	}
-	if err := c2.Encode(buf); err != nil {
+	e, err := challenge(c1, c2, z.xy)
+	if err != nil {
 		return err
 	}
-	e := pkg.HashToBigInt(buf.Bytes())
 
 	d := fct.Neutral()
 	dtmp := fct.Neutral()
-- 
2.43.0


From 4d091c14d32d4f46716aac420ce743f6a4577a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 09/28] fix: a refresh proof must not be accepted for a
 commitment to another value

---
 pkg/crypto/zkpok/zkpok.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 3987638..5444a00 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -224,9 +224,7 @@ type ZKEGRefresh struct {
 func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, r *big.Int) (*ZKEGRefresh, error) {
 	g := fct.Curve()
 	sigma, _ := rand.Int(rand.Reader, g.Order())
-	tau, _ := rand.Int(rand.Reader, g.Order())
-	xy := fct.Neutral()
-	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
+	xy := fct.Create(big.NewInt(0), sigma)
 
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	e, err := challenge(c1, c2, xy)
@@ -234,16 +232,14 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 		return nil, err
 	}
 
+	//c1 is raised to exactly the same power as c2 in the verification, so z2 is the challenge itself
 	var z1 big.Int
-	var z2 big.Int
 	z1.Add(sigma, z1.Mul(e, r))
-	z2.Add(tau, e)
 	z1.Mod(&z1, fct.Curve().Order())
-	z2.Mod(&z2, fct.Curve().Order())
 
 	return &ZKEGRefresh{
 		z1: &z1,
-		z2: &z2,
+		z2: e,
 		xy: xy,
 	}, nil
 }
@@ -255,6 +251,10 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 		return err
 	}
 
+	if z.z2.Cmp(e) != 0 {
+		return fmt.Errorf("verification failed")
+	}
+
 	d := fct.Neutral()
 	dtmp := fct.Neutral()
 	d.Compose(fct.Create(big.NewInt(0), z.z1), d.Exp(c1, z.z2))
-- 
2.43.0


From a966e0f87be362374f34d31fd920aa9b8d590df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 10/28] fix: bytes of one peer must not crash a round

---
 pkg/sync/server.go | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index e56d740..1d0c0ce 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -2,8 +2,10 @@
 package sync
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 
 	"os"
 	"strings"
@@ -63,7 +65,7 @@ func (s *server) Start() {
 					}
 
 					buf := make([]byte, 2)
-					_, err = conn.Read(buf)
+					_, err = io.ReadFull(conn, buf)
 					if err != nil {
 						panic(err.Error())
 					}
@@ -275,25 +277,22 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 			defer wg.Done()
 
 			dataLen := make([]byte, 8)
-			if n, err := s.inDataConn[pid].Read(dataLen); err != nil {
+			if n, err := io.ReadFull(s.inDataConn[pid], dataLen); err != nil {
 				errors[pid] = fmt.Errorf("receiveFromAll dataLen err: %v, %v", n, err)
 				return
 			}
-			l := int(binary.LittleEndian.Uint64(dataLen))
-			buf := make([]byte, l)
-			nRead := 0
-			for {
-				n, err := s.inDataConn[pid].Read(buf[nRead:])
-				if err != nil {
-					errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
-					return
-				}
-				nRead += n
-				if nRead == l {
-					break
-				}
-
+			l := int64(binary.LittleEndian.Uint64(dataLen))
+			if l < 0 {
+				errors[pid] = fmt.Errorf("rid:%v: received wrong data length from %v", s.roundID, pid)
+				return
+			}
+			// The buffer grows with the data received, the length is only what the other party claims
+			received := &bytes.Buffer{}
+			if _, err := io.CopyN(received, s.inDataConn[pid], l); err != nil {
+				errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
+				return
 			}
+			buf := received.Bytes()
 
 			if len(buf) < 10 {
 				errors[pid] = fmt.Errorf("rid:%v: received too short data from %v", s.roundID, pid)
@@ -301,7 +300,8 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 			}
 			id := binary.LittleEndian.Uint16(buf[:2])
 			if id != pid {
-				panic(fmt.Sprintf("some party uses wrong outDataConn: Expected %v, got %v", pid, id))
+				errors[pid] = fmt.Errorf("some party uses wrong outDataConn: Expected %v, got %v", pid, id)
+				return
 			}
 			roundID := binary.LittleEndian.Uint64(buf[2:10])
 			if int64(roundID) != s.roundID {
-- 
2.43.0


From d9a125cd1a598e47b006307c5ff7c8326e57b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 11/28] fix: a failed round names the parties that failed and
 hands over the data of the others

---
 pkg/sync/server.go | 69 ++++++++++++----------------------------------
 1 file changed, 17 insertions(+), 52 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 1d0c0ce..f7e4e28 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -8,7 +8,6 @@ import (
 	"io"
 
 	"os"
-	"strings"
 	"sync"
 	"time"
 
@@ -142,35 +141,30 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 
 	endRound := time.Now().Add(s.roundDuration)
 	var wg sync.WaitGroup
-	var errSend error
+	var errSend []error
 	wg.Add(1)
 	go func() {
 		defer wg.Done()
 		errSend = s.sendToAll(toSend)
 	}()
 
-	data, missing, err := s.receiveFromAll(endRound)
-	if err != nil {
-		return wrap(err)
-	}
-
-	if len(missing) > 0 {
-		return newRoundError("Missing data from some parties", missing)
-	}
-
+	data, errReceive := s.receiveFromAll(endRound)
+	// The next round must not begin while data of this one is being sent
 	wg.Wait()
 
-	if errSend != nil {
-		return wrap(errSend)
-	}
-
 	errors := []error{}
 	wrong := []uint16{}
 	for pid := uint16(0); pid < s.nProc; pid++ {
 		if pid == s.pid {
 			continue
 		}
-		err = check(pid, data[pid])
+		err := errReceive[pid]
+		if err == nil {
+			err = check(pid, data[pid])
+		}
+		if err == nil {
+			err = errSend[pid]
+		}
 		if err != nil {
 			errors = append(errors, err)
 			wrong = append(wrong, pid)
@@ -178,7 +172,7 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 	}
 
 	if len(wrong) > 0 {
-		return newRoundError(fmt.Errorf("rid:%v: Data sent by the parties %v is wrong with errors %v", s.roundID, wrong, errors).Error(), wrong)
+		return newRoundError(fmt.Errorf("rid:%v: Data exchanged with the parties %v is missing or wrong with errors %v", s.roundID, wrong, errors).Error(), wrong)
 	}
 
 	// TODO: better timeout handling
@@ -190,7 +184,8 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 	return nil
 }
 
-func (s *server) sendToAll(toSend [][]byte) error {
+// sendToAll returns an error for every party that could not be sent its data
+func (s *server) sendToAll(toSend [][]byte) []error {
 	var data []byte
 	// Check if we send the same data to all parties
 	if len(toSend) == 1 {
@@ -245,26 +240,12 @@ func (s *server) sendToAll(toSend [][]byte) error {
 
 	wg.Wait()
 
-	var b strings.Builder
-	for pid := uint16(0); pid < s.nProc; pid++ {
-		if pid == s.pid {
-			continue
-		}
-		if errors[pid] != nil {
-			fmt.Fprintf(&b, "[sendToAll] pid: %d, error: %v\n", pid, errors[pid])
-		}
-	}
-
-	if b.Len() > 0 {
-		return fmt.Errorf("rid:%v: %v", s.roundID, b.String())
-	}
-
-	return nil
+	return errors
 }
 
-func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error) {
+// receiveFromAll returns, for every party, its data or an error
+func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []error) {
 	data := make([][]byte, s.nProc)
-	missing := []uint16{}
 
 	wg := sync.WaitGroup{}
 	wg.Add(int(s.nProc) - 1)
@@ -321,21 +302,5 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 		fmt.Fprintf(os.Stderr, "rid:%v: Round: receiving took too long %v\n", s.roundID, d)
 	}
 
-	var b strings.Builder
-	for pid := uint16(0); pid < s.nProc; pid++ {
-		if pid == s.pid {
-			continue
-		}
-		if errors[pid] != nil {
-			fmt.Fprintf(&b, "[receiveFromAll] pid: %d, error: %v\n", pid, errors[pid])
-			// TODO: not all erros should be treated as missing
-			missing = append(missing, pid)
-		}
-	}
-
-	if b.Len() > 0 {
-		return nil, missing, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
-	}
-
-	return data, nil, nil
+	return data, errors
 }
-- 
2.43.0


From af0d29835365c2f87386e8dd8f1a4c716229fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 12/28] fix: resharing returns the new shares and keeps the
 arithmetic secret

---
 pkg/arith/reshare.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index 709c2a8..c6ecccb 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -429,9 +429,10 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 	}
 
 	tds := &TDSecret{*ads, t}
-	ads.skShare = share
-	ads.r = shareRandRefresh
-	ads.egs = shareComms
+	tds.skShare = share
+	tds.r = shareRand.Add(shareRand, shareRandRefresh)
+	tds.r.Mod(tds.r, order)
+	tds.egs = shareComms
 
 	return tds, nil
 }
-- 
2.43.0


From 8f3788ba0577153a70ea7cd22236457056427a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 13/28] fix: send the randomness of evaluations reduced modulo
 the order

---
 pkg/arith/reshare.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index c6ecccb..50b10c3 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -272,6 +272,8 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		// Randomizing element effectively used in the commitment is mult of the initial one and rerandomizing one
 		effectiveRandEval[pid] = big.NewInt(0)
 		effectiveRandEval[pid].Add(randEvalRefresh[pid], egEvalRands[pid])
+		// The size of an unreduced sum would tell about the coefficients
+		effectiveRandEval[pid].Mod(effectiveRandEval[pid], order)
 
 		evalRefreshComm[pid] = ads.egf.Neutral()
 		evalRefreshComm[pid].Compose(egEval[pid], ads.egf.Create(big.NewInt(0), randEvalRefresh[pid]))
-- 
2.43.0


From d5d73771e1682c0b0b9f5720f3901461c60b3f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 14/28] fix: malformed messages must not crash key generation
 and resharing

---
 pkg/arith/distributed_key.go | 34 +++++++++++-----------------------
 pkg/arith/reshare.go         |  3 +++
 2 files changed, 14 insertions(+), 23 deletions(-)

diff --git a/pkg/arith/distributed_key.go b/pkg/arith/distributed_key.go
index 92f11fa..42894a7 100644
--- a/pkg/arith/distributed_key.go
+++ b/pkg/arith/distributed_key.go
@@ -77,36 +77,24 @@ func (nmc *NMCtmp) encode(w io.Writer) error {
 
 func (nmc *NMCtmp) decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("nmc wrong number of bytes in decode")
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("nmc wrong number of bytes in decode: %v", err)
 	}
 
-	lenData := int(binary.LittleEndian.Uint32(lenBytes[:4]))
-	nmc.dataBytes = make([]byte, lenData)
-	n, err = r.Read(nmc.dataBytes)
-	if err != nil {
-		return err
-	}
-	if n < lenData {
-		return fmt.Errorf("nmc wrong number of dataBytes in decode")
-	}
+	lenData := int64(binary.LittleEndian.Uint32(lenBytes[:4]))
+	lenZkp := int64(binary.LittleEndian.Uint32(lenBytes[4:8]))
 
-	lenZkp := int(binary.LittleEndian.Uint32(lenBytes[4:8]))
-	nmc.zkpBytes = make([]byte, lenZkp)
-	n, err = r.Read(nmc.zkpBytes)
-	if err != nil {
-		return err
+	// The buffers grow with the data read, the lengths are only what the other party claims
+	dataBuf, zkpBuf := &bytes.Buffer{}, &bytes.Buffer{}
+	if _, err := io.CopyN(dataBuf, r, lenData); err != nil {
+		return fmt.Errorf("nmc wrong number of dataBytes in decode: %v", err)
 	}
-	if n < lenZkp {
-		return fmt.Errorf("nmc wrong number of zkpBytes in decode")
+	if _, err := io.CopyN(zkpBuf, r, lenZkp); err != nil {
+		return fmt.Errorf("nmc wrong number of zkpBytes in decode: %v", err)
 	}
+	nmc.dataBytes, nmc.zkpBytes = dataBuf.Bytes(), zkpBuf.Bytes()
 
 	return nil
-
 }
 
 // Verify tests if ncm is a commitment to given args
diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index 50b10c3..b470a5c 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -342,6 +342,9 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 			return fmt.Errorf("data for pid %v is to short %v", pid, len(data))
 		}
 		l := binary.LittleEndian.Uint32(data[:4])
+		if uint64(l) > uint64(len(data)-4) {
+			return fmt.Errorf("data for pid %v is to short %v", pid, len(data))
+		}
 		recvEvals[pid] = new(big.Int).SetBytes(data[4 : 4+l])
 		recvRand[pid] = new(big.Int).SetBytes(data[4+l:])
 		if !allEvalRefreshComm[pid][ads.pid].Equal(ads.egf.Create(recvEvals[pid], recvRand[pid]), allEvalRefreshComm[pid][ads.pid]) {
-- 
2.43.0


From 77dd6b83a8e1fd2304bba975698f4de8b07ec98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 15/28] fix: a linear combination is a complete threshold
 secret of the right threshold

---
 pkg/arith/distributed_secret.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 3f31379..7a42184 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -217,14 +217,23 @@ func Gen(label string, server sync.Server, egf *commitment.ElGamalFactory, pid,
 // Lin computes locally a linear combination of the secrets
 func Lin(alpha, beta *big.Int, a, b *TDSecret, cLabel string) *TDSecret {
 	tds := &TDSecret{}
+	tds.pid = a.pid
 	tds.label = cLabel
 	tds.server = a.server
 	tds.egf = a.egf
+	// the degree of a sum is that of the polynomial of the higher degree
 	tds.t = a.t
+	if b.t > tds.t {
+		tds.t = b.t
+	}
 
-	tds.skShare = new(big.Int).Mul(alpha, a.skShare)
-	tmp := new(big.Int).Mul(beta, b.skShare)
-	tds.skShare.Add(tds.skShare, tmp)
+	lin := func(x, y *big.Int) *big.Int {
+		result := new(big.Int).Mul(alpha, x)
+		result.Add(result, new(big.Int).Mul(beta, y))
+		return result.Mod(result, tds.egf.Curve().Order())
+	}
+	tds.skShare = lin(a.skShare, b.skShare)
+	tds.r = lin(a.r, b.r)
 
 	makeEGLin := func(aeg, beg *commitment.ElGamal) *commitment.ElGamal {
 		result := tds.egf.Neutral()
-- 
2.43.0


From 427be1b9b054eb9602778aee14a1779fe728055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 16/28] fix: revealing interpolates the shares and fails when
 there are too few

---
 pkg/arith/distributed_secret.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 7a42184..16b7b5a 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -64,21 +64,27 @@ func (tds *TDSecret) Reveal() (*big.Int, error) {
 		return nil
 	}
 
-	nProc := len(tds.egs)
-	if err := tds.server.Round(toSend, check); err != nil {
-		if rErr, ok := err.(*sync.RoundError); ok && rErr.Missing() != nil && nProc-len(rErr.Missing()) < int(tds.t) {
-			return nil, err
+	errRound := tds.server.Round(toSend, check)
+
+	args := make([]*big.Int, 0, tds.t)
+	values := make([]*big.Int, 0, tds.t)
+	for pid, secret := range secrets {
+		if secret != nil && len(args) < int(tds.t) {
+			args = append(args, big.NewInt(int64(pid)))
+			values = append(values, secret)
 		}
 	}
+	if len(args) < int(tds.t) {
+		return nil, fmt.Errorf("Reveal needs %v shares, got %v: %v", tds.t, len(args), errRound)
+	}
 
+	order := tds.egf.Curve().Order()
 	sum := big.NewInt(0)
-	for _, secret := range secrets {
-		if secret != nil {
-			sum.Add(sum, secret)
-		}
+	for i, arg := range args {
+		sum.Add(sum, new(big.Int).Mul(values[i], lagrangeCoef(arg, args, order)))
 	}
 
-	return sum, nil
+	return sum.Mod(sum, order), nil
 }
 
 // Exp computes a common public key and its share related to this secret
-- 
2.43.0


From 6fdcdab5e8bd81935b1995d5ece4771a79faf54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 17/28] fix: raising uses the shares of any sufficient set of
 parties and fails when there are too few

---
 pkg/arith/distributed_secret.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 16b7b5a..33b3d29 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -115,29 +115,22 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 	}
 
 	nProc := len(tds.egs)
-	if err := tds.server.Round([][]byte{toSendBuf.Bytes()}, check); err != nil {
-		if rErr, ok := err.(*sync.RoundError); ok && rErr.Missing() != nil && nProc-len(rErr.Missing()) < int(tds.t) {
-			return nil, err
-		}
-	}
+	errRound := tds.server.Round([][]byte{toSendBuf.Bytes()}, check)
 
 	var wg stdsync.WaitGroup
 	channel := make(chan curve.Point, nProc)
-	counter := tds.t
 
-	args := make([]*big.Int, tds.t)
-	values := make([]curve.Point, tds.t)
+	args := make([]*big.Int, 0, tds.t)
+	values := make([]curve.Point, 0, tds.t)
 	for i, value := range tdk.pkShares {
-		if value == nil {
-			continue
-		}
-		args[i] = big.NewInt(int64(i))
-		values[i] = value
-		counter = counter - 1
-		if counter == 0 {
-			break
+		if value != nil && len(args) < int(tds.t) {
+			args = append(args, big.NewInt(int64(i)))
+			values = append(values, value)
 		}
 	}
+	if len(args) < int(tds.t) {
+		return nil, fmt.Errorf("Exp needs %v shares, got %v: %v", tds.t, len(args), errRound)
+	}
 
 	for i, arg := range args {
 		wg.Add(1)
-- 
2.43.0


From 8b227fa3f9621451f93b68da90caa8de09b63446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 18/28] fix: a raised threshold secret has the label of the
 secret

---
 pkg/arith/distributed_secret.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 33b3d29..fbd5269 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -94,6 +94,7 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 	pid := tds.pid
 	tdk := &TDKey{}
 	tdk.secret = tds
+	tdk.DKey.secret = &tds.DSecret
 	tdk.pkShares = make([]curve.Point, len(tds.egs))
 	tdk.pkShares[pid] = group.ScalarBaseMult(tds.skShare)
 
-- 
2.43.0


From c911911b6fdf2e812c6e79e27f75eec5652b132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 19/28] fix: multiplication shares the product, and does not
 tell the other parties the shares of b

---
 pkg/arith/mult.go | 96 +++++++++++++++--------------------------------
 1 file changed, 30 insertions(+), 66 deletions(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index f72db7e..ec3c1c5 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -139,106 +139,73 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 
 // PrivMult computes the product ab
 func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.PrivateKey, pub *paillier.PublicKey, pubs []*paillier.PublicKey) (*big.Int, error) {
-	// For all parties with id < pid, we act as Alice in MtA for a and Act as Bob for b.
-	// For all parties with id > pid, we act as Bob in MtA for a and act as Alice for b.
+	// With every other party we run MtA twice: as Alice for our a and their b, and as Bob for their a and our b.
 
-	// Step 1. First round of MtA. For id < pid wait for their Enc(a') and send Enc(b), and
-	// for id > pid send Enc(a) and wait for their Enc(b').
+	// Step 1. First round of MtA. Send Enc(a) and wait for their Enc(a').
 
-	toSendBuf1 := make([][]byte, nProc)
 	encA, err := pub.Encrypt(a)
 	if err != nil {
 		return nil, err
 	}
-	encB, err := pub.Encrypt(b)
-	if err != nil {
-		return nil, err
-	}
-	for id := range toSendBuf1 {
-		if id < pid {
-			// Bob for b
-			toSendBuf1[id] = encB.Bytes()
-		} else if id > pid {
-			// Bob for a
-			toSendBuf1[id] = encA.Bytes()
-		}
-	}
 
 	encShares := make([]*big.Int, nProc)
 	check := func(id uint16, data []byte) error {
-		if id < uint16(pid) {
-			// Alice for a
-			encShares[id] = new(big.Int).SetBytes(data)
-		} else if id > uint16(pid) {
-			// Alice for b
-			encShares[id] = new(big.Int).SetBytes(data)
-		}
-
+		encShares[id] = new(big.Int).SetBytes(data)
 		return nil
 	}
 
-	if err := server.Round(toSendBuf1, check); err != nil {
+	if err := server.Round([][]byte{encA.Bytes()}, check); err != nil {
 		return nil, err
 	}
 
-	// Step 2. Second round of MtA. For id < pid send Enc(aa'-t) and wait for E(bb'-t), and
-	// for id > pid wait for Enc(aa'-t) and send Enc(bb'-t).
-	myShares := make([]*big.Int, nProc) // collection of t_A
+	// Step 2. Second round of MtA. Send Enc(a'b+t) and wait for their Enc(ab'+t').
+	myShares := make([]*big.Int, nProc) // collection of t
 	toSendBuf2 := make([][]byte, nProc)
-	genEncABmt := func(id int, share *big.Int) error {
-		var err error
-		encABmt, err := pubs[id].HomoMult(share, encShares[id])
+	genEncABpt := func(id int) error {
+		encABpt, err := pubs[id].HomoMult(b, encShares[id])
 		if err != nil {
 			return err
 		}
 
-		myShares[id], err = rand.Int(randReader, Q)
+		// t hides a'b from its receiver and leaves room for it below N
+		maxT := new(big.Int).Sub(pubs[id].N, new(big.Int).Mul(Q, Q))
+		if maxT.Sign() <= 0 {
+			// too small a key for the product
+			maxT = pubs[id].N
+		}
+		myShares[id], err = rand.Int(randReader, maxT)
 		if err != nil {
 			return err
 		}
 
-		negMyShare := new(big.Int).Sub(pubs[id].N, myShares[id])
-		enc, err := pubs[id].Encrypt(negMyShare)
+		enc, err := pubs[id].Encrypt(myShares[id])
 		if err != nil {
 			return err
 		}
 
-		encABmt, err = pubs[id].HomoAdd(encABmt, enc)
+		encABpt, err = pubs[id].HomoAdd(encABpt, enc)
 		if err != nil {
 			return err
 		}
-		toSendBuf2[id] = encABmt.Bytes()
+		toSendBuf2[id] = encABpt.Bytes()
 
 		return nil
 	}
 
 	for id := range toSendBuf2 {
-		if id < pid {
-			// Alice for a
-			if err := genEncABmt(id, a); err != nil {
-				return nil, err
-			}
-		} else if id > pid {
-			// Alice for b
-			if err := genEncABmt(id, b); err != nil {
-				return nil, err
-			}
+		if id == pid {
+			continue
+		}
+		if err := genEncABpt(id); err != nil {
+			return nil, err
 		}
 	}
 
-	abmts := make([]*big.Int, nProc) // collection of decrypted shares for Bob
+	abpts := make([]*big.Int, nProc) // collection of decrypted shares for Alice
 	check = func(id uint16, data []byte) error {
-		if id != uint16(pid) {
-			var err error
-			// Bob for b
-			abmts[id] = new(big.Int).SetBytes(data)
-			abmts[id].Sub(abmts[id], pub.N)
-			if abmts[id], err = priv.Decrypt(abmts[id]); err != nil {
-				return err
-			}
-		}
-
-		return nil
+		var err error
+		abpts[id], err = priv.Decrypt(new(big.Int).SetBytes(data))
+		return err
 	}
 
 	if err := server.Round(toSendBuf2, check); err != nil {
@@ -251,12 +218,9 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		if id == pid {
 			continue
 		}
-		share.Add(share, t)
-		share.Add(share, abmts[id])
-	}
-	if len(share.Bytes()) > 32 {
-		share.Mod(share, Q)
+		share.Add(share, abpts[id])
+		share.Sub(share, t)
 	}
 
-	return share, nil
+	return share.Mod(share, Q), nil
 }
-- 
2.43.0


From e61de9bc09945325a98c139e65ad588beb332a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 20/28] fix: a product is a complete arithmetic secret

---
 pkg/arith/mult.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index ec3c1c5..4513ed8 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -18,8 +18,10 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 	nProc := len(a.egs)
 
 	c = &ADSecret{}
+	c.pid = a.pid
 	c.label = cLabel
 	c.server = a.server
+	c.egf = a.egf
 
 	// Step 1. Compute a product of commitments to b
 	pid := int(a.pid)
-- 
2.43.0


From a93c1b686f4ac0cb905ebe17e141591a18c6c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 21/28] fix: commit under the commitment key, not under the
 signing key

---
 pkg/tecdsa/tecdsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index 896a428..962791b 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -47,7 +47,7 @@ func Init(pid, nProc uint16, network sync.Server) (*Protocol, error) {
 	if err != nil {
 		return nil, err
 	}
-	p.egf = commitment.NewElGamalFactory(p.key.PublicKey())
+	p.egf = commitment.NewElGamalFactory(p.egKey.PublicKey())
 
 	return p, nil
 }
-- 
2.43.0


From 073c225a65631229ca0baea5056adff6681631ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 22/28] fix: divide modulo the order when signing and do not
 overwrite r

---
 pkg/tecdsa/tecdsa.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index 962791b..5f6673f 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -112,7 +112,12 @@ func (p *Protocol) Sign(message *big.Int) (*Signature, error) {
 		return nil, err
 	}
 
-	alpha, beta := new(big.Int).Div(message, tau), r.Div(r, tau)
+	// Divide modulo the order
+	tauInv := new(big.Int).ModInverse(tau, p.group.Order())
+	if tauInv == nil {
+		return nil, fmt.Errorf("tau is not invertible")
+	}
+	alpha, beta := new(big.Int).Mul(message, tauInv), new(big.Int).Mul(r, tauInv)
 	sTDSecret := arith.Lin(alpha, beta, ps.rho, ps.eta, "s")
 
 	s, err := sTDSecret.Reveal()
-- 
2.43.0


From 660d19b60621e4b5f4afee2a90e625581ff4568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 23/28] fix: write all the components of the private key

---
 cmd/gen_keys/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index c38f299..1bd5dd9 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -39,10 +39,10 @@ func encodePaillierPrivateKey(pk *paillier.PrivateKey) string {
 	copy(buf[2:2+lenN], pk.PublicKey.N.Bytes())
 
 	binary.LittleEndian.PutUint16(buf[2+lenN:4+lenN], uint16(lenLambdaN))
-	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.PublicKey.N.Bytes())
+	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.LambdaN.Bytes())
 
-	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenN))
-	copy(buf[6+lenN+lenLambdaN:], pk.PublicKey.N.Bytes())
+	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenPhiN))
+	copy(buf[6+lenN+lenLambdaN:], pk.PhiN.Bytes())
 
 	return base64.StdEncoding.EncodeToString(buf)
 }
-- 
2.43.0


From 2a86b7f3eae5be5ebc37ca6f2ee355e6f19eefc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 24/28] fix: refuse malformed keys and ids

---
 cmd/tecdsa/main.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 9db73b3..de83b61 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -8,6 +8,7 @@ import (
 	"flag"
 	"fmt"
 	"io"
+	"math"
 	"math/big"
 	"os"
 	"os/signal"
@@ -36,31 +37,40 @@ type committee struct {
 	addresses  []string
 }
 
-func decodeBigInt(data []byte, name string) (*big.Int, error) {
+// decodeBigInt returns the encoded number and the rest of data
+func decodeBigInt(data []byte, name string) (*big.Int, []byte, error) {
+	if len(data) < 2 {
+		return nil, nil, fmt.Errorf("wrong encoding, data is too short for the length of %s", name)
+	}
 	lenX := binary.LittleEndian.Uint16(data[:2])
 	if len(data) < 2+int(lenX) {
-		return nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data[2:]))
+		return nil, nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data[2:]))
+	}
+	x := new(big.Int).SetBytes(data[2 : 2+int(lenX)])
+	if x.Sign() == 0 {
+		return nil, nil, fmt.Errorf("wrong encoding, %s is missing", name)
 	}
-	return new(big.Int).SetBytes(data[2 : 2+lenX]), nil
+	return x, data[2+int(lenX):], nil
 }
 
 func decodePaillierPrivateKey(enc string) (*paillier.PrivateKey, error) {
 	data, err := base64.StdEncoding.DecodeString(enc)
+	if err != nil {
+		return nil, err
+	}
 
 	pk := &paillier.PrivateKey{}
-	pk.PublicKey.N, err = decodeBigInt(data, "N")
+	pk.PublicKey.N, data, err = decodeBigInt(data, "N")
 	if err != nil {
 		return nil, err
 	}
-	data = data[2+len(pk.PublicKey.N.Bytes()):]
 
-	pk.LambdaN, err = decodeBigInt(data, "LambdaN")
+	pk.LambdaN, data, err = decodeBigInt(data, "LambdaN")
 	if err != nil {
 		return nil, err
 	}
-	data = data[2+len(pk.LambdaN.Bytes()):]
 
-	pk.PhiN, err = decodeBigInt(data, "PhiN")
+	pk.PhiN, _, err = decodeBigInt(data, "PhiN")
 	if err != nil {
 		return nil, err
 	}
@@ -92,6 +102,9 @@ func parseCommitteeLine(line string) (*paillier.PublicKey, string, error) {
 		return nil, "", errors.New("malformed address")
 	}
 	pk.N = new(big.Int).SetBytes(pkBytes)
+	if pk.N.Sign() == 0 {
+		return nil, "", errors.New("empty paillier key")
+	}
 
 	return pk, addr, nil
 }
@@ -126,6 +139,9 @@ func getCommittee(filename string) (*committee, error) {
 	if len(c.publicKeys) < 2 {
 		return nil, errors.New("the protocol needs at least 2 parties")
 	}
+	if len(c.publicKeys) > math.MaxUint16 {
+		return nil, fmt.Errorf("the protocol allows at most %d parties", math.MaxUint16)
+	}
 
 	return c, nil
 }
@@ -234,7 +250,7 @@ func main() {
 		return
 	}
 
-	if member.pid >= len(committee.addresses) {
+	if member.pid < 0 || member.pid >= len(committee.addresses) {
 		fmt.Fprintf(logFile, "Wrong pid: %d.\n", member.pid)
 		return
 	}
-- 
2.43.0


From 4fb17bf20f7af868fcd24f8f1cbf1b9406404d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:17 +0000
Subject: [PATCH 25/28] fix: hold the same commitment to the own share as the
 other parties

---
 pkg/arith/reshare.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index b470a5c..a4fb61a 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -433,6 +433,9 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		return nil, err
 	}
 
+	// The other parties hold the refreshed commitment to our share, and so do we
+	shareComms[ads.pid] = shareCommRefresh
+
 	tds := &TDSecret{*ads, t}
 	tds.skShare = share
 	tds.r = shareRand.Add(shareRand, shareRandRefresh)
-- 
2.43.0


From 38058bb0eabe3699dee43d850d1679e57539b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 26/28] fix: a foreign connection must not crash the start

---
 pkg/sync/server.go | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index f7e4e28..525d605 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -28,6 +28,7 @@ type server struct {
 	roundID                 int64
 	net                     network.Server
 	inDataConn, outDataConn []network.Connection
+	inMx                    sync.Mutex
 	prevRoundEnd            time.Time
 	startWG                 sync.WaitGroup
 }
@@ -63,17 +64,11 @@ func (s *server) Start() {
 						continue
 					}
 
-					buf := make([]byte, 2)
-					_, err = io.ReadFull(conn, buf)
-					if err != nil {
-						panic(err.Error())
-					}
-
-					pid := binary.LittleEndian.Uint16(buf)
-					if s.inDataConn[pid] != nil {
-						panic(fmt.Sprintf("Connection with %d already established (my pid:%v)!", pid, s.pid))
+					// Anybody may connect, only the other parties are waited for
+					if err := s.accept(conn); err != nil {
+						conn.Close()
+						continue
 					}
-					s.inDataConn[pid] = conn
 					return
 				}
 			}()
@@ -95,10 +90,12 @@ func (s *server) Start() {
 					buf := make([]byte, 2)
 					binary.LittleEndian.PutUint16(buf, s.pid)
 					if _, err = conn.Write(buf); err != nil {
-						panic(fmt.Sprintf("succesfully dialed %v but then %v", pid, err))
+						conn.Close()
+						continue
 					}
 					if err = conn.Flush(); err != nil {
-						panic(fmt.Sprintf("succesfully written %v but then %v", pid, err))
+						conn.Close()
+						continue
 					}
 					s.outDataConn[pid] = conn
 					return
@@ -108,6 +105,26 @@ func (s *server) Start() {
 	}()
 }
 
+// accept stores a new incoming connection, if it is the first one of another party
+func (s *server) accept(conn network.Connection) error {
+	buf := make([]byte, 2)
+	if _, err := io.ReadFull(conn, buf); err != nil {
+		return err
+	}
+
+	pid := binary.LittleEndian.Uint16(buf)
+	if pid >= s.nProc || pid == s.pid {
+		return fmt.Errorf("connection of %d, which is no other party (my pid:%v)", pid, s.pid)
+	}
+	s.inMx.Lock()
+	defer s.inMx.Unlock()
+	if s.inDataConn[pid] != nil {
+		return fmt.Errorf("connection with %d already established (my pid:%v)", pid, s.pid)
+	}
+	s.inDataConn[pid] = conn
+	return nil
+}
+
 func (s *server) Stop() {
 	s.startWG.Wait()
 	for pid := uint16(0); pid < s.nProc; pid++ {
-- 
2.43.0


From e3cea460e40072bae4796938c20a48ec86669e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 27/28] fix: refuse impossible options instead of crashing or
 writing incomplete files

---
 cmd/gen_keys/main.go | 7 +++++++
 cmd/tecdsa/main.go   | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index 1bd5dd9..7be6f98 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -83,10 +83,17 @@ func main() {
 			addresses[pid] = scanner.Text()
 		}
 	}
+	for pid, address := range addresses {
+		if address == "" {
+			fmt.Fprintln(os.Stderr, "There is no address of process", pid)
+			return
+		}
+	}
 	processes := make([]*proc, nProc)
 	for i := 0; i < nProc; i++ {
 		processes[i], err = makeProcess(addresses[i])
 		if err != nil {
+			fmt.Fprintln(os.Stderr, err)
 			return
 		}
 	}
diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index de83b61..728c8f7 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -255,6 +255,15 @@ func main() {
 		return
 	}
 
+	if options.sigNumber < 1 {
+		fmt.Fprintf(logFile, "Wrong number of signatures: %d.\n", options.sigNumber)
+		return
+	}
+	if options.threshold < 1 || options.threshold > len(committee.addresses) {
+		fmt.Fprintf(logFile, "Wrong threshold for %d parties: %d.\n", len(committee.addresses), options.threshold)
+		return
+	}
+
 	net, err := tcp.NewServer(committee.addresses[member.pid], committee.addresses, zerolog.Nop())
 	if err != nil {
 		fmt.Fprintf(logFile, "Could not init tcp server due to %v.\n", err)
-- 
2.43.0


From 0118896865905991ff0093ebc1fcac11ef1ef157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:17 +0000
Subject: [PATCH 28/28] fix: a private key in place of the pid is not written
 to the log

---
 cmd/tecdsa/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 728c8f7..05ef577 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -174,7 +174,8 @@ func getMember(filename string) (*member, error) {
 	}
 	m.pid, err = strconv.Atoi(scanner.Text())
 	if err != nil {
-		return nil, err
+		// the error would show the text, which may be another private key
+		return nil, errors.New("malformed pid")
 	}
 	if err := scanner.Err(); err != nil {
 		return nil, err
-- 
2.43.0

