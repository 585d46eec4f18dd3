package protop

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/binance-chain/tss-lib/crypto/paillier"
	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"

	"verif.local/harness/internal/arun"
	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/det"
	"verif.local/harness/internal/eg"
	"verif.local/harness/internal/pbt"
)

type pkey struct {
	priv *paillier.PrivateKey
	pub  *paillier.PublicKey
}

var pkeys = map[string]pkey{}

// paillierKey is the key of a seed and size; every caller gets its own copy of the numbers.
func paillierKey(seed uint64, bits int) pkey {
	id := fmt.Sprint(seed, " ", bits)
	k, ok := pkeys[id]
	if !ok {
		priv, pub, err := paillier.GenerateKeyPairFrom(det.New(seed*31+uint64(bits), nil), bits)
		if err != nil {
			pbt.Abort("Paillier key: %v", err)
		}
		k = pkey{priv, pub}
		pkeys[id] = k
	}
	cp := func(x *big.Int) *big.Int { return new(big.Int).Set(x) }
	priv := &paillier.PrivateKey{PublicKey: paillier.PublicKey{N: cp(k.pub.N)}, LambdaN: cp(k.priv.LambdaN), PhiN: cp(k.priv.PhiN)}
	return pkey{priv, &paillier.PublicKey{N: cp(k.pub.N)}}
}

// keyCase says which Paillier keys the parties have.
type pkCase struct {
	Seeds []uint64
	Bits  []int
}

func genPk(rt *rapid.T, n int) pkCase {
	var c pkCase
	for i := 0; i < n; i++ {
		c.Seeds = append(c.Seeds, uint64(rapid.IntRange(0, 7).Draw(rt, "key"))+uint64(8*i))
		c.Bits = append(c.Bits, rapid.SampledFrom([]int{514, 516, 520, 560, 640}).Draw(rt, "bits"))
	}
	return c
}

func (c pkCase) key(i int) pkey { return paillierKey(c.Seeds[i], c.Bits[i]) }

func (c pkCase) keys() (ks []pkey, pubs func() []*paillier.PublicKey) {
	for i := range c.Seeds {
		ks = append(ks, paillierKey(c.Seeds[i], c.Bits[i]))
	}
	return ks, func() (r []*paillier.PublicKey) {
		for i := range c.Seeds {
			r = append(r, paillierKey(c.Seeds[i], c.Bits[i]).pub)
		}
		return
	}
}

// ---- C25

type privCase struct {
	arun.Base
	Pk   pkCase
	A, B []pbt.Int
	Ends []endDraw `json:",omitempty"`
}

// endDraw says that a draw of a party gives the least number, or about the largest that leaves room for a
// product of two scalars below the modulus of another party.
type endDraw struct {
	Who, Index int
	Top        bool
	Less       int
}

// ends makes the draws.
func (c privCase) ends() func(p *cluster.Party) {
	return func(p *cluster.Party) {
		p.Stream.Fill = func(n int, b []byte) {
			for _, d := range c.Ends {
				if d.Who != p.Pid || d.Index != n || len(b) < 33 {
					continue
				}
				x := new(big.Int)
				if d.Top {
					// masks for the others are drawn in their order
					to := (n - 1) / 2
					if to >= p.Pid {
						to++
					}
					k := c.Pk.key(to % c.N)
					x.Sub(k.pub.N, x.Mul(pbt.N, pbt.N))
					x.Sub(x, big.NewInt(int64(d.Less)))
				}
				if x.Sign() >= 0 && x.BitLen() <= 8*len(b) {
					x.FillBytes(b)
				}
			}
		}
	}
}

func runPriv(t *pbt.T, c privCase) {
	t.NonTrivial()
	t.Label("n=%d", c.N)
	ks, pubs := c.Pk.keys()
	shares := make([]*big.Int, c.N)
	again := make([]*big.Int, c.N)
	cfg := c.Config()
	if len(c.Ends) > 0 {
		t.Label("draws of least or largest numbers")
		cfg.Tune = c.ends()
	}
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) (err error) {
		k := ks[p.Pid]
		a, b := c.A[p.Pid].Copy(), c.B[p.Pid].Copy()
		all := pubs()
		if shares[p.Pid], err = arith.PrivMult(a, b, p.Pid, c.N, s, k.priv, k.pub, all); err != nil {
			return err
		}
		if a.Cmp(c.A[p.Pid].Int) != 0 || b.Cmp(c.B[p.Pid].Int) != 0 {
			t.Failf("multiplying overwrites its arguments")
		}
		for i, x := range all {
			if x.N.Cmp(ks[i].pub.N) != 0 {
				t.Failf("multiplying overwrites a public key")
			}
		}
		// the other way round
		again[p.Pid], err = arith.PrivMult(b, a, p.Pid, c.N, s, k.priv, k.pub, all)
		return err
	})
	ok(t, cl, hang)
	a, b, s, s2 := new(big.Int), new(big.Int), new(big.Int), new(big.Int)
	for i := range shares {
		a.Add(a, c.A[i].Int)
		b.Add(b, c.B[i].Int)
		for _, x := range []*big.Int{shares[i], again[i]} {
			t.Check(arun.Reduced(x), "the share %x of party %d is not reduced", x, i)
		}
		s.Add(s, shares[i])
		s2.Add(s2, again[i])
	}
	p := a.Mul(a, b)
	t.Check(s.Sub(s, p).Mod(s, pbt.N).Sign() == 0, "the shares do not sum to the product")
	t.Check(s2.Sub(s2, p).Mod(s2, pbt.N).Sign() == 0, "the shares do not sum to the product when the factors are exchanged")
}

type multCase struct {
	arun.Base
	Pk    pkCase
	T     int
	Exp   bool
	Twice bool // the product is multiplied again
	Same  bool // a secret by itself
}

// findPair looks for a commitment in a message.
func findPair(m []byte) (com *pairAt) {
	for i := range m {
		p, _, err := arun.ReadPair(m[i:])
		if err == nil {
			return &pairAt{i, p.A, p.B}
		}
	}
	return nil
}

type pairAt struct {
	at   int
	a, b curve.Point
}

func runMult(t *pbt.T, c multCase) {
	t.NonTrivial()
	t.Label("n=%d", c.N)
	ks, pubs := c.Pk.keys()
	type result struct{ a, b, c, d *big.Int }
	res := make([]result, c.N)
	points := make([]curve.Point, c.N)
	spans := make([][2]int, c.N)
	one := make([]int, c.N)
	cl, hang := cluster.Run(c.Config(), func(p *cluster.Party, s sync.Server) error {
		k := ks[p.Pid]
		gen := func(l string) (*arith.ADSecret, error) { return arith.Gen(l, s, c.Egf(), uint16(p.Pid), uint16(c.N)) }
		a, err := gen("a")
		if err != nil {
			return err
		}
		b := a
		if !c.Same {
			if b, err = gen("b"); err != nil {
				return err
			}
		}
		spans[p.Pid][0] = len(p.Rounds)
		m, err := arith.Mult(a, b, "product", k.priv, k.pub, pubs())
		if err != nil {
			return fmt.Errorf("multiplying: %v", err)
		}
		spans[p.Pid][1] = len(p.Rounds)
		if m.Label() != "product" || a.Label() != "a" {
			t.Failf("labels %q and %q instead of product and a", m.Label(), a.Label())
		}
		reveal := func(x *arith.ADSecret, th int) (*big.Int, error) {
			y, err := x.Reshare(uint16(th))
			if err != nil {
				return nil, fmt.Errorf("resharing %s: %v", x.Label(), err)
			}
			if c.Exp && x == m {
				k, err := y.Exp()
				if err != nil {
					return nil, err
				}
				points[p.Pid] = k.PublicKey()
			}
			return y.Reveal()
		}
		r := &res[p.Pid]
		one[p.Pid] = len(p.Rounds)
		if r.c, err = reveal(m, c.T); err != nil {
			return err
		}
		if r.a, err = reveal(a, 1); err != nil {
			return err
		}
		if r.b, err = reveal(b, 1); err != nil {
			return err
		}
		if c.Twice {
			m2, err := arith.Mult(m, b, "again", k.priv, k.pub, pubs())
			if err != nil {
				return fmt.Errorf("multiplying the product: %v", err)
			}
			if r.d, err = reveal(m2, c.T); err != nil {
				return err
			}
		}
		return nil
	})
	ok(t, cl, hang)
	for _, p := range cl.Parties {
		r := res[p.Pid]
		want := new(big.Int).Mul(r.a, r.b)
		want.Mod(want, pbt.N)
		t.Check(r.c.Cmp(want) == 0, "party %d: the product is revealed as %x instead of %x", p.Pid, r.c, want)
		if points[p.Pid] != nil {
			t.Check(arun.Eq(points[p.Pid], cv.Mul(want)), "party %d: the product raised is wrong", p.Pid)
		}
		if r.d != nil {
			want.Mul(want, r.b).Mod(want, pbt.N)
			t.Check(r.d.Cmp(want) == 0, "party %d: the product of a product is revealed as %x instead of %x", p.Pid, r.d, want)
		}
	}
	// the commitments published while multiplying: in one round they are to shares of the product
	want := cv.Mul(res[0].c)
	var all [][]curve.Point
	for k := spans[0][0]; k < spans[0][1]; k++ {
		var ps []curve.Point
		for _, p := range cl.Parties {
			if com := findPair(p.Rounds[k].To((p.Pid + 1) % c.N)); com != nil {
				same(t, p, k)
				ps = append(ps, c.Open(pairOf(com)))
			}
		}
		if len(ps) == c.N {
			all = append(all, ps)
		}
	}
	if len(all) == 0 {
		t.Label("commitments not found in the messages")
		return
	}
	t.Check(arun.Eq(arun.Sum(all[0]), want), "the published commitments are not to shares of the product")
}

// ---- faults while multiplying

type multMissing struct {
	arun.Base
	Pk    pkCase
	Who   int
	Round int
	Mode  int
	Raw   pbt.Bytes
}

func runMultMissing(t *pbt.T, c multMissing) {
	ks, pubs := c.Pk.keys()
	cfg := c.Config()
	start := make([]int, c.N)
	if c.Mode != 0 {
		cfg.OnRecv = func(me *cluster.Party, round, from int, data []byte) []byte {
			if start[me.Pid] > 0 && from == c.Who && round == start[me.Pid]+c.Round {
				if c.Mode == 1 {
					return []byte{}
				}
				return append([]byte{}, c.Raw...)
			}
			return nil
		}
	} else {
		cfg.CrashAt = map[int]int{c.Who: 2 + c.Round}
	}
	made := make([]bool, c.N)
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		k := ks[p.Pid]
		a, err := arith.Gen("a", s, c.Egf(), uint16(p.Pid), uint16(c.N))
		if err != nil {
			return err
		}
		b, err := arith.Gen("b", s, c.Egf(), uint16(p.Pid), uint16(c.N))
		if err != nil {
			return err
		}
		start[p.Pid] = len(p.Rounds)
		m, err := arith.Mult(a, b, "product", k.priv, k.pub, pubs())
		if err != nil && m != nil {
			t.Failf("a product and an error")
		}
		made[p.Pid] = m != nil
		return err
	})
	cl.Judge(t, hang)
	for _, p := range cl.Parties {
		t.Check(start[p.Pid] > 0, "party %d fails before any interference: %v", p.Pid, p.Err)
		if p.Pid != c.Who && c.Mode == 0 && len(p.Rounds)-start[p.Pid] >= 1 {
			t.NonTrivial()
			t.Check(!made[p.Pid], "party %d ends multiplying without an error although party %d is missing", p.Pid, c.Who)
		}
	}
}

// ---- C26

type dhCase struct {
	arun.Base
	A     []pbt.Int
	U     pbt.Int // logarithm of the first point
	Delta pbt.Int // the second point is off by this
	How   string
}

func (c dhCase) pair(sum *big.Int) (u, v curve.Point) {
	u = cv.Mul(c.U.Int)
	x := new(big.Int).Mul(sum, c.U.Int)
	switch c.How {
	case "off":
		x.Add(x, c.Delta.Int)
	case "scaled":
		x.Mul(x, c.Delta.Int)
	case "negated":
		x.Neg(x)
	case "neutral":
		x.SetInt64(0)
	case "first":
		x.Set(c.U.Int)
	case "key":
		x.Set(sum)
	case "less":
		// all shares but one
		x.Sub(x, new(big.Int).Mul(c.U.Int, c.A[0].Int))
	case "generator":
		x.SetInt64(1)
	}
	return u, cv.Mul(x)
}

func (c dhCase) key(p *cluster.Party, s sync.Server) *arith.DKey {
	var shares []curve.Point
	for _, a := range c.A {
		shares = append(shares, cv.Mul(a.Int))
	}
	return arith.NewDKey(arith.NewDSecret(uint16(p.Pid), "k", c.A[p.Pid].Copy(), s), shares, g)
}

func sum(l []pbt.Int) *big.Int {
	r := new(big.Int)
	for _, a := range l {
		r.Add(r, a.Int)
	}
	return r.Mod(r, pbt.N)
}

func runDH(t *pbt.T, c dhCase) {
	total := sum(c.A)
	u, v := c.pair(total)
	want := arun.Eq(v, arun.Mul(u, total))
	t.Label("%s: %v", c.How, want)
	errs := make([]error, c.N)
	again := make([]error, c.N)
	cl, hang := cluster.Run(c.Config(), func(p *cluster.Party, s sync.Server) error {
		k := c.key(p, s)
		if !arun.Eq(k.PublicKey(), cv.Mul(total)) {
			t.Failf("the public key is not the product of the shares")
		}
		errs[p.Pid] = arith.CheckDH(u, v, g, k)
		// and once more, with the right pair
		again[p.Pid] = arith.CheckDH(u, arun.Mul(u, total), g, k)
		return nil
	})
	cl.Judge(t, hang)
	if c.N > 1 {
		t.NonTrivial()
	}
	ux, vx := c.pair(total)
	t.Check(arun.Eq(u, ux) && arun.Eq(v, vx), "the check changes the points")
	for pid, err := range errs {
		if want {
			t.Check(err == nil, "party %d refuses a Diffie-Hellman pair: %v", pid, err)
		} else {
			t.Check(err != nil, "party %d accepts a pair of another form (%s)", pid, c.How)
		}
		t.Check(again[pid] == nil, "party %d refuses a Diffie-Hellman pair after another check: %v", pid, again[pid])
	}
}

type dhTamper struct {
	dhCase
	From    int
	Victims []bool
	Rounds  []int
	Alter   alter
	K       pbt.Int
}

func runDHTamper(t *pbt.T, c dhTamper) {
	total := sum(c.A)
	u, v := c.pair(total)
	cfg := c.Config()
	start := make([]int, c.N)
	real := make([]bool, c.N)
	cfg.OnRecv = func(me *cluster.Party, round, from int, data []byte) []byte {
		if start[me.Pid] == 0 || from != c.From || !isVictim(c.Victims, c.From, me.Pid) {
			return nil
		}
		k := round - start[me.Pid]
		if !has(c.Rounds, k) {
			return nil
		}
		cl := me.Cluster()
		var m []byte
		switch c.Alter.How {
		case "other":
			o := (c.From + 1) % c.N
			if o == me.Pid && c.N > 2 {
				o = (c.From + 2) % c.N
			}
			m = cl.SentOf(o, me.Pid, round)
		case "own":
			m = cl.SentOf(me.Pid, c.From, round)
		case "earlier":
			m = cl.SentOf(c.From, me.Pid, k)
		case "round":
			m = cl.SentOf(c.From, me.Pid, start[me.Pid]+c.Alter.Pos%(k+1))
		case "shift", "swap":
			// the points of the message, shifted or exchanged
			m = shiftPoints(data, c.K.Int, c.Alter.How == "swap", c.Alter.Pos)
		default:
			m = c.Alter.apply(data)
		}
		if m == nil || bytes.Equal(m, data) || trailing(data, m) {
			return m
		}
		real[me.Pid] = true
		return m
	}
	errs := make([]error, c.N)
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		k := c.key(p, s)
		if err := arith.CheckDH(u, v, g, k); err != nil {
			return err
		}
		start[p.Pid] = len(p.Rounds)
		errs[p.Pid] = arith.CheckDH(u, v, g, k)
		return errs[p.Pid]
	})
	cl.Judge(t, hang)
	t.Label("%s %v", c.Alter.How, c.Rounds)
	for _, p := range cl.Parties {
		t.Check(start[p.Pid] > 0, "party %d refuses a Diffie-Hellman pair: %v", p.Pid, p.Err)
		if !real[p.Pid] {
			continue
		}
		if len(c.Rounds) > 1 {
			// a consistent change cancels if (for the single receiver of the change) the shares of all others add up to zero
			rest := new(big.Int).Sub(total, c.A[p.Pid].Int)
			if rest.Mod(rest, pbt.N).Sign() == 0 {
				t.Label("degenerate shares: skipped")
				continue
			}
		}
		t.NonTrivial()
		t.Check(errs[p.Pid] != nil, "party %d accepts although its data of party %d was altered (%s in rounds %v)", p.Pid, c.From, c.Alter.How, c.Rounds)
	}
}

// shiftPoints multiplies or exchanges group elements in a message that consists of group elements and,
// before them, a header; nil if there are none.
func shiftPoints(m []byte, k *big.Int, swap bool, which int) []byte {
	head := -1
	var ps []curve.Point
	for h := 0; h < len(m) && h <= 16; h += 8 {
		ps = nil
		rest := m[h:]
		for len(rest) > 0 {
			p, r, err := arun.ReadPoint(rest)
			if err != nil {
				ps = nil
				break
			}
			ps, rest = append(ps, p), r
		}
		if ps != nil {
			head = h
			break
		}
	}
	if head < 0 || (swap && len(ps) < 2) {
		return nil
	}
	if swap {
		ps[0], ps[1] = ps[1], ps[0]
	} else {
		ps[which%len(ps)] = g.Add(ps[which%len(ps)], cv.Mul(k))
	}
	b := bytes.NewBuffer(append([]byte{}, m[:head]...))
	for _, p := range ps {
		if g.Encode(p, b) != nil {
			return nil
		}
	}
	return b.Bytes()
}

type dhMissing struct {
	dhCase
	Who   int
	Round int
	Empty bool
}

func runDHMissing(t *pbt.T, c dhMissing) {
	total := sum(c.A)
	u, v := c.pair(total)
	cfg := c.Config()
	if c.Empty {
		cfg.OnRecv = func(me *cluster.Party, round, from int, data []byte) []byte {
			if from == c.Who && round == c.Round {
				return []byte{}
			}
			return nil
		}
	} else {
		cfg.CrashAt = map[int]int{c.Who: c.Round}
	}
	errs := make([]error, c.N)
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		errs[p.Pid] = arith.CheckDH(u, v, g, c.key(p, s))
		return errs[p.Pid]
	})
	cl.Judge(t, hang)
	t.NonTrivial()
	for pid, err := range errs {
		t.Check(pid == c.Who || err != nil, "party %d accepts although party %d takes no part in round %d", pid, c.Who, c.Round)
	}
}

func init() {
	pbt.Facet("C25", "shares", "1 to 6 parties with any factors and Paillier keys of 514 to 640 bits: the shares sum to the product, also with the factors exchanged, and arguments stay; non-trivial: always",
		1200, 60000,
		func(rt *rapid.T) privCase {
			c := privCase{Base: arun.GenBase(rt, 1, 6, 0)}
			c.Pk = genPk(rt, c.N)
			for i := 0; i < c.N; i++ {
				c.A = append(c.A, pbt.Scalar(rt, "a"))
				c.B = append(c.B, pbt.Scalar(rt, "b"))
			}
			if rapid.Bool().Draw(rt, "ends") {
				top := pbt.Int{Int: new(big.Int).Sub(pbt.N, big.NewInt(1))}
				for i := rapid.IntRange(1, 2*c.N).Draw(rt, "draws"); i > 0; i-- {
					d := endDraw{Who: rapid.IntRange(0, c.N-1).Draw(rt, "who"), Index: rapid.IntRange(0, 2*c.N).Draw(rt, "index"), Top: rapid.Bool().Draw(rt, "top"), Less: rapid.IntRange(1, 2).Draw(rt, "less")}
					c.Ends = append(c.Ends, d)
					if rapid.Bool().Draw(rt, "extreme factors") {
						c.A[d.Who], c.B[d.Who] = top, top
						if d.Index > 0 && c.N > 1 {
							to := (d.Index - 1) / 2
							if to >= d.Who {
								to++
							}
							c.A[to%c.N] = top
						}
						if !d.Top {
							zero := pbt.Int{Int: new(big.Int)}
							c.A[d.Who], c.B[d.Who] = zero, zero
						}
					}
				}
			}
			return c
		}, runPriv)
	pbt.Facet("C25", "secrets", "generated secrets of 2 to 5 parties are multiplied, also with themselves and once more; the product is reshared, raised and revealed, as are the factors; non-trivial: always",
		500, 20000,
		func(rt *rapid.T) multCase {
			c := multCase{Base: arun.GenBase(rt, 2, 5, 4)}
			c.Pk = genPk(rt, c.N)
			c.T = rapid.IntRange(1, c.N).Draw(rt, "t")
			c.Exp = rapid.Bool().Draw(rt, "exp")
			c.Twice = rapid.IntRange(0, 2).Draw(rt, "twice") == 0
			c.Same = rapid.IntRange(0, 3).Draw(rt, "same") == 0
			return c
		}, runMult,
		multCase{Base: arun.Base{N: 9, D: pbt.Int{Int: big.NewInt(3)}}, T: 5,
			Pk: pkCase{Seeds: []uint64{1, 2, 3, 4, 5, 6, 7, 8, 9}, Bits: []int{514, 514, 520, 640, 514, 516, 514, 516, 560}}})
	pbt.Facet("C25", "missing", "a party crashes while multiplying, or a message of it is empty or arbitrary: nobody crashes, and after a crash nobody ends with a product; non-trivial: a party crashes",
		600, 20000,
		func(rt *rapid.T) multMissing {
			c := multMissing{Base: arun.GenBase(rt, 2, 4, 0), Round: rapid.IntRange(0, 3).Draw(rt, "round"), Mode: rapid.IntRange(0, 2).Draw(rt, "mode")}
			c.Pk = genPk(rt, c.N)
			c.Who = rapid.IntRange(0, c.N-1).Draw(rt, "who")
			c.Raw = pbt.BytesUpTo(rt, 180, "raw")
			return c
		}, runMultMissing)
	dh := func(rt *rapid.T, lo, hi int) dhCase {
		c := dhCase{Base: arun.GenBase(rt, lo, hi, 0), U: pbt.Scalar(rt, "u"), Delta: pbt.NonZero(rt, "delta"), How: "right"}
		for i := 0; i < c.N; i++ {
			c.A = append(c.A, pbt.Scalar(rt, "a"))
		}
		return c
	}
	pbt.Facet("C26", "pairs", "1 to 7 parties with chosen shares, among them zero and cancelling ones, and right and wrong pairs: accepted by everybody exactly if right; non-trivial: at least two parties",
		2500, 100000,
		func(rt *rapid.T) dhCase {
			c := dh(rt, 1, 7)
			c.How = rapid.SampledFrom([]string{"right", "right", "right", "off", "off", "scaled", "negated", "neutral", "first", "key", "less", "generator"}).Draw(rt, "how")
			return c
		}, runDH)
	pbt.Facet("C26", "altered", "messages of one party, of one round or several, reach some parties altered or replaced: these do not accept the right pair; non-trivial: the message really changed and the shares of the others do not add up to zero",
		2500, 100000,
		func(rt *rapid.T) dhTamper {
			c := dhTamper{dhCase: dh(rt, 2, 5), K: pbt.NonZero(rt, "k")}
			if c.U.Sign() == 0 {
				c.U.SetInt64(5)
			}
			c.From = rapid.IntRange(0, c.N-1).Draw(rt, "from")
			c.Victims = victims(rt, c.N)
			c.Rounds = []int{rapid.IntRange(0, 2).Draw(rt, "round")}
			if rapid.IntRange(0, 2).Draw(rt, "many") == 0 {
				// altered for several parties in the same way it would be another choice of the sender
				c.Rounds, c.Victims = []int{0, 1}, make([]bool, c.N)
				c.Alter = genAlter(rt, "other", "own", "earlier")
			} else {
				c.Alter = genAlter(rt, append([]string{"other", "own", "earlier", "round", "shift", "shift", "swap"}, bytewise...)...)
			}
			return c
		}, runDHTamper)
	pbt.Facet("C26", "missing", "a party crashes during the check, or a message of it arrives empty: nobody else accepts; non-trivial: always",
		600, 20000,
		func(rt *rapid.T) dhMissing {
			c := dhMissing{dhCase: dh(rt, 2, 6), Round: rapid.IntRange(0, 2).Draw(rt, "round"), Empty: rapid.Bool().Draw(rt, "empty")}
			c.Who = rapid.IntRange(0, c.N-1).Draw(rt, "who")
			return c
		}, runDHMissing)
}

func pairOf(p *pairAt) eg.Pair { return eg.Pair{A: p.a, B: p.b} }
