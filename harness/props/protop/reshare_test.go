package protop

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"strings"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"

	"verif.local/harness/internal/arun"
	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/eg"
	"verif.local/harness/internal/pbt"
)

// reshareRounds is the number of rounds of a resharing, in the order of steps 1, 4, 5, 7, 8, 10.
const reshareRounds = 6

const (
	stKnow = iota
	stCommit
	stReveal
	stEval
	stSend
	stFinal
)

// sharePoints reads the commitments of the last step of a resharing, which started at round start of
// every party, and opens them: the generator raised to every party's new share. nil if the messages are
// not of the known form.
func sharePoints(t *pbt.T, c arun.Base, cl *cluster.Cluster, start []int) []curve.Point {
	var r []curve.Point
	for _, p := range cl.Parties {
		k := start[p.Pid] + stFinal
		if k >= len(p.Rounds) {
			return nil
		}
		_, rest, err := arun.ReadProof(same(t, p, k))
		if err != nil {
			return nil
		}
		com, _, err := arun.ReadPair(rest)
		if err != nil {
			return nil
		}
		r = append(r, c.Open(com))
	}
	return r
}

// coefPoints opens the commitments to the coefficients of a party's polynomial.
func coefPoints(t *pbt.T, c arun.Base, p *cluster.Party, start, th int) []curve.Point {
	if start+stReveal >= len(p.Rounds) {
		return nil
	}
	m := same(t, p, start+stReveal)
	var r []curve.Point
	for i := 0; i < th; i++ {
		com, rest, err := arun.ReadPair(m)
		if err != nil {
			return nil
		}
		r, m = append(r, c.Open(com)), rest
	}
	return r
}

func xs(from, n int) []int {
	var r []int
	for i := 0; i < n; i++ {
		r = append(r, from+i)
	}
	return r
}

// onPolynomial checks that the points at 1, 2, ... are those of a polynomial of degree exactly th-1 with
// the value s at 0.
func onPolynomial(t *pbt.T, what string, ps []curve.Point, th int, s curve.Point, exact bool) {
	if th > len(ps) {
		return
	}
	t.Check(arun.Eq(arun.At(xs(1, th), ps[:th], 0), s), "%s: the shares of parties 0 to %d do not give the secret", what, th-1)
	for i := th; i < len(ps); i++ {
		t.Check(arun.Eq(arun.At(xs(1, th), ps[:th], i+1), ps[i]), "%s: the share of party %d is not on the polynomial of degree %d through the others", what, i, th-1)
	}
	if th > 1 && exact {
		t.Check(!arun.Eq(arun.At(xs(1, th-1), ps[:th-1], 0), s), "%s: %d shares already give the secret", what, th-1)
		t.Check(!arun.Eq(arun.At(xs(2, th-1), ps[1:th], 0), s), "%s: %d shares already give the secret", what, th-1)
	}
}

type reshareCase struct {
	arun.Base
	T, T2, T3 int
	Zero      bool // a threshold of 0 is tried first
	Over      bool // the second threshold is beyond the number of parties
}

func runReshare(t *pbt.T, c reshareCase) {
	t.NonTrivial()
	t.Label("n=%d", c.N)
	t.Label("t=%d", c.T)
	var start [3][]int
	for i := range start {
		start[i] = make([]int, c.N)
	}
	values := make([][3]*big.Int, c.N)
	reveals := make([][3]int, c.N)
	t2 := c.T2
	if c.Over {
		t2 = c.N + 1
		t.Label("threshold beyond the number of parties")
	}
	cl, hang := cluster.Run(c.Config(), func(p *cluster.Party, s sync.Server) error {
		a, err := arith.Gen("name", s, c.Egf(), uint16(p.Pid), uint16(c.N))
		if err != nil {
			return err
		}
		if c.Zero {
			n := len(p.Rounds)
			ts, err := a.Reshare(0)
			if ts != nil || err == nil {
				t.Failf("a threshold of 0 is not refused")
			}
			if len(p.Rounds) != n {
				t.Failf("resharing with threshold 0 sends messages")
			}
		}
		reveal := func(i int, ts *arith.TDSecret, th int) error {
			if int(ts.Threshold()) != th {
				t.Failf("threshold %d is reported as %d", th, ts.Threshold())
			}
			if ts.Label() != "name" {
				t.Failf("label %q instead of name", ts.Label())
			}
			reveals[p.Pid][i] = len(p.Rounds)
			v, err := ts.Reveal()
			if th > c.N {
				if err == nil {
					t.Failf("%d parties reveal a secret of threshold %d", c.N, th)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("revealing: %v", err)
			}
			values[p.Pid][i] = v
			return nil
		}
		start[0][p.Pid] = len(p.Rounds)
		first, err := a.Reshare(uint16(c.T))
		if err != nil {
			return fmt.Errorf("resharing: %v", err)
		}
		start[1][p.Pid] = len(p.Rounds)
		second, err := a.Reshare(uint16(t2))
		if err != nil {
			return fmt.Errorf("resharing again: %v", err)
		}
		start[2][p.Pid] = len(p.Rounds)
		// the new shares as additive ones
		third, err := first.Reshare(uint16(c.T3))
		if err != nil {
			return fmt.Errorf("resharing the result: %v", err)
		}
		for i, x := range []struct {
			s *arith.TDSecret
			t int
		}{{first, c.T}, {second, t2}, {third, c.T3}} {
			if err := reveal(i, x.s, x.t); err != nil {
				return err
			}
		}
		return nil
	})
	ok(t, cl, hang)
	var shares []curve.Point
	for _, p := range cl.Parties {
		shares = append(shares, c.Open(published(t, p, 0)))
	}
	secret := arun.Sum(shares)
	exact := len(c.Special) == 0
	var points [3][]curve.Point
	for i := range points {
		points[i] = sharePoints(t, c.Base, cl, start[i])
		if points[i] == nil {
			t.Label("form of the messages not known")
		}
	}
	if points[0] != nil {
		onPolynomial(t, "resharing", points[0], c.T, secret, exact)
	}
	if points[1] != nil {
		onPolynomial(t, "resharing again", points[1], t2, secret, exact)
	}
	if points[0] != nil && points[2] != nil {
		onPolynomial(t, "resharing the result", points[2], c.T3, arun.Sum(points[0]), exact)
	}
	for _, p := range cl.Parties {
		v := values[p.Pid]
		for i, want := range []curve.Point{secret, secret, nil} {
			if i == 2 && points[0] != nil {
				want = arun.Sum(points[0])
			}
			if v[i] == nil || want == nil {
				continue
			}
			t.Check(arun.Reduced(v[i]), "party %d reveals %x, which is not reduced", p.Pid, v[i])
			t.Check(arun.Eq(cv.Mul(v[i]), want), "party %d: resharing %d changed the secret", p.Pid, i)
		}
		t.Check(v[2].Cmp(values[0][2]) == 0, "parties 0 and %d reveal different values", p.Pid)
		// what a party reveals is what the others hold a commitment to
		for i := range points {
			if points[i] == nil || c.N == 1 {
				continue
			}
			m := same(t, p, reveals[p.Pid][i])
			t.Check(arun.Eq(cv.Mul(new(big.Int).SetBytes(m)), points[i][p.Pid]), "resharing %d: the share of party %d is not the one that the others hold a commitment to", i, p.Pid)
		}
	}
	// random coefficients
	seen := map[string]string{}
	for i, th := range []int{c.T, t2, c.T3} {
		for _, p := range cl.Parties {
			cs := coefPoints(t, c.Base, p, start[i][p.Pid], th)
			for k, q := range cs {
				if k == 0 || !exact {
					continue
				}
				what := fmt.Sprintf("coefficient %d of party %d in resharing %d", k, p.Pid, i)
				t.Check(!arun.IsNeutral(q), "%s is zero", what)
				e := string(cv.Enc(t, q))
				t.Check(seen[e] == "", "%s is the same as %s", what, seen[e])
				seen[e] = what
			}
			if cs != nil && i < 2 {
				t.Check(arun.Eq(cs[0], shares[p.Pid]), "the constant coefficient of party %d in resharing %d is not its share", p.Pid, i)
			}
		}
	}
}

// ---- the leading coefficient

type leadCase struct {
	arun.Base
	T     int
	Who   int
	First int // the draws from this one on give Value
	Count int
	Value pbt.Int
}

func runLead(t *pbt.T, c leadCase) {
	start := make([]int, c.N)
	cfg := c.Config()
	cfg.Tune = func(p *cluster.Party) {
		if p.Pid == c.Who {
			p.Stream.Nth = map[int][]byte{}
			for i := c.First; i < c.First+c.Count; i++ {
				p.Stream.Nth[i] = c.Value.FillBytes(make([]byte, 32))
			}
		}
	}
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		a, err := arith.Gen("x", s, c.Egf(), uint16(p.Pid), uint16(c.N))
		if err != nil {
			return err
		}
		start[p.Pid] = len(p.Rounds)
		_, err = a.Reshare(uint16(c.T))
		return err
	})
	ok(t, cl, hang)
	for _, p := range cl.Parties {
		cs := coefPoints(t, c.Base, p, start[p.Pid], c.T)
		if cs == nil {
			t.Label("form of the messages not known")
			return
		}
		if c.T > 1 {
			t.NonTrivial()
			t.Check(!arun.IsNeutral(cs[c.T-1]), "the polynomial of party %d has a degree below %d", p.Pid, c.T-1)
		}
	}
}

// ---- every byte of randomness matters

type coefBytes struct {
	arun.Base
	T   int
	Who int
	Bit int
}

func runCoefBytes(t *pbt.T, c coefBytes) {
	var drawn []byte
	from := 0
	once := func(prefix []byte) []string {
		cfg := c.Config()
		if prefix != nil {
			cfg.Prefix[c.Who] = prefix
		}
		start := 0
		cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
			a, err := arith.Gen("x", s, c.Egf(), uint16(p.Pid), uint16(c.N))
			if err != nil {
				return err
			}
			if p.Pid == c.Who {
				start = len(p.Rounds)
				if prefix == nil {
					from = p.Stream.Count
				}
			}
			_, err = a.Reshare(uint16(c.T))
			return err
		})
		ok(t, cl, hang)
		p := cl.Parties[c.Who]
		if prefix == nil {
			for _, b := range p.Stream.Reads {
				drawn = append(drawn, b...)
			}
		}
		var r []string
		for _, q := range coefPoints(t, c.Base, p, start, c.T) {
			r = append(r, string(cv.Enc(t, q)))
		}
		return r
	}
	base := once(nil)
	if len(base) != c.T || len(drawn)-from > 2000 {
		t.Label("form of the messages not known, or too much randomness: skipped")
		return
	}
	t.NonTrivial()
	count := make([]int, len(base))
	for i := from; i < len(drawn); i++ {
		b := append([]byte{}, drawn...)
		b[i] ^= 1 << (c.Bit % 8)
		for j, x := range once(b) {
			if x != base[j] {
				count[j]++
			}
		}
	}
	for j := 1; j < c.T; j++ {
		t.Check(count[j] >= 31, "coefficient %d depends on only %d bytes of the randomness drawn", j, count[j])
	}
}

// ---- C21

type resTamper struct {
	arun.Base
	T       int
	From    int
	Victims []bool
	Steps   []int // which messages are altered, by their order in a resharing
	Alter   alter
	V, R    pbt.Int
	K       int
}

// split takes the known parts off a message: points, proofs and trailing bytes, as text; with values
// modulo the order. It fails for messages that are not of the known form.
func canon(step, n, th int, m []byte) (string, bool) {
	b := &strings.Builder{}
	var err error
	pairs := func(k int) {
		for i := 0; i < k && err == nil; i++ {
			var p eg.Pair
			if p, m, err = arun.ReadPair(m); err == nil {
				fmt.Fprintf(b, "%x ", p.Enc())
			}
		}
	}
	proofs := func(k int) {
		for i := 0; i < k && err == nil; i++ {
			var p eg.Proof
			if p, m, err = arun.ReadProof(m); err == nil {
				fmt.Fprintf(b, "%x %x %x ", new(big.Int).Mod(p.Z1, pbt.N), new(big.Int).Mod(p.Z2, pbt.N), p.XY.Enc())
			}
		}
	}
	switch step {
	case stKnow:
		proofs(1)
	case stCommit:
		if len(m) < 8 {
			return "", false
		}
		l := uint64(binary.LittleEndian.Uint32(m)) + uint64(binary.LittleEndian.Uint32(m[4:])) + 8
		if uint64(len(m)) < l {
			return "", false
		}
		fmt.Fprintf(b, "%x", m[:l])
	case stReveal:
		pairs(th)
		proofs(th + 1)
	case stEval:
		pairs(n)
		proofs(n)
	case stSend:
		v, r, e := step8(m)
		if e != nil {
			return "", false
		}
		fmt.Fprintf(b, "%x %x", v.Mod(v, pbt.N), r.Mod(r, pbt.N))
	case stFinal:
		proofs(1)
		pairs(1)
	}
	return b.String(), err == nil
}

// harmless tells whether an altered message says the same as the original.
func harmless(step, n, th int, data, m []byte) bool {
	if trailing(data, m) && step != stSend {
		return true
	}
	x, okx := canon(step, n, th, data)
	y, oky := canon(step, n, th, m)
	return okx && oky && x == y
}

// structured alters components of a message; nil if it does not apply.
func (c resTamper) structured(step int, data []byte) []byte {
	h := cv.Mul(c.D.Int)
	k := c.K
	switch step {
	case stKnow, stFinal:
		pr, rest, err := arun.ReadProof(data)
		if err != nil {
			return nil
		}
		switch k % 5 {
		case 0:
			pr.Z1.Add(pr.Z1, c.V.Int).Mod(pr.Z1, pbt.N)
		case 1:
			pr.Z2.Add(pr.Z2, c.V.Int).Mod(pr.Z2, pbt.N)
		case 2:
			pr.XY = pr.XY.Mul(eg.Create(h, c.V.Int, c.R.Int))
		case 3:
			pr.Z1, pr.Z2 = pr.Z2, pr.Z1
		case 4:
			if step == stFinal {
				com, tail, err := arun.ReadPair(rest)
				if err != nil {
					return nil
				}
				// a commitment to the same value, to another one
				com = com.Mul(eg.Create(h, new(big.Int).Mul(c.V.Int, big.NewInt(int64(k/5%2))), c.R.Int))
				rest = append(com.Enc(), tail...)
			} else {
				pr.XY = eg.Pair{A: pr.XY.B, B: pr.XY.A}
			}
		}
		return append(pr.Enc(), rest...)
	case stReveal, stEval:
		n := c.T
		if step == stEval {
			n = c.N
		}
		var ps []eg.Pair
		m := data
		for i := 0; i < n; i++ {
			p, rest, err := arun.ReadPair(m)
			if err != nil {
				return nil
			}
			ps, m = append(ps, p), rest
		}
		var prs []eg.Proof
		for len(m) > 0 {
			p, rest, err := arun.ReadProof(m)
			if err != nil {
				return nil
			}
			prs, m = append(prs, p), rest
		}
		if len(prs) == 0 {
			return nil
		}
		i, j := k/8%n, (k/8+1)%n
		switch k % 8 {
		case 0:
			ps[i] = ps[i].Mul(eg.Create(h, c.V.Int, c.R.Int))
		case 1:
			ps[i] = ps[i].Mul(eg.Create(h, big.NewInt(0), c.R.Int))
		case 2:
			ps[i], ps[j] = ps[j], ps[i]
		case 3:
			ps[i], ps[j] = ps[j], ps[i]
			prs[i], prs[j] = prs[j], prs[i]
		case 4:
			i = k / 8 % len(prs)
			prs[i].Z1.Add(prs[i].Z1, c.V.Int).Mod(prs[i].Z1, pbt.N)
		case 5:
			i = k / 8 % len(prs)
			prs[i].XY = prs[i].XY.Mul(eg.Create(h, c.V.Int, c.R.Int))
		case 6:
			i, j = k/8%len(prs), (k/8+1)%len(prs)
			prs[i], prs[j] = prs[j], prs[i]
		case 7:
			i = k / 8 % len(prs)
			prs[i].Z2.Add(prs[i].Z2, c.V.Int).Mod(prs[i].Z2, pbt.N)
		}
		var r []byte
		for _, p := range ps {
			r = append(r, p.Enc()...)
		}
		for _, p := range prs {
			r = append(r, p.Enc()...)
		}
		return r
	case stSend:
		v, r, err := step8(data)
		if err != nil {
			return nil
		}
		switch k % 7 {
		case 4:
			v, r = c.V.Copy(), new(big.Int)
		case 5:
			v = new(big.Int)
		case 6:
			v, r = new(big.Int), new(big.Int)
		case 0:
			v.Add(v, c.V.Int).Mod(v, pbt.N)
		case 1:
			r.Add(r, c.R.Int).Mod(r, pbt.N)
		case 2:
			v, r = r, v
		case 3:
			v.Add(v, c.V.Int).Mod(v, pbt.N)
			r.Sub(r, c.V.Int).Mod(r, pbt.N)
		}
		return send8(v, r)
	}
	return nil
}

func send8(v, r *big.Int) []byte {
	b := binary.LittleEndian.AppendUint32(nil, uint32(len(v.Bytes())))
	return append(append(b, v.Bytes()...), r.Bytes()...)
}

// commitTo is the commitment message to a decommitment.
func commitTo(reveal []byte, th int) []byte {
	rest := reveal
	for i := 0; i < th; i++ {
		var err error
		if _, rest, err = arun.ReadPair(rest); err != nil {
			return nil
		}
	}
	l := binary.LittleEndian.AppendUint32(nil, uint32(len(reveal)-len(rest)))
	l = binary.LittleEndian.AppendUint32(l, uint32(len(rest)))
	return append(l, reveal...)
}

// forged is a decommitment of another polynomial, with as many valid proofs as can be made without
// knowing the party's share; own is the party's own decommitment.
func (c resTamper) forged(own []byte) (commit, reveal []byte) {
	egf := c.Egf()
	var ps []eg.Pair
	m := own
	for i := 0; i < c.T; i++ {
		p, rest, err := arun.ReadPair(m)
		if err != nil {
			return nil, nil
		}
		ps, m = append(ps, p), rest
	}
	var prs []eg.Proof
	for i := 0; i <= c.T; i++ {
		p, rest, err := arun.ReadProof(m)
		if err != nil {
			return nil, nil
		}
		prs, m = append(prs, p), rest
	}
	all := c.K%4 == 3
	for i := range ps {
		if i != c.K/4%c.T && !all {
			continue
		}
		v, r := new(big.Int).Add(c.V.Int, big.NewInt(int64(i))), new(big.Int).Add(c.R.Int, big.NewInt(int64(7*i)))
		v.Mod(v, pbt.N)
		r.Mod(r, pbt.N)
		com := egf.Create(v, r)
		z, err := zkpok.NewZKEGKnow(egf, com, v, r)
		if err != nil {
			return nil, nil
		}
		b := &bytes.Buffer{}
		if com.Encode(b) != nil || z.Encode(b) != nil {
			return nil, nil
		}
		var rest []byte
		if ps[i], rest, err = arun.ReadPair(b.Bytes()); err != nil {
			return nil, nil
		}
		if prs[i], _, err = arun.ReadProof(rest); err != nil {
			return nil, nil
		}
		if i == 0 && c.K%4 == 1 {
			// a refresh proof for other commitments
			base := egf.Neutral()
			base.Compose(base, com)
			z, err := zkpok.NewZKEGRefresh(egf, base, com, big.NewInt(0))
			if err != nil {
				return nil, nil
			}
			b.Reset()
			if z.Encode(b) != nil {
				return nil, nil
			}
			if prs[c.T], _, err = arun.ReadProof(b.Bytes()); err != nil {
				return nil, nil
			}
		}
	}
	var data, zk []byte
	for _, p := range ps {
		data = append(data, p.Enc()...)
	}
	for _, p := range prs {
		zk = append(zk, p.Enc()...)
	}
	l := binary.LittleEndian.AppendUint32(nil, uint32(len(data)))
	l = binary.LittleEndian.AppendUint32(l, uint32(len(zk)))
	return append(append(l, data...), zk...), append(append([]byte{}, data...), zk...)
}

func has(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func runResTamper(t *pbt.T, c resTamper) {
	cfg := c.Config()
	start := make([]int, c.N)
	real := make([]bool, c.N)
	th := c.T
	// what the sender will reveal is known before it sends: the forged commitment needs it
	type pair struct{ commit, reveal []byte }
	fake := make([]*pair, c.N)
	cfg.OnRecv = func(me *cluster.Party, round, from int, data []byte) []byte {
		if start[me.Pid] == 0 || from != c.From || !isVictim(c.Victims, c.From, me.Pid) {
			return nil
		}
		st := round - start[me.Pid]
		if !has(c.Steps, st) {
			return nil
		}
		cl := me.Cluster()
		var m []byte
		switch c.Alter.How {
		case "other":
			o := (c.From + 1) % c.N
			if o == me.Pid && c.N > 2 {
				o = (c.From + 2) % c.N
			}
			m = cl.SentOf(o, me.Pid, round)
		case "own":
			m = cl.SentOf(me.Pid, c.From, round)
		case "tothers":
			// what was meant for somebody else
			m = cl.SentOf(c.From, (me.Pid+1)%c.N, round)
		case "earlier":
			m = cl.SentOf(c.From, me.Pid, round-reshareRounds)
		case "step":
			m = cl.SentOf(c.From, me.Pid, start[me.Pid]+c.Alter.Pos%(st+1))
		case "structured":
			m = c.structured(st, data)
		case "forged", "consistent":
			// steps 4 and 5, consistently: the commitment of step 4 holds what step 5 reveals
			if st == stCommit {
				l := 8
				if len(data) < l {
					return nil
				}
				var co, re []byte
				if c.Alter.How == "consistent" {
					// components of the decommitment, altered in the commitment as well
					if re = c.structured(stReveal, data[l:]); re != nil {
						co = commitTo(re, c.T)
					}
				} else {
					co, re = c.forged(data[l:])
				}
				if co == nil {
					return nil
				}
				fake[me.Pid] = &pair{co, re}
				m = co
			} else if fake[me.Pid] != nil {
				m = fake[me.Pid].reveal
			}
		case "evaluation":
			// steps 7 and 8, consistently: another evaluation under its commitment
			if st == stEval {
				ps, rest := []eg.Pair{}, data
				for i := 0; i < c.N; i++ {
					var p eg.Pair
					var err error
					if p, rest, err = arun.ReadPair(rest); err != nil {
						return nil
					}
					ps = append(ps, p)
				}
				ps[me.Pid] = eg.Create(cv.Mul(c.D.Int), c.V.Int, c.R.Int)
				for _, p := range ps {
					m = append(m, p.Enc()...)
				}
				m = append(m, rest...)
			} else {
				m = send8(c.V.Int, c.R.Int)
			}
		default:
			m = c.Alter.apply(data)
		}
		if m == nil || bytes.Equal(m, data) || harmless(st, c.N, th, data, m) {
			return m
		}
		if st == stKnow && c.Alter.How == "earlier" {
			// another valid proof of the same statement
			return m
		}
		real[me.Pid] = true
		return m
	}
	res := make([]*arith.TDSecret, c.N)
	errs := make([]error, c.N)
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		a, err := arith.Gen("x", s, c.Egf(), uint16(p.Pid), uint16(c.N))
		if err != nil {
			return err
		}
		// the first one is not interfered with
		if _, err := a.Reshare(uint16(c.T)); err != nil {
			return err
		}
		start[p.Pid] = len(p.Rounds)
		res[p.Pid], errs[p.Pid] = a.Reshare(uint16(c.T))
		return errs[p.Pid]
	})
	cl.Judge(t, hang)
	if len(c.Steps) == 1 {
		t.Label("%s in round %d", c.Alter.How, c.Steps[0])
	} else {
		t.Label("%s in %d rounds", c.Alter.How, len(c.Steps))
	}
	any := false
	for _, p := range cl.Parties {
		t.Check(start[p.Pid] > 0, "party %d fails before any interference: %v", p.Pid, p.Err)
		if !real[p.Pid] {
			continue
		}
		any = true
		t.NonTrivial()
		t.Check(errs[p.Pid] != nil, "party %d ends resharing without an error although messages %v of party %d were altered (%s)", p.Pid, c.Steps, c.From, c.Alter.How)
		t.Check(res[p.Pid] == nil, "party %d returns an error and a secret", p.Pid)
	}
	if !any {
		t.Label("nothing altered")
	}
}

// ---- a party that reshares another number than the one it has committed to

type resPuppet struct {
	arun.Base
	T      int
	From   int
	Off, R pbt.Int // what is added to the share and to the randomness in the commitment that the others get
}

func runPuppet(t *pbt.T, c resPuppet) {
	cfg := c.Config()
	shift := eg.Create(cv.Mul(c.D.Int), c.Off.Int, c.R.Int)
	egf := c.Egf()
	cfg.OnRecv = func(me *cluster.Party, round, from int, data []byte) []byte {
		if from != c.From {
			return nil
		}
		com, rest, err := arun.ReadPair(me.Cluster().SentOf(c.From, me.Pid, 0))
		if err != nil {
			return nil
		}
		com = com.Mul(shift)
		if round == 0 {
			return append(com.Enc(), rest...)
		}
		if round != 1+stKnow {
			return nil
		}
		// a valid proof of knowledge of what is in the commitment that was shown
		cm := com.Comm(t)
		log := c.share(me.Cluster(), c.From)
		if log == nil {
			return nil
		}
		v, r := new(big.Int).Add(log[0], c.Off.Int), new(big.Int).Add(log[1], c.R.Int)
		z, err := zkpok.NewZKEGKnow(egf, cm, v.Mod(v, pbt.N), r.Mod(r, pbt.N))
		if err != nil {
			return nil
		}
		b := &bytes.Buffer{}
		if z.Encode(b) != nil {
			return nil
		}
		return b.Bytes()
	}
	past := make([]bool, c.N)
	done := make([]bool, c.N)
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		a, err := arith.Gen("x", s, egf, uint16(p.Pid), uint16(c.N))
		if err != nil {
			return err
		}
		ts, err := a.Reshare(uint16(c.T))
		past[p.Pid] = len(p.Rounds) > 1+stCommit
		done[p.Pid] = ts != nil || err == nil
		return err
	})
	cl.Judge(t, hang)
	for _, p := range cl.Parties {
		if p.Pid == c.From {
			continue
		}
		if past[p.Pid] {
			t.NonTrivial()
			t.Label("proof of knowledge accepted")
		}
		t.Check(!done[p.Pid], "party %d ends resharing without an error although party %d reshares another number than it has committed to", p.Pid, c.From)
	}
}

// share finds the share of a party and the randomness of its commitment among the numbers it has drawn.
func (c resPuppet) share(cl *cluster.Cluster, pid int) []*big.Int {
	com, _, err := arun.ReadPair(cl.SentOf(pid, (pid+1)%c.N, 0))
	if err != nil {
		return nil
	}
	var xs []*big.Int
	for i, b := range cl.Parties[pid].Stream.Reads {
		if i < 6 {
			x := new(big.Int).SetBytes(b)
			xs = append(xs, x.Mod(x, pbt.N))
		}
	}
	for _, v := range xs {
		for _, r := range xs {
			if eg.Create(cv.Mul(c.D.Int), v, r).Eq(com) {
				return []*big.Int{v, r}
			}
		}
	}
	return nil
}

// ---- dropped messages

type resMissing struct {
	arun.Base
	T     int
	Who   int
	Step  int
	Mode  int // 0: crash, 1: empty message to everybody, 2: empty message to some
	Whose []bool
}

func runResMissing(t *pbt.T, c resMissing) {
	cfg := c.Config()
	hit := make([]bool, c.N)
	if c.Mode == 0 {
		cfg.CrashAt = map[int]int{c.Who: 1 + c.Step}
		for i := range hit {
			hit[i] = i != c.Who
		}
	} else {
		cfg.OnRecv = func(me *cluster.Party, round, from int, data []byte) []byte {
			if from == c.Who && round == 1+c.Step && (c.Mode == 1 || isVictim(c.Whose, c.Who, me.Pid)) {
				hit[me.Pid] = true
				return []byte{}
			}
			return nil
		}
	}
	res := make([]*arith.TDSecret, c.N)
	gen := make([]bool, c.N)
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) (err error) {
		a, err := arith.Gen("x", s, c.Egf(), uint16(p.Pid), uint16(c.N))
		if err != nil {
			return err
		}
		gen[p.Pid] = true
		res[p.Pid], err = a.Reshare(uint16(c.T))
		if (err == nil) == (res[p.Pid] == nil) {
			t.Failf("result %v and error %v", res[p.Pid] != nil, err)
		}
		return err
	})
	cl.Judge(t, hang)
	for _, p := range cl.Parties {
		t.Check(gen[p.Pid], "party %d fails before any interference: %v", p.Pid, p.Err)
		if hit[p.Pid] {
			t.NonTrivial()
			t.Check(res[p.Pid] == nil, "party %d ends resharing without an error although the message of party %d in round %d is missing", p.Pid, c.Who, c.Step)
		}
	}
}

func init() {
	pbt.Facet("C20", "large", "as the facet reshare, with 17 to 24 parties and large thresholds: powers of indices do not fit into machine words; non-trivial: always",
		0, 12, func(rt *rapid.T) reshareCase {
			c := reshareCase{Base: arun.GenBase(rt, 17, 24, 0), T2: 1, T3: 1}
			c.Par = true
			c.T = c.N - rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(rt, "below")
			return c
		}, runReshare,
		reshareCase{Base: arun.Base{N: 17, D: pbt.Int{Int: big.NewInt(7)}, Par: true}, T: 17, T2: 1, T3: 1})
	pbt.Facet("C20", "reshare", "a secret of 1 to 6 parties is reshared twice and its result once more; the opened commitments to the new shares lie on polynomials of degree exactly t-1 through the secret, what is revealed opens them, coefficients never repeat; non-trivial: always",
		500, 20000,
		func(rt *rapid.T) reshareCase {
			c := reshareCase{Base: arun.GenBase(rt, 2, 6, 4)}
			c.T = rapid.IntRange(1, c.N).Draw(rt, "t")
			c.T2 = rapid.IntRange(1, c.N).Draw(rt, "t2")
			c.T3 = rapid.IntRange(1, c.N).Draw(rt, "t3")
			c.Zero = rapid.Bool().Draw(rt, "zero")
			c.Over = rapid.IntRange(0, 9).Draw(rt, "over") == 0
			return c
		}, runReshare,
		reshareCase{Base: arun.Base{N: 11, D: pbt.Int{Int: big.NewInt(3)}}, T: 6, T2: 11, T3: 1},
		reshareCase{Base: arun.Base{N: 5, D: pbt.Int{Int: big.NewInt(1)}}, T: 3, T2: 4, T3: 5, Zero: true})
	pbt.Facet("C20", "leading", "some draws of one party's randomness are set to 0, 1, n-1 and the like: its polynomial still has degree t-1; non-trivial: threshold above 1",
		1000, 40000,
		func(rt *rapid.T) leadCase {
			c := leadCase{Base: arun.GenBase(rt, 2, 4, 0), Value: pbt.Scalar(rt, "value")}
			if rapid.IntRange(0, 2).Draw(rt, "edge") > 0 {
				c.Value = pbt.Int{Int: new(big.Int).Sub(pbt.N, big.NewInt(int64(rapid.IntRange(1, 3).Draw(rt, "value2"))))}
				if rapid.Bool().Draw(rt, "zero") {
					c.Value.SetInt64(0)
				}
			}
			c.T = rapid.IntRange(1, c.N).Draw(rt, "t")
			c.Who = rapid.IntRange(0, c.N-1).Draw(rt, "who")
			c.First = rapid.IntRange(2, 8).Draw(rt, "first")
			c.Count = rapid.IntRange(1, 3).Draw(rt, "count")
			return c
		}, runLead)
	pbt.Facet("C20", "bytes", "a bit of every byte of the randomness of a party is flipped, one after the other: at least 31 of them must change every coefficient; non-trivial: coefficients seen",
		8, 100,
		func(rt *rapid.T) coefBytes {
			return coefBytes{arun.Base{N: 2, Seed: rapid.Uint64().Draw(rt, "seed"), D: pbt.NonZero(rt, "d")}, rapid.IntRange(2, 3).Draw(rt, "t"), rapid.IntRange(0, 1).Draw(rt, "who"), rapid.IntRange(0, 7).Draw(rt, "bit")}
		}, runCoefBytes)
	base := func(rt *rapid.T) resTamper {
		// not more special draws than the shares: with the same randomness two parties make the same statement
		c := resTamper{Base: arun.GenBase(rt, 2, 4, 1)}
		c.T = rapid.IntRange(1, c.N).Draw(rt, "t")
		c.From = rapid.IntRange(0, c.N-1).Draw(rt, "from")
		c.Victims = victims(rt, c.N)
		c.V, c.R = pbt.NonZero(rt, "v"), pbt.NonZero(rt, "r")
		c.K = rapid.IntRange(0, 400).Draw(rt, "k")
		return c
	}
	step := func(rt *rapid.T) []int { return []int{rapid.IntRange(0, reshareRounds-1).Draw(rt, "step")} }
	pbt.Facet("C21", "bytes", "one message of one party in a resharing reaches some parties with bytes flipped, set, cut, inserted or deleted; non-trivial: the message says something else",
		1500, 80000,
		func(rt *rapid.T) resTamper {
			c := base(rt)
			c.Steps = step(rt)
			c.Alter = genAlter(rt, bytewise...)
			c.Alter.Pos = rapid.IntRange(0, 1500).Draw(rt, "pos2")
			return c
		}, runResTamper)
	pbt.Facet("C21", "components", "one message of one party in a resharing reaches some parties with components shifted, swapped or exchanged together with their proofs; non-trivial: the message says something else",
		1500, 80000,
		func(rt *rapid.T) resTamper {
			c := base(rt)
			c.Steps = []int{rapid.SampledFrom([]int{stKnow, stReveal, stEval, stSend, stFinal}).Draw(rt, "step")}
			c.Alter.How = "structured"
			return c
		}, runResTamper)
	pbt.Facet("C21", "replaced", "some messages of one party in a resharing are replaced by another party's, the receiver's own, somebody else's, or those of an earlier resharing or step; non-trivial: they say something else",
		1500, 80000,
		func(rt *rapid.T) resTamper {
			c := base(rt)
			c.Alter = genAlter(rt, "other", "own", "tothers", "earlier", "earlier", "step")
			c.Steps = step(rt)
			if rapid.Bool().Draw(rt, "many") {
				c.Steps = rapid.SliceOfNDistinct(rapid.IntRange(0, reshareRounds-1), 1, reshareRounds, rapid.ID[int]).Draw(rt, "steps")
			}
			return c
		}, runResTamper)
	pbt.Facet("C21", "forged", "commitment and decommitment consistently altered in some component, or another polynomial with valid proofs of knowledge in their place, or another evaluation with its commitment; non-trivial: the message says something else",
		1500, 60000,
		func(rt *rapid.T) resTamper {
			c := base(rt)
			switch rapid.IntRange(0, 3).Draw(rt, "which") {
			case 0:
				c.Alter.How, c.Steps = "evaluation", []int{stEval, stSend}
			case 1, 2:
				c.Alter.How, c.Steps = "consistent", []int{stCommit, stReveal}
			default:
				c.Alter.How, c.Steps = "forged", []int{stCommit, stReveal}
			}
			return c
		}, runResTamper)
	pbt.Facet("C21", "othershare", "a party reshares another number than it has committed to, consistently in every message, and proves knowledge of the number in its commitment: the others do not accept; non-trivial: the proof of knowledge is accepted",
		150, 8000,
		func(rt *rapid.T) resPuppet {
			c := resPuppet{Base: arun.GenBase(rt, 2, 4, 2), Off: pbt.NonZero(rt, "off"), R: pbt.Scalar(rt, "r")}
			c.T = rapid.IntRange(1, c.N).Draw(rt, "t")
			c.From = rapid.IntRange(0, c.N-1).Draw(rt, "from")
			return c
		}, runPuppet)
	pbt.Facet("C21", "missing", "one message of one party in a resharing does not come, or comes empty: no receiver ends with a share; non-trivial: always",
		500, 20000,
		func(rt *rapid.T) resMissing {
			c := resMissing{Base: arun.GenBase(rt, 2, 5, 0)}
			c.T = rapid.IntRange(1, c.N).Draw(rt, "t")
			c.Who = rapid.IntRange(0, c.N-1).Draw(rt, "who")
			c.Step = rapid.IntRange(0, reshareRounds-1).Draw(rt, "step")
			c.Mode = rapid.IntRange(0, 2).Draw(rt, "mode")
			c.Whose = victims(rt, c.N)
			return c
		}, runResMissing)
}
