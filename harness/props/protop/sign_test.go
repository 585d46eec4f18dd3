package protop

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"unsafe"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	crypto "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"

	"verif.local/harness/internal/arun"
	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/pbt"
)

// ---- C27, C28, C29, C33: keys, presignatures and signatures

// initRounds is the number of rounds of the initialisation: commit and reveal, twice.
const initRounds = 4

// presignRounds is the number of rounds of a presigning: four secrets, each of them reshared.
const presignRounds = 4 + 4*reshareRounds

type signOp struct {
	Crash []bool // who stops before
	Kind  string // presign or sign
	T     int
	M     pbt.Int
	Spoil int // what is sent in this round of the operation arrives empty; below 0: nothing
}

type signCase struct {
	arun.Base
	Ops []signOp
}

// opRes is what a party saw of an operation.
type opRes struct {
	ran      bool
	start, n int // rounds
	err      error
	sig      *tecdsa.Signature
	r, s     *big.Int
}

// scalars reads r and s of a signature.
func scalars(sig *tecdsa.Signature) (r, s *big.Int) {
	v := reflect.ValueOf(sig).Elem()
	var ints []*big.Int
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() != reflect.TypeOf((*big.Int)(nil)) {
			continue
		}
		x := (*big.Int)(unsafe.Pointer(v.Field(i).Pointer()))
		switch strings.ToLower(v.Type().Field(i).Name) {
		case "r":
			r = x
		case "s":
			s = x
		}
		ints = append(ints, x)
	}
	if (r == nil || s == nil) && len(ints) == 2 {
		r, s = ints[0], ints[1]
	}
	return r, s
}

// dkeys reads the distributed keys of a protocol, in order.
func dkeys(pr *tecdsa.Protocol) []*arith.DKey {
	v := reflect.ValueOf(pr).Elem()
	var r []*arith.DKey
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*arith.DKey)(nil)) {
			r = append(r, (*arith.DKey)(unsafe.Pointer(v.Field(i).Pointer())))
		}
	}
	return r
}

// play runs the operations. A party that cannot sign goes on if stay is set.
func (c signCase) play(t *pbt.T, cfg cluster.Config, stay bool) (cl *cluster.Cluster, res [][]opRes) {
	res = make([][]opRes, c.N)
	type at struct{ op, start int }
	cur := make([]at, c.N)
	for i := range res {
		res[i] = make([]opRes, len(c.Ops))
		cur[i].op = -1
	}
	if cfg.OnRecv == nil {
		cfg.OnRecv = func(me *cluster.Party, round, from int, data []byte) []byte {
			if a := cur[me.Pid]; a.op >= 0 && c.Ops[a.op].Spoil == round-a.start {
				return []byte{}
			}
			return nil
		}
	}
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		pr, err := tecdsa.Init(uint16(p.Pid), uint16(c.N), s)
		if err != nil {
			return fmt.Errorf("Init: %v", err)
		}
		for i, o := range c.Ops {
			if p.Pid < len(o.Crash) && o.Crash[p.Pid] {
				p.Crash()
			}
			r := opRes{ran: true, start: len(p.Rounds)}
			res[p.Pid][i] = r
			cur[p.Pid] = at{i, r.start}
			if o.Kind == "presign" {
				r.err = pr.Presign(uint16(o.T))
			} else {
				m := o.M.Copy()
				r.sig, r.err = pr.Sign(m)
				if m.Cmp(o.M.Int) != 0 {
					t.Failf("signing changes the message from %x to %x", o.M.Int, m)
				}
			}
			cur[p.Pid].op = -1
			r.n = len(p.Rounds) - r.start
			if r.sig != nil {
				if r.err != nil {
					t.Failf("a signature and an error: %v", r.err)
				}
				r.r, r.s = scalars(r.sig)
			}
			res[p.Pid][i] = r
			if r.err != nil && !stay {
				return r.err
			}
		}
		return nil
	})
	cl.Judge(t, hang)
	return cl, res
}

// revealed are the points that the parties reveal in a round, or nil if the messages do not hold any.
func revealed(t *pbt.T, cl *cluster.Cluster, round int) []curve.Point {
	var r []curve.Point
	for _, p := range cl.Parties {
		x, _, err := arun.ReadPoint(sent(t, p, round))
		if err != nil {
			return nil
		}
		r = append(r, x)
	}
	return r
}

// sent is the message of a party to all in a round, also if the party is alone.
func sent(t *pbt.T, p *cluster.Party, round int) []byte {
	if p.N == 1 {
		t.Check(round < len(p.Rounds), "party %d took part in %d rounds only", p.Pid, len(p.Rounds))
		return p.Rounds[round].To(0)
	}
	return same(t, p, round)
}

// keyLog finds the logarithm of the sum of points among the random numbers that the parties have read.
func keyLog(cl *cluster.Cluster, shares []curve.Point) *big.Int {
	d := new(big.Int)
	for i, p := range cl.Parties {
		found := false
		for j, b := range p.Stream.Reads {
			if j > 40 || len(b) != 32 {
				continue
			}
			x := new(big.Int).SetBytes(b)
			x.Mod(x, pbt.N)
			if arun.Eq(cv.Mul(x), shares[i]) {
				d.Add(d, x)
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return d.Mod(d, pbt.N)
}

// keys reads the two public keys off the messages of the initialisation, and finds the logarithm of the
// second one. It returns false if the messages are of another form.
func (c *signCase) keys(t *pbt.T, cl *cluster.Cluster) (x, h curve.Point, ok bool) {
	for _, p := range cl.Parties {
		if len(p.Rounds) < initRounds {
			return nil, nil, false
		}
	}
	xs, hs := revealed(t, cl, 1), revealed(t, cl, 3)
	if xs == nil || hs == nil {
		return nil, nil, false
	}
	d := keyLog(cl, hs)
	if d == nil {
		return nil, nil, false
	}
	c.D = pbt.Int{Int: d}
	return arun.Sum(xs), arun.Sum(hs), true
}

// secrets opens the commitments that are published alone in a range of rounds: generated secrets.
func (c signCase) secrets(t *pbt.T, cl *cluster.Cluster, start, n int) (r []curve.Point) {
	for k := start; k < start+n; k++ {
		var sum []curve.Point
		for _, p := range cl.Parties {
			if k >= len(p.Rounds) || len(p.Rounds[k].Sent) != 1 {
				break
			}
			com, rest, err := arun.ReadPair(p.Rounds[k].To(0))
			if err != nil || len(rest) > 2 {
				break
			}
			sum = append(sum, c.Open(com))
		}
		if len(sum) == c.N {
			r = append(r, arun.Sum(sum))
		}
	}
	return r
}

// nonceOf is which secret the first part of a signature belongs to, or -1.
func nonceOf(t *pbt.T, r *big.Int, secrets []curve.Point) int {
	for i, k := range secrets {
		if crypto.HashToBigInt(cv.Enc(t, k)).Cmp(r) == 0 {
			return i
		}
	}
	return -1
}

// equation tells whether s*tau = m*rho + r*eta for different secrets tau, rho and eta other than the nonce.
func equation(r, s, m *big.Int, secrets []curve.Point, nonce int) bool {
	for i, tau := range secrets {
		if i == nonce {
			continue
		}
		l := arun.Mul(tau, s)
		for j, rho := range secrets {
			for k, eta := range secrets {
				if j == k || i == j || i == k || j == nonce || k == nonce {
					continue
				}
				if arun.Eq(l, g.Add(arun.Mul(rho, m), arun.Mul(eta, r))) {
					return true
				}
			}
		}
	}
	return false
}

// valid tells whether a signature of ECDSA holds.
func valid(r, s, m *big.Int, x curve.Point) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(pbt.N) >= 0 || s.Cmp(pbt.N) >= 0 {
		return false
	}
	w := new(big.Int).ModInverse(s, pbt.N)
	u := g.Add(cv.Mul(new(big.Int).Mod(m, pbt.N)), arun.Mul(x, r))
	u = arun.Mul(u, w)
	if arun.IsNeutral(u) {
		return false
	}
	var buf bytes.Buffer
	if err := g.Encode(u, &buf); err != nil {
		return false
	}
	pt, _, err := cv.ParsePoint(buf.Bytes())
	if err != nil || pt.X == nil {
		return false
	}
	return new(big.Int).Mod(pt.X, pbt.N).Cmp(r) == 0
}

type made struct {
	t, op   int
	secrets []curve.Point
}

// judge compares what the parties saw with the model: a queue of presignatures, parties that go missing
// and messages that arrive empty. It assumes that a party that stops does so before an operation.
func (c signCase) judge(t *pbt.T, cl *cluster.Cluster, res [][]opRes, ecdsa bool) {
	for _, p := range cl.Parties {
		t.Check(p.Err == nil || !strings.HasPrefix(p.Err.Error(), "Init"), "party %d cannot initialise although all parties are honest: %v", p.Pid, p.Err)
	}
	x, _, form := c.keys(t, cl)
	if !form {
		t.Label("initialisation of another form: the signing equation is not checked")
	}
	var queue []made
	nonces := map[string]int{}
	alive := make([]bool, c.N)
	special := len(c.Special) > 0
	for i := range alive {
		alive[i] = true
	}
	for i, o := range c.Ops {
		here := 0
		var who []int
		for pid := range alive {
			if pid < len(o.Crash) && o.Crash[pid] {
				alive[pid] = false
			}
			if alive[pid] {
				here++
				who = append(who, pid)
				t.Check(res[pid][i].ran, "operation %d: party %d does not take part", i, pid)
			}
		}
		if here == 0 {
			return
		}
		first := res[who[0]][i]
		if o.Kind == "presign" {
			spoilt := c.N > 1 && o.Spoil >= 0 && o.Spoil < first.n
			want := here == c.N && o.T >= 1 && !spoilt
			for _, pid := range who {
				r := res[pid][i]
				t.Check(r.err == nil || !want, "operation %d: presigning fails at party %d although all take part: %v", i, pid, r.err)
				t.Check(r.err != nil || want, "operation %d: presigning with threshold %d, %d of %d parties, message %d spoilt succeeds at party %d", i, o.T, here, c.N, o.Spoil, pid)
				t.Check(r.n == first.n && r.start == first.start, "operation %d: parties %d and %d need a different number of rounds", i, who[0], pid)
			}
			if want {
				m := made{t: o.T, op: i}
				if form {
					m.secrets = c.secrets(t, cl, first.start, first.n)
				}
				queue = append(queue, m)
			} else {
				t.Label("failed presigning")
			}
			continue
		}
		if len(queue) == 0 {
			t.Label("nothing to sign with")
			for _, pid := range who {
				r := res[pid][i]
				t.Check(r.err != nil && r.sig == nil, "operation %d: party %d signs without a presignature", i, pid)
				t.Check(r.n == 0, "operation %d: party %d sends messages without a presignature", i, pid)
			}
			continue
		}
		ps := queue[0]
		queue = queue[1:]
		// who is missing is missing from the beginning; a spoilt message of the first round is refused
		want := here >= ps.t
		if c.N > 1 && o.Spoil == 0 && ps.t > 1 {
			want = false
		}
		if form && want && len(ps.secrets) > 0 {
			for _, s := range ps.secrets {
				if arun.IsNeutral(s) {
					t.Label("a zero secret")
					if first.err != nil {
						// the divisor is zero
						want = false
					}
				}
			}
		}
		if here < c.N {
			t.Label("signing with missing parties")
		}
		if !want {
			t.Label("failed signing")
		}
		for _, pid := range who {
			r := res[pid][i]
			what := fmt.Sprintf("operation %d: presignature of operation %d with threshold %d, %d of %d parties, round %d spoilt", i, ps.op, ps.t, here, c.N, o.Spoil)
			t.Check(want || (r.err != nil && r.sig == nil), "%s: party %d signs", what, pid)
			t.Check(!want || (r.err == nil && r.sig != nil), "%s: party %d does not sign: %v", what, pid, r.err)
			if !want {
				continue
			}
			t.Check(r.r != nil && r.s != nil, "%s: a signature without r or s", what)
			t.Check(arun.Reduced(r.r) && arun.Reduced(r.s), "%s: party %d returns (%x, %x), not reduced", what, pid, r.r, r.s)
			t.Check(r.r.Cmp(first.r) == 0 && r.s.Cmp(first.s) == 0, "%s: parties %d and %d return different signatures", what, who[0], pid)
		}
		if !want {
			continue
		}
		if !special {
			k := first.r.Text(16)
			_, dup := nonces[k]
			t.Check(!dup, "operations %d and %d use the same nonce", nonces[k], i)
			nonces[k] = i
		}
		if !form {
			continue
		}
		nonce := nonceOf(t, first.r, ps.secrets)
		t.Check(nonce >= 0, "operation %d: r is not the hash of the joint nonce key of the presignature of operation %d", i, ps.op)
		t.Check(equation(first.r, first.s, o.M.Int, ps.secrets, nonce), "operation %d: s does not satisfy the signing equation with the secrets of operation %d", i, ps.op)
		if ecdsa && !valid(first.r, first.s, o.M.Int, x) {
			t.Known("not-ecdsa")
		}
	}
}

func runSign(ecdsa bool) func(t *pbt.T, c signCase) {
	return func(t *pbt.T, c signCase) {
		t.NonTrivial()
		t.Label("n=%d", c.N)
		cl, res := c.play(t, c.Config(), true)
		c.judge(t, cl, res, ecdsa)
	}
}

// ---- C33: parties that stop in the middle of a signing

type stopCase struct {
	signCase // all operations but the last are undisturbed
	Who      []bool
	Round    []int // before which round of the last operation a party stops
	Cut      bool  // the last message before gets only partly through
	Bytes    []int // how much of it, by sender and receiver
	Reset    bool
}

func runStops(t *pbt.T, c stopCase) {
	cfg := c.Config()
	last := len(c.Ops) - 1
	// run without stops first: the signature of the full committee
	full, want := c.play(t, c.Config(), false)
	ref := want[0][last]
	for pid := range want {
		t.Check(want[pid][last].sig != nil, "party %d does not sign although all parties are honest: %v", pid, full.Parties[pid].Err)
	}
	start := ref.start
	rounds := ref.n
	th := 0
	k := 0
	for _, o := range c.Ops[:last] {
		if o.Kind == "sign" {
			k++
		}
	}
	for _, o := range c.Ops[:last] {
		if o.Kind == "presign" {
			if k == 0 {
				th = o.T
				break
			}
			k--
		}
	}
	stop := make([]int, c.N) // the round at which a party stops
	cfg.CrashAt = map[int]int{}
	for pid := range stop {
		stop[pid] = 1 << 30
		if c.Who[pid] {
			stop[pid] = start + c.Round[pid]%(rounds+1)
			cfg.CrashAt[pid] = stop[pid]
		}
	}
	if c.Cut {
		cfg.BeforeRound = func(me *cluster.Party, round int) {
			if round != stop[me.Pid]-1 || round < start {
				return
			}
			for to := 0; to < c.N; to++ {
				if to != me.Pid {
					me.Cluster().Net.Pipe(me.Pid, to).CutAfter(c.Bytes[me.Pid*c.N+to], c.Reset, false)
				}
			}
		}
	}
	cfg.OnRecv = func(me *cluster.Party, round, from int, data []byte) []byte { return nil }
	cl, res := c.play(t, cfg, false)
	t.Label("t=%d of %d", th, c.N)
	for _, p := range cl.Parties {
		r := res[p.Pid][last]
		if len(p.Rounds) <= start && stop[p.Pid] > start {
			t.Failf("party %d does not get to the signing: %v", p.Pid, p.Err)
		}
		if p.Pid < c.N && !p.Done {
			continue // it has stopped
		}
		enough := true
		for j := start; j < len(p.Rounds); j++ {
			from := map[int]bool{p.Pid: true}
			for _, h := range p.Rounds[j].Handed {
				from[h.From] = true
			}
			if len(from) < th {
				enough = false
			}
			if len(from) < c.N {
				t.NonTrivial()
			}
			for q := range cl.Parties {
				// who sent everything must have been heard
				sentAll := len(cl.Parties[q].Rounds) > j && stop[q] > j && !(c.Cut && j == stop[q]-1)
				t.Check(from[q] || !sentAll, "party %d gets nothing from party %d in round %d of the signing, although it sent", p.Pid, q, j-start)
			}
		}
		if enough {
			t.Check(r.err == nil && r.sig != nil, "party %d does not sign although %d or more parties respond in every round: %v", p.Pid, th, p.Err)
			t.Check(r.n == rounds, "party %d signs in %d rounds instead of %d", p.Pid, r.n, rounds)
		} else {
			t.Label("too few respond")
			t.Check(r.err != nil && r.sig == nil, "party %d signs although fewer than %d parties respond in some round", p.Pid, th)
			continue
		}
		if len(p.Rounds) > start {
			t.Check(r.r.Cmp(ref.r) == 0 && r.s.Cmp(ref.s) == 0, "party %d returns another signature than the full committee", p.Pid)
			t.Label("signed")
		}
	}
	// nobody is cut off from the others without stopping: without partial messages the number of
	// parties decides
	if !c.Cut {
		enough := true
		for j := start; j < start+rounds; j++ {
			n := 0
			for pid := range stop {
				if stop[pid] > j {
					n++
				}
			}
			enough = enough && n >= th
		}
		for _, p := range cl.Parties {
			if stop[p.Pid] < 1<<30 {
				continue
			}
			r := res[p.Pid][last]
			t.Check(!enough || r.sig != nil, "party %d does not sign although %d parties take part to the end: %v", p.Pid, th, p.Err)
			t.Check(enough || r.sig == nil, "party %d signs although fewer than %d parties take part", p.Pid, th)
		}
	}
}

// ---- C29

func runInit(t *pbt.T, c signCase) {
	t.NonTrivial()
	t.Label("n=%d", c.N)
	prs := make([]*tecdsa.Protocol, c.N)
	inits := make([]int, c.N)
	starts := make([][]int, len(c.Ops))
	for i := range starts {
		starts[i] = make([]int, c.N)
	}
	cfg := c.Config()
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		pr, err := tecdsa.Init(uint16(p.Pid), uint16(c.N), s)
		if err != nil {
			return err
		}
		prs[p.Pid], inits[p.Pid] = pr, len(p.Rounds)
		for i, o := range c.Ops {
			starts[i][p.Pid] = len(p.Rounds)
			if err := pr.Presign(uint16(o.T)); err != nil {
				return err
			}
		}
		return nil
	})
	ok(t, cl, hang)
	x, h, form := c.keys(t, cl)
	if !form {
		t.Label("initialisation of another form")
	}
	for _, p := range cl.Parties {
		ks := dkeys(prs[p.Pid])
		if len(ks) != 2 {
			t.Label("protocol of another form")
			continue
		}
		for i, k := range ks {
			t.Check(arun.Eq(k.PublicKey(), dkeys(prs[0])[i].PublicKey()), "parties 0 and %d have different keys (number %d)", p.Pid, i)
		}
		if form {
			a, b := ks[0].PublicKey(), ks[1].PublicKey()
			t.Check((arun.Eq(a, x) && arun.Eq(b, h)) || (arun.Eq(a, h) && arun.Eq(b, x)), "party %d: the keys are not the products of the revealed shares", p.Pid)
		}
		t.Check(len(c.Special) > 0 || !arun.Eq(ks[0].PublicKey(), ks[1].PublicKey()), "party %d: the keys are the same", p.Pid)
	}
	if !form {
		return
	}
	for _, p := range cl.Parties {
		t.Check(inits[p.Pid] == initRounds, "party %d needs %d rounds for its keys", p.Pid, inits[p.Pid])
		if c.SpecialLen(p.Pid) == 0 {
			a, b := revealed(t, cl, 1)[p.Pid], revealed(t, cl, 3)[p.Pid]
			t.Check(!arun.Eq(a, b), "party %d has the same share in both keys", p.Pid)
		}
	}
	// every commitment of the presignings opens under the second key
	for i, o := range c.Ops {
		n := len(cl.Parties[0].Rounds) - starts[i][0]
		if i+1 < len(c.Ops) {
			n = starts[i+1][0] - starts[i][0]
		}
		if n != presignRounds {
			t.Label("presigning of another form")
			continue
		}
		secrets := c.secrets(t, cl, starts[i][0], n)
		if len(secrets) != 4 {
			t.Label("presigning of another form")
			continue
		}
		used := map[int]bool{}
		for j := 0; j < 4; j++ {
			begin := make([]int, c.N)
			for pid := range begin {
				begin[pid] = starts[i][pid] + 4 + j*reshareRounds
			}
			if c.N == 1 {
				continue
			}
			ps := sharePoints(t, c.Base, cl, begin)
			if ps == nil {
				t.Label("resharing of another form")
				continue
			}
			if o.T > c.N {
				continue
			}
			// which secret is reshared: the one that the shares interpolate to
			sec := arun.At(xs(1, o.T), ps[:o.T], 0)
			which := -1
			for w, s := range secrets {
				if !used[w] && arun.Eq(s, sec) {
					which = w
					break
				}
			}
			t.Check(which >= 0, "presigning %d: the shares of resharing %d, opened under the second key, do not interpolate to a generated secret", i, j)
			used[which] = true
			onPolynomial(t, fmt.Sprintf("presigning %d, resharing %d", i, j), ps, o.T, sec, false)
		}
	}
}

type initTamper struct {
	arun.Base
	From    int
	Victims []bool
	Round   int
	Alter   alter
	Miss    string // "": altered; crash: the sender stops before the round; drop: the message arrives empty
}

func runInitTamper(t *pbt.T, c initTamper) {
	cfg := c.Config()
	altered, harm := make([]bool, c.N), make([]bool, c.N)
	switch c.Miss {
	case "crash":
		cfg.CrashAt = map[int]int{c.From: c.Round}
		for i := range altered {
			altered[i], harm[i] = i != c.From, i != c.From
		}
	default:
		cfg.OnRecv = func(me *cluster.Party, round, from int, data []byte) []byte {
			if from != c.From || round != c.Round || !isVictim(c.Victims, c.From, me.Pid) {
				return nil
			}
			var m []byte
			switch {
			case c.Miss == "drop":
				m = []byte{}
			case c.Alter.How == "other":
				q := (c.From + 1) % c.N
				if q == me.Pid && c.N > 2 {
					q = (c.From + 2) % c.N
				}
				m = me.Cluster().SentOf(q, me.Pid, round)
			case c.Alter.How == "own":
				m = me.Cluster().SentOf(me.Pid, c.From, round)
			case c.Alter.How == "earlier" && round >= 2:
				m = me.Cluster().SentOf(c.From, me.Pid, round-2)
			case c.Alter.How == "before" && round >= 1:
				m = me.Cluster().SentOf(c.From, me.Pid, round-1)
			case c.Alter.How == "earlier" || c.Alter.How == "before":
				m = append([]byte{0}, data...)
			default:
				m = c.Alter.apply(data)
			}
			if m == nil || bytes.Equal(m, data) {
				return nil
			}
			altered[me.Pid] = true
			if !(round%2 == 0 && trailing(data, m)) {
				harm[me.Pid] = true
			}
			return m
		}
	}
	got := make([]*tecdsa.Protocol, c.N)
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		pr, err := tecdsa.Init(uint16(p.Pid), uint16(c.N), s)
		if err != nil {
			t.Check(pr == nil, "an error and keys")
			return err
		}
		got[p.Pid] = pr
		return nil
	})
	cl.Judge(t, hang)
	t.Label("round %d: %s%s", c.Round, c.Alter.How, c.Miss)
	any := false
	for pid := range altered {
		any = any || altered[pid]
		if harm[pid] {
			t.NonTrivial()
			t.Check(got[pid] == nil, "party %d initialises although the message of party %d in round %d was altered (%s) or missing (%s)", pid, c.From, c.Round, c.Alter.How, c.Miss)
		}
	}
	if !any {
		ok(t, cl, hang)
	}
	// keys of those who have some are products of the shares revealed to them, and in particular the same
	var first []*arith.DKey
	for _, p := range cl.Parties {
		if got[p.Pid] == nil || p.Pid == c.From {
			continue
		}
		ks := dkeys(got[p.Pid])
		if first == nil {
			first = ks
		}
		for i := range ks {
			t.Check(i < len(first) && arun.Eq(ks[i].PublicKey(), first[i].PublicKey()), "party %d ends the initialisation with other keys", p.Pid)
		}
	}
}

// runInitBits flips single bits of the randomness of a party: the shares of the two keys depend on
// different ones.
func runInitBits(t *pbt.T, c bitsCase) {
	t.NonTrivial()
	var drawn []byte
	once := func(prefix []byte) []string {
		cfg := c.Config()
		if prefix != nil {
			cfg.Prefix[c.Who] = prefix
		}
		cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
			_, err := tecdsa.Init(uint16(p.Pid), uint16(c.N), s)
			return err
		})
		ok(t, cl, hang)
		p := cl.Parties[c.Who]
		if prefix == nil {
			for _, b := range p.Stream.Reads {
				drawn = append(drawn, b...)
			}
		}
		if len(p.Rounds) != initRounds {
			return nil
		}
		xs, hs := revealed(t, cl, 1), revealed(t, cl, 3)
		if xs == nil || hs == nil {
			return nil
		}
		return []string{string(cv.Enc(t, xs[c.Who])), string(cv.Enc(t, hs[c.Who]))}
	}
	base := once(nil)
	if base == nil || len(drawn) > 160 {
		t.Label("initialisation of another form: skipped")
		return
	}
	count := make([]int, 2)
	both := 0
	for i := 0; i < 8*len(drawn); i++ {
		b := append([]byte{}, drawn...)
		b[i/8] ^= 1 << (i % 8)
		r := once(b)
		if r == nil {
			t.Label("initialisation of another form: skipped")
			return
		}
		for j := range r {
			if r[j] != base[j] {
				count[j]++
			}
		}
		if r[0] != base[0] && r[1] != base[1] {
			both++
		}
	}
	for j, n := range count {
		t.Check(n >= 250, "the share of key %d depends on only %d bits of the randomness drawn", j, n)
	}
	t.Check(both <= 16, "%d bits of randomness change the shares of both keys: the keys are not independent", both)
}

func presign(rt *rapid.T, n int) signOp {
	return signOp{Kind: "presign", T: rapid.IntRange(1, n).Draw(rt, "t"), M: pbt.Int{Int: new(big.Int)}, Spoil: -1}
}

func message(rt *rapid.T) pbt.Int { return pbt.BigScalar(rt, "m") }

func init() {
	base := func(rt *rapid.T, lo, hi int) signCase { return signCase{Base: arun.GenBase(rt, lo, hi, 10)} }
	pbt.Facet("C27", "sign", "1 to 4 presignings and as many signings in any order, all parties honest: the same signature everywhere, r and s against the opened secrets of the presignature; non-trivial: always",
		350, 8000,
		func(rt *rapid.T) signCase {
			c := base(rt, 1, 5)
			have := 0
			for i := rapid.IntRange(1, 4).Draw(rt, "presignings"); i > 0 || have > 0; {
				if i > 0 && (have == 0 || rapid.Bool().Draw(rt, "presign")) {
					c.Ops = append(c.Ops, presign(rt, c.N))
					i--
					have++
				} else {
					c.Ops = append(c.Ops, signOp{Kind: "sign", M: message(rt), Spoil: -1})
					have--
				}
			}
			return c
		}, runSign(true))
	pbt.Facet("C28", "history", "3 to 9 presignings and signings of 1 to 4 parties; some fail, at any round, for lack of presignatures or of parties, or for a bad threshold: compared with a queue; non-trivial: always",
		900, 20000,
		func(rt *rapid.T) signCase {
			c := base(rt, 1, 4)
			left := c.N
			down := make([]bool, c.N)
			for i := rapid.IntRange(3, 9).Draw(rt, "ops"); i > 0; i-- {
				o := signOp{M: pbt.Int{Int: new(big.Int)}, Spoil: -1, Crash: make([]bool, c.N)}
				o.Kind = rapid.SampledFrom([]string{"presign", "sign", "sign"}).Draw(rt, "kind")
				if len(c.Ops) == 0 && rapid.IntRange(0, 5).Draw(rt, "begin") > 0 {
					o.Kind = "presign"
				}
				if o.Kind == "presign" {
					o.T = rapid.IntRange(1, c.N).Draw(rt, "t")
					switch rapid.IntRange(0, 11).Draw(rt, "special-t") {
					case 0:
						o.T = 0
					case 1:
						o.T = c.N + 1
					}
					if rapid.IntRange(0, 3).Draw(rt, "spoil") == 0 {
						o.Spoil = rapid.IntRange(0, presignRounds-1).Draw(rt, "spoilt")
					}
				} else {
					o.M = message(rt)
					if rapid.IntRange(0, 4).Draw(rt, "spoil") == 0 {
						o.Spoil = 0
					}
				}
				// parties leave towards the end
				if left > 1 && i <= 4 && rapid.IntRange(0, 3).Draw(rt, "leave") == 0 {
					if w := rapid.IntRange(0, c.N-1).Draw(rt, "crash"); !down[w] {
						down[w], o.Crash[w] = true, true
						left--
					}
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		}, runSign(false))
	pbt.Facet("C29", "keys", "the keys of 1 to 6 parties and the commitments of 0 to 2 presignings: same keys everywhere, products of the revealed shares, different; commitments opened under the second key give secrets, polynomials and shares that fit together; non-trivial: always",
		250, 8000,
		func(rt *rapid.T) signCase {
			c := base(rt, 1, 6)
			for i := rapid.IntRange(0, 2).Draw(rt, "presignings"); i > 0; i-- {
				c.Ops = append(c.Ops, presign(rt, c.N))
			}
			return c
		}, runInit)
	pbt.Facet("C29", "base", "as the facet sign of C27, for commitments: r and s computed by the parties fit the values that the commitments hold under the second key; non-trivial: always",
		100, 4000,
		func(rt *rapid.T) signCase {
			c := base(rt, 2, 4)
			c.Special = nil
			c.Ops = []signOp{presign(rt, c.N), {Kind: "sign", M: message(rt), Spoil: -1}}
			return c
		}, runSign(false))
	pbt.Facet("C29", "altered", "a message of one party in one round of the initialisation is altered in bytes, replaced by that of another party or of another round, empty or missing: the receivers fail; non-trivial: the message really changed",
		3000, 150000,
		func(rt *rapid.T) initTamper {
			c := initTamper{Base: arun.GenBase(rt, 2, 5, 2)}
			c.From = rapid.IntRange(0, c.N-1).Draw(rt, "from")
			c.Victims = victims(rt, c.N)
			c.Round = rapid.IntRange(0, initRounds-1).Draw(rt, "round")
			c.Alter = genAlter(rt, append([]string{"other", "own", "earlier", "before"}, bytewise...)...)
			if m := rapid.SampledFrom([]string{"", "", "", "crash", "drop"}).Draw(rt, "miss"); m != "" {
				c.Miss, c.Alter.How = m, ""
			}
			return c
		}, runInitTamper)
	pbt.Facet("C29", "bits", "single bits of the randomness of a party are flipped: at least 250 change its share of each key, and none changes both; non-trivial: always",
		16, 300,
		func(rt *rapid.T) bitsCase {
			return bitsCase{arun.Base{N: 2, Seed: rapid.Uint64().Draw(rt, "seed"), D: pbt.NonZero(rt, "d")}, rapid.IntRange(0, 1).Draw(rt, "who"), true}
		}, runInitBits)
	stops := func(cut bool) func(rt *rapid.T) stopCase {
		return func(rt *rapid.T) stopCase {
			c := stopCase{signCase: base(rt, 2, 6), Cut: cut, Reset: rapid.Bool().Draw(rt, "reset")}
			c.Special = nil
			extra := rapid.IntRange(0, 1).Draw(rt, "before")
			for i := 0; i <= extra; i++ {
				c.Ops = append(c.Ops, presign(rt, c.N))
			}
			for i := 0; i <= extra; i++ {
				c.Ops = append(c.Ops, signOp{Kind: "sign", M: message(rt), Spoil: -1})
			}
			c.Who = make([]bool, c.N)
			left := rapid.IntRange(1, c.N-1).Draw(rt, "stops")
			for _, w := range rapid.Permutation(xs(0, c.N)).Draw(rt, "who")[:left] {
				c.Who[w] = true
			}
			for i := 0; i < c.N; i++ {
				c.Round = append(c.Round, rapid.IntRange(0, 3).Draw(rt, "round"))
			}
			if cut {
				for i := 0; i < c.N*c.N; i++ {
					c.Bytes = append(c.Bytes, rapid.SampledFrom([]int{0, 0, 1, 5, 6, 7, 20, 40, 1000, 1000, 1000}).Draw(rt, "bytes"))
				}
			}
			return c
		}
	}
	pbt.Facet("C33", "stops", "1 to n-1 parties stop before any round of a signing: the others sign exactly if the threshold's number of parties takes part in every round, and the same as the full committee; non-trivial: somebody is missing in a round",
		150, 6000, stops(false), runStops)
	pbt.Facet("C33", "cuts", "as stops, but the last message of a stopping party reaches each of the others wholly, partly or not at all; non-trivial: somebody is missing in a round",
		200, 6000, stops(true), runStops)
}
