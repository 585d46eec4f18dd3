// Package racep: property C35, shared objects used by many goroutines. It is built with the race
// detector, which ends the process at the first race.
package racep

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"runtime/debug"
	"strings"
	stdsync "sync"
	"testing"
	"unsafe"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	crypto "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"

	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/pbt"
	"verif.local/harness/internal/vnet"
)

func TestProps(t *testing.T) { pbt.Main(t) }

// ---- objects shared by goroutines

type valOp struct {
	Kind    int
	I, J, K int
}

type valCase struct {
	D       pbt.Int   // logarithm of the base
	S       []pbt.Int // scalars, also logarithms of points
	Workers [][]valOp
}

var valKinds = []string{"add", "negate", "multiply", "multiply base", "equal", "encode point", "decode point", "constants",
	"create", "compose", "exp", "inverse", "equal commitments", "neutral", "encode commitment", "decode commitment",
	"verify knowledge", "verify refresh", "encode proofs", "prove knowledge", "prove refresh", "hash", "other group"}

// objects are what the goroutines share.
type objects struct {
	g     curve.Group
	egf   *commitment.ElGamalFactory
	s     []*big.Int
	ps    []curve.Point
	cs    []*commitment.ElGamal // to s[i], s[i+1]
	rs    []*commitment.ElGamal // refreshed by s[i+2]
	know  []*zkpok.ZKEGKnow
	fresh []*zkpok.ZKEGRefresh
	encP  [][]byte
	encC  [][]byte
}

func at[T any](l []T, i int) T { return l[i%len(l)] }

func must(err error) {
	if err != nil {
		panic(valError{err})
	}
}

type valError struct{ err error }

func (c valCase) objects() *objects {
	o := &objects{g: curve.NewSecp256k1Group()}
	o.egf = commitment.NewElGamalFactory(o.g.ScalarBaseMult(c.D.Copy()))
	for _, x := range c.S {
		o.s = append(o.s, x.Copy())
		o.ps = append(o.ps, o.g.ScalarBaseMult(x.Copy()))
	}
	for i := range o.s {
		com := o.egf.Create(o.s[i], at(o.s, i+1))
		ref := o.egf.Neutral()
		ref.Compose(com, o.egf.Create(new(big.Int), at(o.s, i+2)))
		k, err := zkpok.NewZKEGKnow(o.egf, com, o.s[i], at(o.s, i+1))
		must(err)
		f, err := zkpok.NewZKEGRefresh(o.egf, com, ref, at(o.s, i+2))
		must(err)
		o.cs, o.rs, o.know, o.fresh = append(o.cs, com), append(o.rs, ref), append(o.know, k), append(o.fresh, f)
		b := &bytes.Buffer{}
		must(o.g.Encode(o.ps[i], b))
		o.encP = append(o.encP, b.Bytes())
		b = &bytes.Buffer{}
		must(com.Encode(b))
		o.encC = append(o.encC, b.Bytes())
	}
	// the objects that the goroutines use have not been used before, wherever possible
	o.g = curve.NewSecp256k1Group()
	o.egf = commitment.NewElGamalFactory(o.g.ScalarBaseMult(c.D.Copy()))
	return o
}

// do returns what an operation gives, in bytes.
func (o *objects) do(op valOp) []byte {
	b := &bytes.Buffer{}
	point := func(p curve.Point) { must(o.g.Encode(p, b)) }
	com := func(c *commitment.ElGamal) { must(c.Encode(b)) }
	say := func(x interface{}) { fmt.Fprint(b, x) }
	s, s2 := at(o.s, op.I), at(o.s, op.J)
	p, p2 := at(o.ps, op.I), at(o.ps, op.J)
	c, c2 := at(o.cs, op.I), at(o.cs, op.J)
	switch valKinds[op.Kind%len(valKinds)] {
	case "add":
		point(o.g.Add(p, p2))
	case "negate":
		point(o.g.Neg(p))
	case "multiply":
		point(o.g.ScalarMult(p, s2))
	case "multiply base":
		point(o.g.ScalarBaseMult(s))
	case "equal":
		say(o.g.Equal(p, p2))
	case "encode point":
		point(p)
	case "decode point":
		q, err := o.g.Decode(bytes.NewReader(at(o.encP, op.I)))
		must(err)
		point(q)
	case "constants":
		point(o.g.Gen())
		point(o.g.Neutral())
		say(o.g.Order())
		say(o.egf.Curve().Order())
	case "create":
		com(o.egf.Create(s, s2))
	case "compose":
		com(o.egf.Neutral().Compose(c, c2))
	case "exp":
		com(o.egf.Neutral().Exp(c, s2))
	case "inverse":
		com(o.egf.Neutral().Inverse(c))
	case "equal commitments":
		say(c.Equal(c, c2))
		say(c2.Equal(c, c))
	case "neutral":
		say(o.egf.IsNeutral(c))
		say(o.egf.IsNeutral(o.egf.Neutral()))
	case "encode commitment":
		com(c)
	case "decode commitment":
		d := &commitment.ElGamal{}
		must(d.Decode(bytes.NewReader(at(o.encC, op.I))))
		com(d)
	case "verify knowledge":
		say(at(o.know, op.I).Verify(o.egf, c2) == nil)
	case "verify refresh":
		say(at(o.fresh, op.I).Verify(o.egf, c2, at(o.rs, op.K)) == nil)
	case "encode proofs":
		must(at(o.know, op.I).Encode(b))
		must(at(o.fresh, op.J).Encode(b))
	case "prove knowledge":
		k, err := zkpok.NewZKEGKnow(o.egf, c, s, at(o.s, op.I+1))
		must(err)
		say(k.Verify(o.egf, c) == nil)
	case "prove refresh":
		k, err := zkpok.NewZKEGRefresh(o.egf, c, at(o.rs, op.I), at(o.s, op.I+2))
		must(err)
		say(k.Verify(o.egf, c, at(o.rs, op.I)) == nil)
	case "hash":
		say(crypto.HashToBigInt(at(o.encC, op.I)))
	case "other group":
		h := curve.NewSecp256k1Group()
		must(h.Encode(h.ScalarMult(p, s2), b))
		f := commitment.NewElGamalFactory(p2)
		com(f.Create(s, s2))
	}
	return b.Bytes()
}

// safely runs f and returns how it failed, if it did.
func safely(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(valError); ok {
				msg = v.err.Error()
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
			if !pbt.InRepo(msg) {
				pbt.Abort("%s", msg)
			}
		}
	}()
	f()
	return ""
}

func runValues(t *pbt.T, c valCase) {
	var o *objects
	if msg := safely(func() { o = c.objects() }); msg != "" {
		t.Failf("making the objects: %s", msg)
	}
	got := make([][][]byte, len(c.Workers))
	fails := make([]string, len(c.Workers))
	begin := make(chan struct{})
	var wg stdsync.WaitGroup
	for w, ops := range c.Workers {
		wg.Add(1)
		go func(w int, ops []valOp) {
			defer wg.Done()
			<-begin
			fails[w] = safely(func() {
				for _, op := range ops {
					got[w] = append(got[w], o.do(op))
				}
			})
		}(w, ops)
	}
	close(begin)
	wg.Wait()
	for w, f := range fails {
		t.Check(f == "", "goroutine %d: %s", w, f)
	}
	// one after another, with other objects
	if msg := safely(func() {
		o = c.objects()
		for w, ops := range c.Workers {
			for i, op := range ops {
				k := valKinds[op.Kind%len(valKinds)]
				t.Label("%s", k)
				if k == "encode proofs" {
					// these are random
					o.know[0].Encode(&bytes.Buffer{})
					continue
				}
				want := o.do(op)
				t.Check(bytes.Equal(got[w][i], want), "goroutine %d, operation %d (%s): %x while others are at work, %x alone", w, i, k, got[w][i], want)
			}
		}
	}); msg != "" {
		t.Failf("alone: %s", msg)
	}
	if len(c.Workers) > 1 {
		t.NonTrivial()
	}
}

// ---- several committees in one process, over an ideal network

type exchange struct {
	mu    stdsync.Mutex
	cond  *stdsync.Cond
	n     int
	sent  map[int][][][]byte // by round and sender
	ended int
}

type ideal struct {
	x     *exchange
	pid   int
	round int
}

func (s *ideal) Start() {}
func (s *ideal) Stop()  {}

func (s *ideal) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	x := s.x
	k := s.round
	s.round++
	out := make([][]byte, x.n)
	for i := range out {
		m := toSend[0]
		if len(toSend) > 1 {
			m = toSend[i]
		}
		out[i] = append([]byte{}, m...)
	}
	x.mu.Lock()
	if x.sent[k] == nil {
		x.sent[k] = make([][][]byte, x.n)
	}
	x.sent[k][s.pid] = out
	x.cond.Broadcast()
	missing := -1
	for {
		missing = -1
		for i, m := range x.sent[k] {
			if m == nil {
				missing = i
			}
		}
		if missing < 0 || x.ended > 0 {
			break
		}
		x.cond.Wait()
	}
	all := x.sent[k]
	x.mu.Unlock()
	if missing >= 0 {
		return fmt.Errorf("party %d is missing", missing)
	}
	for from := range all {
		if from != s.pid {
			if err := check(uint16(from), append([]byte{}, all[from][s.pid]...)); err != nil {
				return err
			}
		}
	}
	return nil
}

type commCase struct {
	Sizes []int // of the committees
	T     int
	Msgs  []pbt.Int
	What  int
}

func scalars(sig *tecdsa.Signature) string {
	v := reflect.ValueOf(sig).Elem()
	var l []string
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*big.Int)(nil)) {
			l = append(l, strings.ToLower(v.Type().Field(i).Name)+"="+(*big.Int)(unsafe.Pointer(v.Field(i).Pointer())).Text(16))
		}
	}
	return strings.Join(l, " ")
}

// party is what one party of a committee does; the result must be the same for all of them.
func (c commCase) party(pid, n int, s sync.Server) (res []string, err error) {
	th := uint16(1 + (c.T+n)%n)
	if c.What%2 == 0 {
		p, err := tecdsa.Init(uint16(pid), uint16(n), s)
		if err != nil {
			return nil, err
		}
		for range c.Msgs {
			if err := p.Presign(th); err != nil {
				return nil, err
			}
		}
		for _, m := range c.Msgs {
			sig, err := p.Sign(m.Copy())
			if err != nil {
				return nil, err
			}
			res = append(res, scalars(sig))
		}
		return res, nil
	}
	g := curve.NewSecp256k1Group()
	key, err := arith.GenExpReveal(uint16(pid), "h", s, uint16(n), g)
	if err != nil {
		return nil, err
	}
	egf := commitment.NewElGamalFactory(key.PublicKey())
	var tds []*arith.TDSecret
	for i := 0; i < 2; i++ {
		a, err := arith.Gen(fmt.Sprint(i), s, egf, uint16(pid), uint16(n))
		if err != nil {
			return nil, err
		}
		td, err := a.Reshare(th)
		if err != nil {
			return nil, err
		}
		tds = append(tds, td)
	}
	for _, m := range c.Msgs {
		x, y := tds[len(tds)-1], tds[len(tds)-2]
		sum := arith.Lin(m.Copy(), big.NewInt(3), x, y, "sum")
		k, err := sum.Exp()
		if err != nil {
			return nil, err
		}
		v, err := sum.Reveal()
		if err != nil {
			return nil, err
		}
		if !g.Equal(k.PublicKey(), g.ScalarBaseMult(v)) {
			return nil, fmt.Errorf("the public key of a secret is not the generator raised to it")
		}
		vx, err := x.Reveal()
		if err != nil {
			return nil, err
		}
		vy, err := y.Reveal()
		if err != nil {
			return nil, err
		}
		want := new(big.Int).Mul(m.Int, vx)
		want.Add(want, vy.Mul(vy, big.NewInt(3)))
		if want.Mod(want, pbt.N).Cmp(v) != 0 {
			return nil, fmt.Errorf("a combination is wrong")
		}
		if err := arith.CheckDH(g.Gen(), key.PublicKey(), g, key); err != nil {
			return nil, err
		}
		tds = append(tds, sum)
		res = append(res, v.Text(16))
	}
	return res, nil
}

func runCommittees(t *pbt.T, c commCase) {
	res := make([][][]string, len(c.Sizes))
	fails := make([][]string, len(c.Sizes))
	var wg stdsync.WaitGroup
	for i, n := range c.Sizes {
		res[i], fails[i] = make([][]string, n), make([]string, n)
		x := &exchange{n: n, sent: map[int][][][]byte{}}
		x.cond = stdsync.NewCond(&x.mu)
		for pid := 0; pid < n; pid++ {
			wg.Add(1)
			go func(i, pid, n int) {
				defer wg.Done()
				var err error
				fails[i][pid] = safely(func() { res[i][pid], err = c.party(pid, n, &ideal{x: x, pid: pid}) })
				if err != nil {
					fails[i][pid] = err.Error()
				}
				if fails[i][pid] != "" {
					x.mu.Lock()
					x.ended++
					x.cond.Broadcast()
					x.mu.Unlock()
				}
			}(i, pid, n)
		}
	}
	wg.Wait()
	for i := range res {
		for pid := range res[i] {
			t.Check(fails[i][pid] == "", "committee %d, party %d: %s", i, pid, fails[i][pid])
			t.Check(fmt.Sprint(res[i][pid]) == fmt.Sprint(res[i][0]), "committee %d: parties 0 and %d get %v and %v", i, pid, res[i][0], res[i][pid])
		}
	}
	t.Label([]string{"signing", "arithmetic"}[c.What%2])
	if len(c.Sizes) > 1 {
		t.NonTrivial()
	}
}

// ---- rounds over servers

type roundCase struct {
	N     int
	Links []vnet.Link
	Sizes [][]int // by round; sizes of messages, cyclically
	Indiv []bool
}

func runRounds(t *pbt.T, c roundCase) {
	cfg := cluster.Config{N: c.N, NoBaton: true, Link: func(from, to int) vnet.Link {
		if len(c.Links) == 0 {
			return vnet.Link{}
		}
		return at(c.Links, from*c.N+to)
	}}
	msg := func(k, from, to, size int) []byte {
		b := make([]byte, size)
		for i := range b {
			b[i] = byte(k*31 + from*7 + to*3 + i)
		}
		return b
	}
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		raw := p.Server()
		var bufs [][]byte
		for k, sizes := range c.Sizes {
			indiv := at(c.Indiv, k) && c.N > 1
			n := 1
			if indiv {
				n = c.N
			}
			// the same memory is used in every round
			for len(bufs) < n {
				bufs = append(bufs, nil)
			}
			out := make([][]byte, n)
			for to := range out {
				bufs[to] = append(bufs[to][:0], msg(k, p.Pid, to, at(sizes, p.Pid*n+to))...)
				out[to] = bufs[to]
			}
			seen := make([]int, c.N)
			err := raw.Round(out, func(from uint16, data []byte) error {
				seen[from]++
				to := 0
				if indiv {
					to = p.Pid
				}
				if want := msg(k, int(from), to, at(sizes, int(from)*n+to)); !bytes.Equal(want, data) {
					return fmt.Errorf("round %d, party %d: got %x from party %d instead of %x", k, p.Pid, data, from, want)
				}
				// the data belongs to the receiver
				for i := range data {
					data[i] ^= 0xff
				}
				return nil
			})
			if err != nil {
				return err
			}
			for from, x := range seen {
				if (from == p.Pid) != (x == 0) || x > 1 {
					return fmt.Errorf("round %d, party %d: check called %d times for party %d", k, p.Pid, x, from)
				}
			}
			for i := range out {
				// and what was sent to the sender
				for j := range out[i] {
					out[i][j] = 0xee
				}
			}
		}
		return nil
	})
	cl.Judge(t, hang)
	for _, p := range cl.Parties {
		t.Check(p.Done && p.Err == nil, "party %d: %v", p.Pid, p.Err)
	}
	if len(c.Links) > 0 && c.N > 1 {
		t.NonTrivial()
	}
}

func init() {
	scal := func(rt *rapid.T) []pbt.Int {
		var l []pbt.Int
		for i := rapid.IntRange(2, 5).Draw(rt, "scalars"); i > 0; i-- {
			l = append(l, pbt.BigScalar(rt, "scalar"))
		}
		return l
	}
	all := valCase{D: pbt.Int{Int: big.NewInt(5)}, S: []pbt.Int{{Int: big.NewInt(3)}, {Int: big.NewInt(0)}, {Int: big.NewInt(11)}, {Int: new(big.Int).Sub(pbt.N, big.NewInt(3))}, {Int: new(big.Int).Add(pbt.N, big.NewInt(7))}, {Int: new(big.Int).Lsh(pbt.N, 3)}}}
	for w := 0; w < 3; w++ {
		var ops []valOp
		for k := range valKinds {
			ops = append(ops, valOp{(k*5 + w) % len(valKinds), k + w, 2 * k, k + 1})
		}
		all.Workers = append(all.Workers, ops)
	}
	pbt.Facet("C35", "values", "2 to 6 goroutines that use the same group, scalars, points, commitments, factory and proofs, with the race detector, against the same operations one after another; non-trivial: more than one goroutine",
		3000, 80000,
		func(rt *rapid.T) valCase {
			c := valCase{D: pbt.NonZero(rt, "d"), S: scal(rt)}
			few := rapid.SliceOfN(rapid.IntRange(0, len(valKinds)-1), 1, 4).Draw(rt, "kinds")
			for w := rapid.IntRange(2, 6).Draw(rt, "workers"); w > 0; w-- {
				var ops []valOp
				for i := rapid.IntRange(1, 12).Draw(rt, "ops"); i > 0; i-- {
					ops = append(ops, valOp{rapid.SampledFrom(few).Draw(rt, "kind"), rapid.IntRange(0, 4).Draw(rt, "i"), rapid.IntRange(0, 4).Draw(rt, "j"), rapid.IntRange(0, 4).Draw(rt, "k")})
				}
				c.Workers = append(c.Workers, ops)
			}
			return c
		}, runValues, all, all, all, all, all, all, all, all)
	pbt.Facet("C35", "committees", "1 to 3 committees of 1 to 4 parties that presign and sign, or combine, raise and reveal secrets, in one process at the same time, with the race detector: all succeed, with the same results within a committee; non-trivial: more than one committee",
		160, 4000,
		func(rt *rapid.T) commCase {
			c := commCase{What: rapid.IntRange(0, 1).Draw(rt, "what"), T: rapid.IntRange(0, 3).Draw(rt, "t")}
			for i := rapid.SampledFrom([]int{1, 2, 2, 3}).Draw(rt, "committees"); i > 0; i-- {
				c.Sizes = append(c.Sizes, rapid.SampledFrom([]int{1, 2, 3, 3, 4}).Draw(rt, "n"))
			}
			for i := rapid.IntRange(1, 2).Draw(rt, "messages"); i > 0; i-- {
				c.Msgs = append(c.Msgs, pbt.Scalar(rt, "message"))
			}
			return c
		}, runCommittees)
	pbt.Facet("C35", "rounds", "1 to 6 rounds of 2 to 7 servers over connections with fragmentation, delays and bounded buffers, with the race detector; the memory of a message is written to again as soon as the round is over, and received data at once; non-trivial: connections that are not ideal",
		4000, 100000,
		func(rt *rapid.T) roundCase {
			c := roundCase{N: rapid.IntRange(2, 7).Draw(rt, "n"), Indiv: rapid.SliceOfN(rapid.Bool(), 1, 3).Draw(rt, "individual")}
			for i := rapid.IntRange(0, 4).Draw(rt, "links"); i > 0; i-- {
				l := vnet.Link{Frag: rapid.SliceOfN(rapid.SampledFrom([]int{1, 3, 10, 64}), 0, 2).Draw(rt, "frag"), Eager: rapid.Bool().Draw(rt, "eager"), Cap: rapid.SampledFrom([]int{0, 1, 9, 100}).Draw(rt, "cap")}
				if l.Cap == 0 {
					l.Delay = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 1000, 3000}), 0, 2).Draw(rt, "delay")
				}
				c.Links = append(c.Links, l)
			}
			for i := rapid.IntRange(1, 6).Draw(rt, "rounds"); i > 0; i-- {
				c.Sizes = append(c.Sizes, rapid.SliceOfN(rapid.IntRange(0, 60), 1, 4).Draw(rt, "sizes"))
			}
			return c
		}, runRounds)
}
