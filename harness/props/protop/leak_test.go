package protop

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"runtime"
	"strings"
	stdsync "sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	crypto "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"

	"verif.local/harness/internal/arun"
	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/pbt"
)

// ---- C38: operations leave nothing behind

const (
	leakBytes = 8 << 10
	leakPerOp = 32 // allowed for every operation of every party
)

// leakWindows is how often the operations are repeated between two measurements; the first time is for
// warming up. It ends with the first time that nothing grows. What is kept for every operation grows each
// time, whatever it is kept in.
var leakWindows = []int{1, 1, 1, 1, 2, 3, 4}

// leakCost is what an operation costs about, in tenths of a millisecond by party and by pair of parties.
var leakCost = map[string][2]int{"round": {2, 1}, "points": {3, 0}, "commitments": {10, 0}, "proofs": {15, 0}, "combine": {10, 0}, "raise": {0, 10}, "reveal": {0, 10}, "key": {5, 1}, "pair": {9, 1}, "generate": {0, 10}, "reshare": {0, 90}, "multiply": {0, 30}, "sign": {0, 200}}

// leakBudget is what there is for the operations between two measurements.
const leakBudget = 12000

var leakKinds = []string{"round", "generate", "reshare", "multiply", "combine", "raise", "reveal", "key", "pair", "sign", "points", "commitments", "proofs"}

type leakOp struct {
	Kind string
	Size int  // of the messages of a round
	Own  bool // every party is sent another message
	Fail int  // above 0: what is received in this round of it is useless
}

type leakCase struct {
	arun.Base
	Pk   pkCase
	T    int
	Gone int // parties that stop after the set-up
	Ops  []leakOp
	Reps int
}

// repoGoroutines counts the goroutines that run code of the repository or were started by it.
func repoGoroutines() (n int, sample string) {
	buf := make([]byte, 1<<16)
	for {
		k := runtime.Stack(buf, true)
		if k < len(buf) {
			buf = buf[:k]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	for _, g := range strings.Split(string(buf), "\n\n") {
		if pbt.InRepo(g) {
			n++
			sample = g
		}
	}
	return n, sample
}

func heap() int64 {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// leakServer makes messages useless and counts.
type leakServer struct {
	sync.Server
	fail  int // rounds until one fails; below 0: none
	sent  int64
	given bool
}

func (s *leakServer) Round(out [][]byte, check func(uint16, []byte) error) error {
	useless := s.fail == 0
	s.fail--
	for _, m := range out {
		s.sent += int64(len(m))
	}
	return s.Server.Round(out, func(from uint16, data []byte) error {
		if useless {
			s.given = true
			check(from, []byte{0xff})
			return errors.New("useless")
		}
		return check(from, data)
	})
}

// state is what there is before the measurements.
type leakState struct {
	s    *leakServer
	a, b *arith.ADSecret
	x, y *arith.TDSecret
	key  *arith.DKey
	pr   *tecdsa.Protocol
	n    int
}

func (c leakCase) setUp(p *cluster.Party, st *leakState) error {
	pid, n := uint16(p.Pid), uint16(c.N)
	egf := c.Egf()
	var err error
	if st.a, err = arith.Gen("a", st.s, egf, pid, n); err != nil {
		return err
	}
	if st.b, err = arith.Gen("b", st.s, egf, pid, n); err != nil {
		return err
	}
	if st.x, err = st.a.Reshare(uint16(c.T)); err != nil {
		return err
	}
	if st.y, err = st.b.Reshare(uint16(c.T)); err != nil {
		return err
	}
	if st.key, err = arith.GenExpReveal(pid, "k", st.s, n, g); err != nil {
		return err
	}
	for _, o := range c.Ops {
		if o.Kind == "sign" && st.pr == nil {
			if st.pr, err = tecdsa.Init(pid, n, st.s); err != nil {
				return err
			}
		}
	}
	return nil
}

// do runs one operation and drops what it gives.
func (c leakCase) do(o leakOp, p *cluster.Party, st *leakState, k pkey) error {
	pid, n := uint16(p.Pid), uint16(c.N)
	st.n++
	v := big.NewInt(int64(st.n)*1000003 + int64(p.Pid))
	label := fmt.Sprint(st.n)
	var err error
	st.s.fail, st.s.given = o.Fail-1, false
	switch o.Kind {
	case "round":
		out := make([][]byte, 1)
		if o.Own {
			out = make([][]byte, c.N)
		}
		for i := range out {
			out[i] = bytes.Repeat([]byte{byte(st.n)}, o.Size)
		}
		err = st.s.Round(out, func(uint16, []byte) error { return nil })
	case "generate":
		_, err = arith.Gen(label, st.s, c.Egf(), pid, n)
	case "reshare":
		_, err = st.a.Reshare(uint16(c.T))
	case "multiply":
		_, pubs := c.Pk.keys()
		_, err = arith.Mult(st.a, st.b, label, k.priv, k.pub, pubs())
	case "combine":
		arith.Lin(v, new(big.Int).Lsh(v, 200), st.x, st.y, label)
	case "raise":
		_, err = st.x.Exp()
	case "reveal":
		_, err = st.y.Reveal()
	case "key":
		_, err = arith.GenExpReveal(pid, label, st.s, n, g)
	case "pair":
		err = arith.CheckDH(cv.Mul(v), g.Add(arun.Mul(st.key.PublicKey(), v), cv.Mul(big.NewInt(0))), g, st.key)
	case "sign":
		// a presigning and a signing for each of the two parts
		if err = st.pr.Presign(uint16(c.T)); err == nil {
			st.s.fail = -1
			_, err = st.pr.Sign(v)
		}
	case "points":
		q := g.ScalarBaseMult(v)
		q = g.Add(q, g.Neg(g.ScalarMult(q, v)))
		w := &bytes.Buffer{}
		if err = g.Encode(q, w); err == nil {
			_, err = g.Decode(w)
		}
		crypto.HashToBigInt(v.Bytes())
	case "commitments":
		egf := c.Egf()
		e := egf.Create(v, v)
		d := egf.Create(v, big.NewInt(7))
		d.Compose(e, d).Exp(d, v)
		w := &bytes.Buffer{}
		if err = d.Encode(w); err == nil {
			err = egf.Neutral().Decode(w)
		}
	case "proofs":
		egf := c.Egf()
		e := egf.Create(v, v)
		var zk *zkpok.ZKEGKnow
		if zk, err = zkpok.NewZKEGKnow(egf, e, v, v); err == nil {
			err = zk.Verify(egf, e)
		}
	}
	st.s.fail = -1
	if st.s.given || c.Gone > 0 {
		return nil
	}
	return err
}

func runLeak(t *pbt.T, c leakCase) {
	ks, _ := c.Pk.keys()
	cfg := c.Config()
	cfg.NoBaton, cfg.KeepRand, cfg.EndReads = true, false, 1<<20
	base, _ := repoGoroutines()

	var mu stdsync.Mutex
	arrived := 0
	var gate chan int
	// meet runs f once when all parties are there
	meet := func(f func()) {
		mu.Lock()
		if gate == nil {
			gate = make(chan int)
		}
		arrived++
		if arrived < c.N-c.Gone {
			w := gate
			mu.Unlock()
			<-w
			return
		}
		arrived = 0
		w := gate
		gate = nil
		mu.Unlock()
		// what was started has had the time to end
		time.Sleep(time.Minute)
		synctest.Wait()
		f()
		close(w)
	}
	var mem, count []int64
	var left string
	ops, limit := 0, int64(0)
	memOk, countOk := false, false
	sts := make([]*leakState, c.N)
	measure := func() {
		k, s := repoGoroutines()
		if k > base {
			left = s
		}
		mem, count = append(mem, heap()), append(count, int64(k-base))
		if i := len(mem) - 1; i > 0 {
			ops = leakWindows[i] * c.Reps * len(c.Ops)
			limit = int64(leakBytes + leakPerOp*ops*c.N)
			memOk = memOk || mem[i]-mem[i-1] <= limit
			countOk = countOk || count[i] <= count[i-1]
		}
	}
	stopped := -1
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, _ sync.Server) error {
		st := &leakState{s: &leakServer{Server: p.Server(), fail: -1}}
		sts[p.Pid] = st
		if err := c.setUp(p, st); err != nil {
			return fmt.Errorf("set-up: %v", err)
		}
		st.s.sent = 0
		if p.Pid >= c.N-c.Gone {
			p.Crash()
		}
		for _, w := range leakWindows {
			if memOk && countOk {
				break
			}
			for r := 0; r < w*c.Reps; r++ {
				for _, o := range c.Ops {
					if err := c.do(o, p, st, ks[p.Pid]); err != nil {
						return fmt.Errorf("%s: %v", o.Kind, err)
					}
				}
			}
			meet(measure)
		}
		st.s.Stop()
		meet(func() {
			k, s := repoGoroutines()
			if stopped = k - base; stopped > 0 {
				left = s
			}
		})
		return nil
	})
	for _, p := range cl.Parties {
		// the others wait for it in vain
		t.Check(p.Err == nil, "party %d: %v", p.Pid, p.Err)
	}
	cl.Judge(t, hang)
	t.Check(len(mem) > 1, "nothing was measured")
	t.Check(countOk, "after each %d operations more goroutines are left: %v, such as\n%s", c.Reps*len(c.Ops), count, left)
	// parties that have stopped before have not stopped their servers
	t.Check(stopped <= 0 || c.Gone > 0, "%d goroutines are left after all parties have stopped, such as\n%s", stopped, left)
	t.Check(memOk, "after each %d operations by each of %d parties more memory is in use: %v", c.Reps*len(c.Ops), c.N, mem)
	if ops >= 4 {
		t.NonTrivial()
	}
	for _, o := range c.Ops {
		if c.Gone > 0 {
			t.Label("%s without all", o.Kind)
		} else if o.Fail > 0 && c.N > 1 {
			t.Label("failing %s", o.Kind)
		} else {
			t.Label("%s", o.Kind)
		}
	}
	if len(mem) > 2 {
		t.Label("measured %d times", len(mem))
	}
}

func init() {
	pbt.Facet("C38", "operations", "1 to 5 parties repeat 1 to 4 kinds of operations, failing ones among them, on the same secrets and drop what they give, sometimes after other parties have stopped; goroutines and memory are measured again and again, until neither has grown since the time before, and goroutines once more after the servers have been stopped; non-trivial: at least four operations between measurements",
		300, 12000,
		func(rt *rapid.T) leakCase {
			c := leakCase{Base: arun.GenBase(rt, 1, 5, 0)}
			c.Pk = genPk(rt, c.N)
			c.T = rapid.IntRange(1, c.N).Draw(rt, "t")
			if rapid.IntRange(0, 3).Draw(rt, "stopping") == 0 {
				c.Gone = rapid.IntRange(0, c.N-1).Draw(rt, "gone")
			}
			for i := rapid.IntRange(1, 4).Draw(rt, "ops"); i > 0; i-- {
				o := leakOp{Kind: rapid.SampledFrom(leakKinds).Draw(rt, "kind")}
				if o.Kind == "round" {
					o.Size, o.Own = rapid.SampledFrom([]int{0, 10, 1000, 20000}).Draw(rt, "size"), rapid.Bool().Draw(rt, "own")
				}
				if leakCost[o.Kind][1] > 0 && c.Gone == 0 && rapid.IntRange(0, 2).Draw(rt, "fails") == 0 {
					o.Fail = rapid.IntRange(1, 6).Draw(rt, "fail")
				}
				c.Ops = append(c.Ops, o)
			}
			// as often as can be afforded, or less often
			cost := 0
			for _, o := range c.Ops {
				cost += leakCost[o.Kind][0]*c.N + leakCost[o.Kind][1]*c.N*c.N
			}
			most := min(max(leakBudget/cost, 1), 300)
			c.Reps = rapid.OneOf(rapid.Just(most), rapid.IntRange(1, most)).Draw(rt, "reps")
			return c
		}, runLeak)
}
