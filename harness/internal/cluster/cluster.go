// Package cluster runs the parties of a protocol, each with a real sync.Server, over a virtual network
// in virtual time, records every message and check, and injects faults.
package cluster

import (
	"errors"
	"fmt"
	"runtime/debug"
	"strings"
	stdsync "sync"
	"testing/synctest"
	"time"

	"a.local/detrand"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"

	"verif.local/harness/internal/det"
	"verif.local/harness/internal/pbt"
	"verif.local/harness/internal/vnet"
)

// RoundDuration is the duration that the servers are configured with.
const RoundDuration = 900 * time.Millisecond

// Handed is data that a round handed to the check.
type Handed struct {
	From    int
	Data    []byte // as it came from the server
	Given   []byte // as it was passed on after interference
	Err     error  // what the check answered
	Changed bool   // by the interference
}

// Event is one round of one party.
type Event struct {
	Sent    [][]byte // what the party asked to send
	Handed  []Handed
	Err     error
	IsRound bool // Err is a *sync.RoundError
	Missing []int
}

// From returns what was handed over for a sender.
func (e *Event) From(pid int) []Handed {
	var r []Handed
	for _, h := range e.Handed {
		if h.From == pid {
			r = append(r, h)
		}
	}
	return r
}

// To is what the party asked to send to pid.
func (e *Event) To(pid int) []byte {
	if len(e.Sent) == 1 {
		return e.Sent[0]
	}
	if pid < len(e.Sent) {
		return e.Sent[pid]
	}
	return nil
}

// Party is one party of a run.
type Party struct {
	Pid    int
	N      int
	Stream *det.Stream
	Rounds []*Event
	Err    error // what the body returned
	Panic  string
	Failed string // a check of the harness inside the body failed
	Done   bool   // the body has returned, and not because of an injected crash

	c       *Cluster
	srv     sync.Server
	crashAt int
	crashed bool
	aborted bool
	holds   bool
}

// Config describes a run.
type Config struct {
	N        int
	Seed     uint64
	Link     func(from, to int) vnet.Link
	NoBaton  bool           // the parties run concurrently; randomness is then not controlled
	CrashAt  map[int]int    // party crashes before its round with this number
	Prefix   map[int][]byte // first random bytes of a party
	KeepRand bool
	// Start is when the first round starts, after the servers; 0: one second.
	Start time.Duration
	// Wake is when a party begins, after the servers; nil: all after 900 milliseconds.
	Wake func(pid int) time.Duration
	Tune func(p *Party) // adjusts a party's stream of randomness
	// OnRecv changes the data that a check gets; nil changes nothing.
	OnRecv func(me *Party, round, from int, data []byte) []byte
	// OnSend changes what goes out; nil changes nothing. The result has one element per party.
	OnSend func(me *Party, round int, sent [][]byte) [][]byte
	// BeforeRound is called before every round, once the connections stand.
	BeforeRound func(me *Party, round int)
	// Aside is called once the servers have been started, beside everything else; it must end.
	Aside func(c *Cluster)
	// FailListen is how often listening fails first, by party.
	FailListen []int
	// EndReads is how often a party may read after the end of a connection; 0: vnet.MaxReadsAfterEnd.
	EndReads int
	// AfterRound is called after every round.
	AfterRound func(me *Party, round int)
}

// Cluster is a run.
type Cluster struct {
	Config
	Parties   []*Party
	StartTime time.Time
	Net       *vnet.Net
	baton     chan struct{}
	mu        stdsync.Mutex
	cur       *Party
	stray     *det.Stream
}

type crash struct{}

// Hang is how a run that does not end is reported.
type Hang struct{ What string }

// Run runs body for every party. hang is not empty if the run did not end.
func Run(cfg Config, body func(p *Party, server sync.Server) error) (c *Cluster, hang string) {
	c = &Cluster{Config: cfg}
	if !detrand.Installed() {
		pbt.Abort("crypto/rand.Reader was replaced by the code under test")
	}
	ended := false
	var root string
	func() {
		defer func() {
			if e := recover(); e != nil {
				s := fmt.Sprint(e)
				if strings.Contains(s, "deadlock") {
					if !ended {
						hang = "the parties wait for ever: " + s
					}
					return
				}
				panic(e)
			}
		}()
		synctest.Test(pbt.TestingT(), func(t *pbt.TT) {
			// a panic here would end the test, not only the case
			defer func() {
				if e := recover(); e != nil {
					root = fmt.Sprintf("%v\n%s", e, debug.Stack())
				}
			}()
			if h := c.main(body); h != "" {
				hang = h
			}
			ended = true
		})
	}()
	detrand.Set(nil)
	if root != "" {
		pbt.Abort("panic in the cluster: %s", root)
	}
	return c, hang
}

func (c *Cluster) main(body func(p *Party, server sync.Server) error) string {
	link := c.Link
	if link == nil {
		link = func(from, to int) vnet.Link { return vnet.Link{} }
	}
	c.Net = vnet.New(c.N, link)
	c.Net.MaxEndReads = c.EndReads
	c.Net.FailListen = append([]int{}, c.FailListen...)
	c.baton = make(chan struct{}, 1)
	c.baton <- struct{}{}
	if !c.NoBaton {
		detrand.Set(reader{c})
	}
	if c.Start == 0 {
		c.Start = time.Second
	}
	start := time.Now().Add(c.Start)
	c.StartTime = start
	for i := 0; i < c.N; i++ {
		p := &Party{Pid: i, N: c.N, c: c, crashAt: -1}
		p.Stream = det.New(c.Seed*1000003+uint64(i)*7919+1, c.Prefix[i])
		p.Stream.Keep = c.KeepRand
		if c.Tune != nil {
			c.Tune(p)
		}
		if k, ok := c.CrashAt[i]; ok {
			p.crashAt = k
		}
		p.srv = sync.NewServer(uint16(i), uint16(c.N), start, RoundDuration, c.Net.Server(i))
		c.Parties = append(c.Parties, p)
	}
	done := make(chan struct{})
	var wg stdsync.WaitGroup
	for _, p := range c.Parties {
		p.srv.Start()
	}
	if c.Aside != nil {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Aside(c)
		}()
	}
	for _, p := range c.Parties {
		wg.Add(1)
		go func(p *Party) {
			defer wg.Done()
			p.run(body)
		}(p)
	}
	go func() { wg.Wait(); close(done) }()
	hang := ""
	select {
	case <-done:
	case <-time.After(10 * time.Hour):
		hang = "the parties have not ended after 10 hours of virtual time"
	}
	c.Net.Down()
	for i := range c.Parties {
		c.Net.Crash(i)
	}
	return hang
}

type reader struct{ c *Cluster }

func (r reader) Read(b []byte) (int, error) {
	r.c.mu.Lock()
	defer r.c.mu.Unlock()
	if r.c.cur == nil {
		// read outside of every party's turn, as by a goroutine left running
		if r.c.stray == nil {
			r.c.stray = det.New(r.c.Seed^0x7374726179, nil)
		}
		return r.c.stray.Read(b)
	}
	return r.c.cur.Stream.Read(b)
}

func (c *Cluster) take(p *Party) {
	if c.NoBaton {
		return
	}
	<-c.baton
	c.mu.Lock()
	c.cur = p
	c.mu.Unlock()
	p.holds = true
}

func (c *Cluster) release(p *Party) {
	if c.NoBaton || !p.holds {
		return
	}
	p.holds = false
	c.mu.Lock()
	c.cur = nil
	c.mu.Unlock()
	c.baton <- struct{}{}
}

func (p *Party) run(body func(p *Party, server sync.Server) error) {
	// the connections of all parties are made before anything can fail
	d := 900 * time.Millisecond
	if p.c.Wake != nil {
		d = p.c.Wake(p.Pid)
	}
	time.Sleep(d)
	p.c.take(p)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(crash); ok {
					p.crashed = true
					return
				}
				if msg, fail, abort := pbt.FailMessage(e); fail || abort {
					p.Failed, p.aborted = msg, abort
					return
				}
				p.Panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		p.Err = body(p, &tap{p})
		p.Done = true
	}()
	p.c.release(p)
	if p.crashed || p.Panic != "" || p.Failed != "" || p.Err != nil {
		p.c.Net.Crash(p.Pid)
	}
}

// Crash ends the party at once; to be called from its own body.
func (p *Party) Crash() { panic(crash{}) }

// Cluster is the run the party belongs to.
func (p *Party) Cluster() *Cluster { return p.c }

// Server is the party's own server, without recording or interference.
func (p *Party) Server() sync.Server { return p.srv }

// Last is the latest round.
func (p *Party) Last() *Event { return p.Rounds[len(p.Rounds)-1] }

type tap struct{ p *Party }

func (t *tap) Start() {}
func (t *tap) Stop()  {}

func clone(b []byte) []byte { return append([]byte{}, b...) }

func (t *tap) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	p := t.p
	k := len(p.Rounds)
	if k == p.crashAt {
		panic(crash{})
	}
	ev := &Event{}
	for _, m := range toSend {
		ev.Sent = append(ev.Sent, clone(m))
	}
	p.c.mu.Lock()
	p.Rounds = append(p.Rounds, ev)
	p.c.mu.Unlock()
	out := toSend
	if p.c.OnSend != nil {
		full := make([][]byte, p.N)
		for i := range full {
			full[i] = clone(ev.To(i))
		}
		if o := p.c.OnSend(p, k, full); o != nil {
			out = o
		}
	}
	if p.c.BeforeRound != nil {
		p.c.BeforeRound(p, k)
	}
	p.c.release(p)
	err := p.srv.Round(out, func(from uint16, data []byte) error {
		p.c.take(p)
		defer p.c.release(p)
		h := Handed{From: int(from), Data: clone(data)}
		given := data
		if p.c.OnRecv != nil {
			if d := p.c.OnRecv(p, k, int(from), clone(data)); d != nil {
				given = d
				h.Changed = string(d) != string(data)
			}
		}
		h.Given = clone(given)
		// the entry stays if the check panics
		ev.Handed = append(ev.Handed, h)
		i := len(ev.Handed) - 1
		ev.Handed[i].Err = errors.New("the check has not answered")
		e := check(from, given)
		ev.Handed[i].Err = e
		return e
	})
	p.c.take(p)
	ev.Err = err
	var re *sync.RoundError
	if errors.As(err, &re) {
		ev.IsRound = true
		for _, m := range re.Missing() {
			ev.Missing = append(ev.Missing, int(m))
		}
	}
	if p.c.AfterRound != nil {
		p.c.AfterRound(p, k)
	}
	return err
}

// SentOf is what party from asked to send to party to in a round, or nil. It may be called by checks of
// the same round.
func (c *Cluster) SentOf(from, to, round int) []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	p := c.Parties[from]
	if round >= len(p.Rounds) {
		return nil
	}
	return p.Rounds[round].To(to)
}

// Judge fails the case for everything that is wrong in any run: a hang or a panic of the code under
// test.
func (c *Cluster) Judge(t *pbt.T, hang string) {
	for _, p := range c.Parties {
		if p.Failed != "" {
			if p.aborted {
				pbt.Abort("party %d: %s", p.Pid, p.Failed)
			}
			t.Failf("party %d: %s", p.Pid, p.Failed)
		}
		if p.Panic != "" {
			if pbt.InRepo(p.Panic) {
				t.Failf("party %d panics: %s", p.Pid, p.Panic)
			}
			pbt.Abort("panic in the harness, party %d: %s", p.Pid, p.Panic)
		}
	}
	if hang != "" {
		t.Failf("hang: %s", hang)
	}
	if c.Net.Spin {
		t.Failf("a party keeps reading after the end of a connection")
	}
}
