// Package vnet is an in-memory network for runs in a synctest bubble: links with generated
// fragmentation, delays, bounded buffers, cuts and interference, in virtual time.
package vnet

import (
	"errors"
	"io"
	"sync"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

// Link describes how data travels on one directed connection.
type Link struct {
	Frag   []int // sizes of the pieces a reader gets, cyclically; empty: as much as fits
	Delay  []int // microseconds before flushed data becomes readable, cyclically
	Cap    int   // bytes that may be under way before a flush blocks; 0: any
	Dial   int   // microseconds before the connection is established
	Refuse int   // times dialling fails first
	Eager  bool  // written data travels without a flush as well
	Broken []int // the first connections that are established break after so many bytes
	Close  int   // closing reports an error: 1 to the dialler, 2 to the accepting process, 3 to both
}

// MaxReadsAfterEnd bounds how often the end of a stream is reported to one reader; further reads block.
const MaxReadsAfterEnd = 2000

var (
	errCut    = errors.New("vnet: connection reset by peer")
	errClosed = errors.New("vnet: use of closed connection")
)

// Net is the network of n processes.
type Net struct {
	mu      sync.Mutex
	n       int
	link    func(from, to int) Link
	accept  []chan *conn
	pipes   [][]*pipe // by dialler and peer
	dialled []Dialled
	Spin    bool // some reader kept reading after the end
	down    bool

	// MaxEndReads is used in place of MaxReadsAfterEnd, if positive.
	MaxEndReads int

	// FailListen is how often listening fails first, by process; nil: never.
	FailListen []int
}

// New returns a network; link configures the connection dialled by from to to.
func New(n int, link func(from, to int) Link) *Net {
	w := &Net{n: n, link: link, accept: make([]chan *conn, n), pipes: make([][]*pipe, n)}
	for i := range w.accept {
		w.accept[i] = make(chan *conn, 4*n+16)
		w.pipes[i] = make([]*pipe, n)
	}
	return w
}

// Server is process pid's end of the network.
func (w *Net) Server(pid int) network.Server {
	return &server{w: w, pid: pid, refused: make([]int, w.n), broken: make([]int, w.n)}
}

type server struct {
	w       *Net
	pid     int
	mu      sync.Mutex
	refused []int
	broken  []int
}

// Down makes everything that would retry block for good, so that a run that does not end is seen as
// a deadlock.
func (w *Net) Down() {
	w.mu.Lock()
	w.down = true
	w.mu.Unlock()
}

func (w *Net) ifDown() {
	w.mu.Lock()
	d := w.down
	w.mu.Unlock()
	if d {
		c := make(chan int)
		<-c
	}
}

func (s *server) Dial(pid uint16) (network.Connection, error) {
	s.w.ifDown()
	if int(pid) >= s.w.n {
		time.Sleep(time.Millisecond)
		return nil, errors.New("vnet: no such process")
	}
	l := s.w.link(s.pid, int(pid))
	if l.Dial > 0 {
		time.Sleep(time.Duration(l.Dial) * time.Microsecond)
	}
	s.mu.Lock()
	r := s.refused[pid] < l.Refuse
	if r {
		s.refused[pid]++
	}
	s.mu.Unlock()
	if r {
		time.Sleep(time.Millisecond)
		return nil, errors.New("vnet: connection refused")
	}
	there, back := newPipe(s.w, l), newPipe(s.w, Link{Eager: true})
	s.mu.Lock()
	k := s.broken[pid]
	s.broken[pid]++
	s.mu.Unlock()
	if k < len(l.Broken) {
		time.Sleep(time.Millisecond)
		(*Pipe)(there).CutAfter(l.Broken[k], k%2 == 1, false)
	}
	s.w.mu.Lock()
	if k >= len(l.Broken) && s.w.pipes[s.pid][pid] == nil {
		s.w.pipes[s.pid][pid] = there
	}
	s.w.dialled = append(s.w.dialled, Dialled{s.pid, int(pid), (*Pipe)(there)})
	s.w.mu.Unlock()
	s.w.accept[pid] <- &conn{in: there, out: back, fails: l.Close&2 > 0}
	return &conn{in: back, out: there, fails: l.Close&1 > 0}, nil
}

func (s *server) Listen() (network.Connection, error) {
	s.w.ifDown()
	s.w.mu.Lock()
	fail := s.pid < len(s.w.FailListen) && s.w.FailListen[s.pid] > 0
	if fail {
		s.w.FailListen[s.pid]--
	}
	s.w.mu.Unlock()
	if fail {
		time.Sleep(time.Millisecond)
		return nil, errors.New("vnet: listening failed")
	}
	c, ok := <-s.w.accept[s.pid]
	if !ok {
		return nil, errClosed
	}
	return c, nil
}

func (s *server) Stop() {}

// Stranger is a connection made by somebody who is not one of the processes.
type Stranger struct{ there, back *pipe }

// Connect makes a connection to a process, over which data arrives.
func (w *Net) Connect(to int, data []byte, ends, reset bool) *Stranger {
	s := &Stranger{newPipe(w, Link{}), newPipe(w, Link{Eager: true})}
	(*Pipe)(s.there).Inject(data)
	if ends {
		(*Pipe)(s.there).End(reset)
	}
	w.accept[to] <- &conn{in: s.there, out: s.back}
	return s
}

// Read tells whether anything was read from the connection.
func (s *Stranger) Read() bool {
	s.there.mu.Lock()
	defer s.there.mu.Unlock()
	return s.there.reads > 0 || s.there.endReads > 0
}

// Closed tells whether the process has closed the connection.
func (s *Stranger) Closed() bool {
	s.there.mu.Lock()
	defer s.there.mu.Unlock()
	return s.there.rclosed
}

// Got is what the process has sent.
func (s *Stranger) Got() int {
	s.back.mu.Lock()
	defer s.back.mu.Unlock()
	return s.back.total
}

// Consumed is how much of what was sent has been read.
func (q *Pipe) Consumed() int {
	p := (*pipe)(q)
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.total - p.inflight
}

// Closed tells whether the reader and the writer have closed the connection.
func (q *Pipe) Closed() (reader, writer bool) {
	p := (*pipe)(q)
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.rclosed, p.wclosed
}

// Dialled is a connection that was established.
type Dialled struct {
	From, To int
	Data     *Pipe
}

// Dialled is all connections that were established, broken ones included.
func (w *Net) Dialled() []Dialled {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]Dialled{}, w.dialled...)
}

// Read tells whether anything was read from the connection.
func (q *Pipe) Read() bool {
	p := (*pipe)(q)
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.reads > 0 || p.endReads > 0
}

// Pipe is the data path of the first connection dialled by from to to, or nil.
func (w *Net) Pipe(from, to int) *Pipe {
	w.mu.Lock()
	defer w.mu.Unlock()
	return (*Pipe)(w.pipes[from][to])
}

// Crash ends everything a process does on the network: what it has flushed is still delivered.
func (w *Net) Crash(pid int) {
	w.mu.Lock()
	var ps, in []*pipe
	for i := range w.pipes {
		if w.pipes[pid][i] != nil {
			ps = append(ps, w.pipes[pid][i])
		}
		if w.pipes[i][pid] != nil {
			in = append(in, w.pipes[i][pid])
		}
	}
	w.mu.Unlock()
	for _, p := range ps {
		p.closeWrite(io.EOF)
	}
	for _, p := range in {
		p.closeRead()
	}
}

// Pipe is one direction of a connection.
type Pipe pipe

type piece struct {
	data []byte
	at   time.Time
}

type pipe struct {
	w         *Net
	mu        sync.Mutex
	cond      *sync.Cond
	cfg       Link
	pending   []byte // written, not flushed
	queue     []piece
	inflight  int
	total     int // bytes flushed so far
	flushes   int
	reads     int
	endReads  int
	end       error // reported to the reader after the queue; nil: open
	wend      error // reported to the writer
	rclosed   bool
	wclosed   bool
	cutAt     int // cut after so many flushed bytes; -1: never
	cutErr    bool
	silent    bool
	record    bool
	written   int
	firstData time.Time
	frames    [][]byte // flushed data by recorded frame
	hold      bool     // flushed data is recorded only, not delivered
}

func newPipe(w *Net, l Link) *pipe {
	p := &pipe{w: w, cfg: l, cutAt: -1}
	p.cond = sync.NewCond(&p.mu)
	return p
}

// CutAfter cuts the connection after n more flushed bytes. The reader then gets EOF, or an error if
// reset is set. The writer gets errors, or none if silent is set: its data disappears.
func (q *Pipe) CutAfter(n int, reset, silent bool) {
	p := (*pipe)(q)
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.cutAt >= 0 {
		return
	}
	p.cutAt, p.cutErr, p.silent = p.total+n, reset, silent
	p.checkCut()
}

func (p *pipe) checkCut() {
	if p.cutAt >= 0 && p.total >= p.cutAt && p.end == nil {
		p.end = io.EOF
		if p.cutErr {
			p.end = errCut
		}
		if !p.silent && p.wend == nil {
			p.wend = errCut
		}
		p.cond.Broadcast()
	}
}

// Hold makes the pipe keep what the writer flushes instead of delivering it.
func (q *Pipe) Hold() {
	p := (*pipe)(q)
	p.mu.Lock()
	defer p.mu.Unlock()
	p.hold, p.record = true, true
	p.frames = append(p.frames, nil)
}

// Record makes the pipe keep what the writer flushes, besides delivering it.
func (q *Pipe) Record() {
	p := (*pipe)(q)
	p.mu.Lock()
	defer p.mu.Unlock()
	p.record = true
	p.frames = append(p.frames, nil)
}

// FirstData tells when the writer first wrote anything beyond the announcement of its id.
func (q *Pipe) FirstData() (time.Time, bool) {
	p := (*pipe)(q)
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.firstData, !p.firstData.IsZero()
}

// NextFrame starts a new recorded frame.
func (q *Pipe) NextFrame() {
	p := (*pipe)(q)
	p.mu.Lock()
	defer p.mu.Unlock()
	p.frames = append(p.frames, nil)
}

// Frames returns what was recorded.
func (q *Pipe) Frames() [][]byte {
	p := (*pipe)(q)
	p.mu.Lock()
	defer p.mu.Unlock()
	r := make([][]byte, len(p.frames))
	for i, f := range p.frames {
		r[i] = append([]byte{}, f...)
	}
	return r
}

// Inject delivers data as if the writer had flushed it, unless the stream has ended.
func (q *Pipe) Inject(data []byte) {
	p := (*pipe)(q)
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.end != nil {
		return
	}
	p.enqueue(append([]byte{}, data...))
}

// End ends the stream for the reader.
func (q *Pipe) End(reset bool) {
	p := (*pipe)(q)
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.end == nil {
		p.end = io.EOF
		if reset {
			p.end = errCut
		}
	}
	p.cond.Broadcast()
}

func (p *pipe) enqueue(b []byte) {
	if len(b) == 0 {
		return
	}
	at := time.Now()
	if n := len(p.cfg.Delay); n > 0 {
		at = at.Add(time.Duration(p.cfg.Delay[p.flushes%n]) * time.Microsecond)
	}
	p.flushes++
	if n := len(p.queue); n > 0 && p.queue[n-1].at.After(at) {
		at = p.queue[n-1].at
	}
	p.queue = append(p.queue, piece{b, at})
	p.inflight += len(b)
	p.cond.Broadcast()
}

func (p *pipe) write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.wend != nil {
		return 0, p.wend
	}
	if p.written += len(b); p.written > 2 && p.firstData.IsZero() {
		p.firstData = time.Now()
	}
	p.pending = append(p.pending, b...)
	if p.cfg.Eager {
		return len(b), p.flushLocked()
	}
	return len(b), nil
}

func (p *pipe) flush() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.flushLocked()
}

func (p *pipe) flushLocked() error {
	for len(p.pending) > 0 {
		if p.wend != nil {
			return p.wend
		}
		if p.silent && p.end != nil { // the data is lost
			p.pending = nil
			return nil
		}
		n := len(p.pending)
		if p.cutAt >= 0 && p.total+n > p.cutAt {
			n = p.cutAt - p.total
		}
		if p.cfg.Cap > 0 && !p.hold {
			for p.inflight >= p.cfg.Cap && p.wend == nil && !p.rclosed {
				p.cond.Wait()
			}
			if p.wend != nil {
				return p.wend
			}
			if n > p.cfg.Cap-p.inflight {
				n = p.cfg.Cap - p.inflight
			}
		}
		b := append([]byte{}, p.pending[:n]...)
		p.pending = p.pending[n:]
		p.total += n
		if p.record {
			if len(p.frames) == 0 {
				p.frames = append(p.frames, nil)
			}
			p.frames[len(p.frames)-1] = append(p.frames[len(p.frames)-1], b...)
		}
		if !p.hold {
			p.enqueue(b)
		}
		p.checkCut()
	}
	p.pending = nil
	return p.wend
}

func (p *pipe) read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.rclosed {
			return 0, p.atEnd(errClosed)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(p.queue) > 0 {
			if d := time.Until(p.queue[0].at); d > 0 {
				p.mu.Unlock()
				time.Sleep(d)
				p.mu.Lock()
				continue
			}
			q := &p.queue[0]
			n := len(q.data)
			if n > len(b) {
				n = len(b)
			}
			if k := len(p.cfg.Frag); k > 0 {
				if f := p.cfg.Frag[p.reads%k]; f > 0 && f < n {
					n = f
				}
			}
			p.reads++
			copy(b, q.data[:n])
			q.data = q.data[n:]
			if len(q.data) == 0 {
				p.queue[0] = piece{}
				p.queue = p.queue[1:]
			}
			p.inflight -= n
			p.cond.Broadcast()
			return n, nil
		}
		if p.end != nil {
			return 0, p.atEnd(p.end)
		}
		p.cond.Wait()
	}
}

func (p *pipe) atEnd(err error) error {
	p.endReads++
	most := MaxReadsAfterEnd
	if p.w.MaxEndReads > 0 {
		most = p.w.MaxEndReads
	}
	if p.endReads > most {
		p.w.mu.Lock()
		p.w.Spin = true
		p.w.mu.Unlock()
		for {
			p.cond.Wait()
		}
	}
	return err
}

func (p *pipe) closeWrite(err error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.wclosed = true
	p.pending = nil
	if p.end == nil {
		p.end = err
	}
	if p.wend == nil {
		p.wend = errClosed
	}
	p.cond.Broadcast()
}

func (p *pipe) closeRead() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.rclosed = true
	if p.wend == nil {
		p.wend = errCut
	}
	p.cond.Broadcast()
}

type conn struct {
	in, out *pipe
	fails   bool // closing reports an error
}

func (c *conn) Read(b []byte) (int, error)  { return c.in.read(b) }
func (c *conn) Write(b []byte) (int, error) { return c.out.write(b) }
func (c *conn) Flush() error                { return c.out.flush() }
func (c *conn) Close() error {
	c.out.closeWrite(io.EOF)
	c.in.closeRead()
	if c.fails {
		return errCut
	}
	return nil
}
func (c *conn) TimeoutAfter(t time.Duration) {
	go func() {
		time.Sleep(t)
		c.Close()
	}()
}
