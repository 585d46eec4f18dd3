package cmdp

import (
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	stdsync "sync"
	"time"

	"github.com/rs/zerolog"
	"pgregory.net/rapid"

	"gitlab.com/alephledger/core-go/pkg/network"
	"gitlab.com/alephledger/core-go/pkg/network/tcp"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"

	"verif.local/harness/internal/pbt"
)

// ---- C39: the options of the programs

// option is how an option is given: the text, or "-" if it is left out.
type option = string

// committeeIn writes the files of a small committee.
func committeeIn(dir string, n int) (addrs []string) {
	var lines string
	for i := 0; i < n; i++ {
		addrs = append(addrs, fmt.Sprintf("h%d:%d", i, i+1))
		lines += "Iw==|" + addrs[i] + "\n"
		b := append(append(comp([]byte{35}), comp([]byte{12})...), comp([]byte{24})...)
		write(filepath.Join(dir, strconv.Itoa(i)+".pk"), []byte(base64.StdEncoding.EncodeToString(b)+" "+strconv.Itoa(i)+"\n"))
	}
	write(filepath.Join(dir, "keys_addrs"), []byte(lines))
	return addrs
}

// sockets is a directory for sockets, which the case removes.
func sockets() (string, func()) {
	d, err := os.MkdirTemp("", "v")
	if err != nil {
		pbt.Abort("%v", err)
	}
	if err := os.Setenv("VERIF_TCP_DIR", d); err != nil {
		pbt.Abort("%v", err)
	}
	return d, func() {
		os.Unsetenv("VERIF_TCP_DIR")
		os.RemoveAll(d)
	}
}

func unixDate(at time.Time) string {
	return strings.ReplaceAll(at.UTC().Format(time.UnixDate), " ", "-")
}

// dumb is a party that connects and then only listens.
type dumb struct {
	mu   stdsync.Mutex
	got  int // bytes
	stop chan int
	wg   stdsync.WaitGroup
	srv  network.Server
}

func newDumb(pid, to int, addrs []string) *dumb {
	srv, err := tcp.NewServer(addrs[pid], addrs, zerolog.Nop())
	if err != nil {
		pbt.Abort("a party cannot listen: %v", err)
	}
	d := &dumb{srv: srv, stop: make(chan int)}
	stopped := func() bool {
		select {
		case <-d.stop:
			return true
		default:
			return false
		}
	}
	d.wg.Add(2)
	go func() {
		defer d.wg.Done()
		for !stopped() {
			c, err := srv.Listen()
			if err != nil {
				continue
			}
			go func() {
				<-d.stop
				c.Close()
			}()
			d.wg.Add(1)
			go func() {
				defer d.wg.Done()
				b := make([]byte, 100)
				for {
					n, err := c.Read(b)
					d.mu.Lock()
					d.got += n
					d.mu.Unlock()
					if err != nil {
						return
					}
				}
			}()
		}
	}()
	go func() {
		defer d.wg.Done()
		for !stopped() {
			c, err := srv.Dial(uint16(to))
			if err != nil {
				continue
			}
			c.Write([]byte{byte(pid), 0})
			c.Flush()
			<-d.stop
			c.Close()
		}
	}()
	return d
}

func (d *dumb) end() int {
	close(d.stop)
	d.srv.Stop()
	d.wg.Wait()
	return d.got
}

type refuseCase struct {
	N, Pid            int
	Bad               string // what is wrong
	Start             option
	Duration, Sigs, T option
	More              []string // further arguments
	Past              int      // above 0: a good time, so many seconds ago
}

func (c refuseCase) args(dir string) (a []string) {
	a = []string{"-pk", filepath.Join(dir, strconv.Itoa(c.Pid)+".pk"), "-keys_addrs", filepath.Join(dir, "keys_addrs")}
	start := c.Start
	switch {
	case c.Past > 0:
		start = unixDate(time.Now().Add(-time.Duration(c.Past) * time.Second))
	case start == "later":
		start = unixDate(time.Now().Add(time.Hour))
	}
	for _, o := range []struct{ name, text string }{{"-startTime", start}, {"-roundDuration", c.Duration}, {"-sigNumber", c.Sigs}, {"-threshold", c.T}} {
		if o.text != "-" {
			a = append(a, o.name, o.text)
		}
	}
	return append(a, c.More...)
}

func runRefuse(t *pbt.T, c refuseCase) {
	t.Label("%s", c.Bad)
	t.NonTrivial()
	dir, done := scratch()
	defer done()
	socks, unset := sockets()
	defer unset()
	addrs := committeeIn(dir, c.N)
	var others []*dumb
	for i := 0; i < c.N; i++ {
		if i != c.Pid {
			others = append(others, newDumb(i, c.Pid, addrs))
		}
	}
	args := c.args(dir)
	out, code := start(t, dir, []string{"VERIF_TCP_DIR=" + socks}, 30*time.Second, "tecdsa", args...)
	sent := 0
	for _, d := range others {
		// the id is sent once connections are made
		sent += max(d.end()-2, 0)
	}
	l, _ := os.ReadFile(filepath.Join(dir, "aleph.log"))
	out += string(l)
	t.Check(code != -1, "%v: the program does not stop for %s: %s", args[4:], c.Bad, out)
	t.Check(!panics(out) && !(code == 2 && strings.Contains(out, "goroutine")), "%v: the program panics for %s: %s", args[4:], c.Bad, out)
	t.Check(strings.TrimSpace(out) != "", "%v: the program stops without a message for %s (exit code %d)", args[4:], c.Bad, code)
	t.Check(sent == 0, "%v: the program sends %d bytes to the others with %s", args[4:], sent, c.Bad)
}

func genRefuse(rt *rapid.T) refuseCase {
	c := refuseCase{N: rapid.IntRange(2, 4).Draw(rt, "n"), Start: "later", Duration: rapid.SampledFrom([]string{"1s", "900ms", "1m0.5s", "2h"}).Draw(rt, "duration"), Sigs: rapid.SampledFrom([]string{"-", "1", "2", "1000000"}).Draw(rt, "sigs")}
	c.Pid = rapid.IntRange(0, c.N-1).Draw(rt, "pid")
	c.T = rapid.SampledFrom([]string{"-", "1", strconv.Itoa(c.N)}).Draw(rt, "t")
	junk := rapid.SampledFrom([]string{"", "x", "one", "1.5", "1e3", "0x", "--", " 1", "1 ", "+", "99999999999999999999", "9223372036854775808", "-9223372036854775809", "\u0663", "1,0"})
	bad := rapid.IntRange(0, 4).Draw(rt, "bad")
	switch bad {
	case 0:
		good := unixDate(time.Date(2100, time.Month(rapid.IntRange(1, 12).Draw(rt, "month")), rapid.IntRange(1, 28).Draw(rt, "day"), 12, 30, 0, 0, time.UTC))
		c.Bad = "a malformed time"
		switch rapid.IntRange(0, 4).Draw(rt, "time") {
		case 0:
			c.Start = rapid.SampledFrom([]string{"-", "", "now", "0", "12:30", "tomorrow", "Mon", "4102444800", "2100-01-01T00:00:00Z", "2100-01-01", "01/01/2100", "Fri-Jan--1-24:00:00-UTC-2100", "Fri-Jan--1-00:60:00-UTC-2100", "Mon-Feb-30-00:00:00-UTC-2100", "Fri-Jan-32-00:00:00-UTC-2100", "Fri-Foo--1-00:00:00-UTC-2100", "Fri-Jan--1-00:00:00-2100", "Fri-Jan--1-00:00-UTC-2100", "Fri Jan  1 00:00:00 2100", "Fri, 01 Jan 2100 00:00:00 UTC"}).Draw(rt, "text")
		case 1:
			c.Start = good[:rapid.IntRange(0, len(good)-1).Draw(rt, "cut")]
		case 2:
			c.Start = good + rapid.SampledFrom([]string{"0", "x", ".5", "-", "-UTC", "\n"}).Draw(rt, "more")
		case 3:
			i := rapid.IntRange(0, len(good)-1).Draw(rt, "at")
			c.Start = good[:i] + rapid.SampledFrom([]string{"!", "_", "\x01", "ä"}).Draw(rt, "char") + good[i+1:]
		case 4:
			c.Past, c.Bad = rapid.SampledFrom([]int{1, 2, 10, 60, 3600, 86400, 1e9}).Draw(rt, "past"), "a time that has passed"
		}
	case 1:
		c.Duration, c.Bad = rapid.SampledFrom([]string{"-", "", "x", "1", "1.5", "s", "1 s", "1sec", "1d", "one second", "--1s", "1s1", "1;s", "99999999999h", "1S", "0x1s"}).Draw(rt, "text"), "a malformed duration"
	case 2:
		c.Bad = "a malformed or impossible number of signatures"
		c.Sigs = rapid.OneOf(junk, rapid.SampledFrom([]string{"0", "-1", "-2", "-0", "00", "-65535", "-4294967295", "-9223372036854775808"})).Draw(rt, "text")
	case 3:
		c.Bad = "a malformed or impossible threshold"
		n := c.N
		c.T = rapid.OneOf(junk, rapid.SampledFrom([]string{"0", "-1", "-0", strconv.Itoa(-n), strconv.Itoa(n + 1), strconv.Itoa(2 * n), "255", "256", "257", "65535", "65536", "65537", strconv.Itoa(65536 + n), "131073", "-65535", "-65534", "4294967296", "4294967297", "4294967298", "9223372036854775807", "-9223372036854775807"})).Draw(rt, "text")
	case 4:
		c.Bad = "an option that does not exist"
		c.More = rapid.SampledFrom([][]string{{"-signatures", "2"}, {"-t", "2"}, {"--thresholds=2"}, {"-sigNumber"}, {"-threshold"}, {"-startTime"}, {"-=1"}, {"---x"}}).Draw(rt, "more")
	}
	return c
}

// ---- good options: the program works with others, which are simulated

type workCase struct {
	N, Pid, T, Sigs int
	NoT, NoSigs     bool // the options are left out, where they are 1
	Spaces          bool // the time is given with spaces
	Order           int
	Secret          uint64 `json:",omitempty"` // seed of the keys, whose secrets must not be given away; 0: tiny keys
}

// watch is a network that tells when the program connected and first sent data.
type watch struct {
	network.Server
	pid  uint16 // of the program
	keep bool   // what is received
	mu   stdsync.Mutex
	in   time.Time // last time that something connected
	at   time.Time // first data
	got  []*watched
}

type watched struct {
	network.Connection
	w    *watch
	seen int
	id   [2]byte
	all  []byte // if it is kept
	keep bool
}

func (c *watched) Read(b []byte) (int, error) {
	n, err := c.Connection.Read(b)
	for i := 0; i < n; i++ {
		if c.seen < 2 {
			c.id[c.seen] = b[i]
		}
		c.seen++
	}
	if c.keep && n > 0 {
		c.w.mu.Lock()
		c.all = append(c.all, b[:n]...)
		c.w.mu.Unlock()
	}
	if c.seen > 2 && int(c.id[0])+256*int(c.id[1]) == int(c.w.pid) {
		c.w.mu.Lock()
		if c.w.at.IsZero() {
			c.w.at = time.Now()
		}
		c.w.mu.Unlock()
	}
	return n, err
}

func (w *watch) made() {
	w.mu.Lock()
	w.in = time.Now()
	w.mu.Unlock()
}

func (w *watch) Listen() (network.Connection, error) {
	c, err := w.Server.Listen()
	if err != nil {
		return nil, err
	}
	w.made()
	wc := &watched{Connection: c, w: w, keep: w.keep}
	w.mu.Lock()
	w.got = append(w.got, wc)
	w.mu.Unlock()
	return wc, nil
}

func (w *watch) Dial(pid uint16) (network.Connection, error) {
	c, err := w.Server.Dial(pid)
	if err == nil {
		w.made()
	}
	return c, err
}

func runWork(t *pbt.T, c workCase) {
	var lags []string
	for try := 0; try < 3; try++ {
		if c.attempt(t, 2+4*try, &lags) {
			t.NonTrivial()
			return
		}
	}
	// otherwise it takes no more than some milliseconds
	t.Check(len(lags) < 3, "the program begins late three times, after %v", lags)
	t.Label("too busy: not decided")
}

// attempt returns false if the machine was too slow for the starting time.
func (c workCase) attempt(t *pbt.T, delay int, lags *[]string) bool {
	dir, done := scratch()
	defer done()
	socks, unset := sockets()
	defer unset()
	addrs := committeeIn(dir, c.N)
	var tell []secret
	if c.Secret != 0 {
		addrs, tell = secretCommittee(dir, c.N, c.Pid, c.Secret)
	}
	begin := time.Now().Add(time.Duration(delay) * time.Second).Truncate(time.Second)
	at := unixDate(begin)
	if c.Spaces {
		at = strings.ReplaceAll(at, "-", " ")
	}
	opts := [][]string{{"-pk", filepath.Join(dir, strconv.Itoa(c.Pid)+".pk")}, {"-keys_addrs", filepath.Join(dir, "keys_addrs")}, {"-startTime", at}, {"-roundDuration", "60s"}}
	if !c.NoSigs || c.Sigs != 1 {
		opts = append(opts, []string{"-sigNumber", strconv.Itoa(c.Sigs)})
	}
	if !c.NoT || c.T != 1 {
		opts = append(opts, []string{"-threshold", strconv.Itoa(c.T)})
	}
	var args []string
	for i := range opts {
		args = append(args, opts[(i+c.Order)%len(opts)]...)
	}
	type peer struct {
		w     *watch
		err   error
		what  string
		after error
	}
	peers := make([]*peer, c.N)
	end := make(chan int, c.N)
	for i := range peers {
		if i == c.Pid {
			continue
		}
		n, err := tcp.NewServer(addrs[i], addrs, zerolog.Nop())
		if err != nil {
			pbt.Abort("a party cannot listen: %v", err)
		}
		defer n.Stop()
		p := &peer{w: &watch{Server: n, pid: uint16(c.Pid), keep: c.Secret != 0}}
		peers[i] = p
		s := sync.NewServer(uint16(i), uint16(c.N), begin, time.Minute, p.w)
		s.Start()
		go func(i int) {
			defer func() { end <- i }()
			do := func(what string, f func() error) {
				if p.err == nil {
					p.what, p.err = what, f()
				}
			}
			var pr *tecdsa.Protocol
			do("the initialisation", func() (err error) {
				pr, err = tecdsa.Init(uint16(i), uint16(c.N), s)
				return err
			})
			for k := 0; k < c.Sigs; k++ {
				do(fmt.Sprintf("presigning %d", k), func() error { return pr.Presign(uint16(c.T)) })
			}
			for k := 0; k < c.Sigs; k++ {
				do(fmt.Sprintf("signature %d", k), func() error {
					_, err := pr.Sign(big.NewInt(int64(k)))
					return err
				})
			}
			if p.err == nil {
				// another round finds all but the program
				p.after = s.Round([][]byte{{1}}, func(uint16, []byte) error { return nil })
			}
			go s.Stop()
		}(i)
	}
	var out string
	code := 0
	over := make(chan int)
	go func() {
		out, code = start(t, dir, []string{"VERIF_TCP_DIR=" + socks, "TZ=UTC"}, 60*time.Second, "tecdsa", args...)
		l, _ := os.ReadFile(filepath.Join(dir, "aleph.log"))
		out += string(l)
		close(over)
	}()
	<-over
	// the others see at once that the program has ended
	left := c.N - 1
	late := time.After(20 * time.Second)
wait:
	for left > 0 {
		select {
		case <-end:
			left--
		case <-late:
			break wait
		}
	}
	t.Check(!panics(out), "%v: the program panics: %s", args, out)
	var first, last time.Time
	for _, p := range peers {
		if p == nil {
			continue
		}
		p.w.mu.Lock()
		if p.w.in.After(last) {
			last = p.w.in
		}
		if first.IsZero() || !p.w.at.IsZero() && p.w.at.Before(first) {
			first = p.w.at
		}
		p.w.mu.Unlock()
	}
	if first.IsZero() && left > 0 && code != -1 {
		// the program has ended without connecting: the others are released
		for i := range peers {
			if i != c.Pid {
				release(socks, addrs, c.Pid, i)
			}
		}
	}
	if c.Secret != 0 {
		kept(t, tell, "the output of the program", []byte(out))
		files(t, tell, dir, strconv.Itoa(c.Pid)+".pk")
		for i, p := range peers {
			if p == nil {
				continue
			}
			p.w.mu.Lock()
			for _, g := range p.w.got {
				kept(t, tell, fmt.Sprintf("what party %d receives", i), g.all)
			}
			p.w.mu.Unlock()
		}
		return code == 0 && !first.IsZero()
	}
	if last.After(begin.Add(-700 * time.Millisecond)) {
		return false
	}
	t.Check(!first.IsZero(), "%v: the program sends nothing (exit code %d): %s", args, code, out)
	t.Check(!first.Before(begin), "%v: the program sends data at %v, before %v: %s", args, first.UTC(), begin.UTC(), out)
	if lag := first.Sub(begin); lag > 800*time.Millisecond {
		*lags = append(*lags, lag.String())
		return false
	}
	if left > 0 || code == -1 && time.Since(begin) > 40*time.Second && first.Sub(begin) > 20*time.Second {
		return false
	}
	for i, p := range peers {
		if p == nil {
			continue
		}
		t.Check(p.err == nil, "%v: party %d of %d has an error in %s, with threshold %d and %d signatures: %v\nexit code %d of the program: %s", args, i, c.N, p.what, c.T, c.Sigs, p.err, code, out)
		var re *sync.RoundError
		missing := false
		if errors.As(p.after, &re) {
			for _, m := range re.Missing() {
				missing = missing || int(m) == c.Pid
			}
		}
		t.Check(missing, "%v: the program takes part in a further round after %d signatures: %v\n%s", args, c.Sigs, p.after, out)
	}
	t.Check(code == 0, "%v: the program ends with code %d: %s", args, code, out)
	return true
}

// ---- good options with a start in the future: the program connects and waits

type waitCase struct {
	N, Pid            int
	Ahead             int // seconds, at least
	Month, Day        int // if positive, the next such day after that
	Spaces            bool
	Duration, Sigs, T option
}

func runWait(t *pbt.T, c waitCase) {
	t.NonTrivial()
	dir, done := scratch()
	defer done()
	socks, unset := sockets()
	defer unset()
	addrs := committeeIn(dir, c.N)
	var others []*dumb
	for i := 0; i < c.N; i++ {
		if i != c.Pid {
			others = append(others, newDumb(i, c.Pid, addrs))
		}
	}
	at := time.Now().UTC().Add(time.Duration(c.Ahead) * time.Second)
	if c.Month > 0 {
		at = time.Date(at.Year()+1, time.Month(c.Month), c.Day, at.Hour(), at.Minute(), at.Second(), 0, time.UTC)
	}
	if at.Day() < 10 {
		t.Label("one digit")
	}
	r := refuseCase{Pid: c.Pid, Start: unixDate(at), Duration: c.Duration, Sigs: c.Sigs, T: c.T}
	if c.Spaces {
		r.Start = strings.ReplaceAll(r.Start, "-", " ")
	}
	args := r.args(dir)
	var out string
	code := 0
	kill := make(chan int)
	over := make(chan int)
	go func() {
		defer close(over)
		out, code = startUntil(t, dir, []string{"VERIF_TCP_DIR=" + socks}, kill, "tecdsa", args...)
	}()
	connected := func() bool {
		for _, d := range others {
			d.mu.Lock()
			got := d.got
			d.mu.Unlock()
			if got < 2 {
				return false
			}
		}
		return true
	}
	limit := time.After(30 * time.Second)
	made := false
wait:
	for !made {
		select {
		case <-over:
			break wait
		case <-limit:
			break wait
		case <-time.After(2 * time.Millisecond):
			made = connected()
		}
	}
	if made {
		select {
		case <-over:
		case <-time.After(100 * time.Millisecond):
		}
	}
	close(kill)
	<-over
	sent := 0
	for _, d := range others {
		sent += max(d.end()-2, 0)
	}
	l, _ := os.ReadFile(filepath.Join(dir, "aleph.log"))
	out += string(l)
	t.Check(!panics(out), "%v: the program panics: %s", args[4:], out)
	t.Check(code == -1, "%v: the program ends with code %d, although the options are good: %s", args[4:], code, out)
	t.Check(made, "%v: the program does not connect to the others: %s", args[4:], out)
	t.Check(sent == 0, "%v: the program sends %d bytes before the start: %s", args[4:], sent, out)
}

func genWait(rt *rapid.T) waitCase {
	c := waitCase{N: rapid.IntRange(2, 5).Draw(rt, "n")}
	c.Pid = rapid.IntRange(0, c.N-1).Draw(rt, "pid")
	c.Ahead = rapid.SampledFrom([]int{90, 300, 3600, 43200, 86400, 10 * 86400, 400 * 86400, 9000 * 86400, 50000 * 86400}).Draw(rt, "ahead") + rapid.IntRange(0, 4000).Draw(rt, "seconds")
	if rapid.Bool().Draw(rt, "date") {
		c.Month, c.Day = rapid.IntRange(1, 12).Draw(rt, "month"), rapid.IntRange(1, 28).Draw(rt, "day")
	}
	c.Spaces = rapid.Bool().Draw(rt, "spaces")
	c.Duration = rapid.SampledFrom([]string{"1s", "5s", "900ms", "1m", "1m30s", "0.5s", "2h", "1.5h", "250000us", "+3s"}).Draw(rt, "duration")
	c.Sigs = rapid.SampledFrom([]string{"-", "1", "2", "10", "100", "65535", "65536", "1000000", "2147483647", "4294967296"}).Draw(rt, "sigs")
	c.T = rapid.SampledFrom([]string{"-", "1", "2", strconv.Itoa(c.N)}).Draw(rt, "t")
	return c
}

// release makes the connections in place of a program that has ended, so that nobody waits for them.
func release(socks string, addrs []string, pid, to int) {
	srv, err := tcp.NewServer(addrs[pid]+"x", addrs, zerolog.Nop())
	if err != nil {
		return
	}
	defer srv.Stop()
	if c, err := srv.Dial(uint16(to)); err == nil {
		c.Write([]byte{byte(pid), byte(pid >> 8)})
		c.Flush()
		c.Close()
	}
}

// ---- the generation of keys

type keysCase struct {
	Bad   string
	Args  []string
	Lines []string // of the file of addresses
	N     int      // number of lines at least; further ones are made up
	Block string   // this name is a directory already
	Fail  bool     // making keys fails
}

func runGenRefuse(t *pbt.T, c keysCase) {
	t.NonTrivial()
	t.Label("%s", c.Bad)
	dir, done := scratch()
	defer done()
	lines := append([]string{}, c.Lines...)
	for len(lines) < c.N {
		lines = append(lines, fmt.Sprintf("h%d:1", len(lines)))
	}
	s := strings.Join(lines, "\n")
	write(filepath.Join(dir, "addresses"), []byte(s))
	if c.Block != "" {
		if err := os.Mkdir(filepath.Join(dir, c.Block), 0o700); err != nil {
			pbt.Abort("%v", err)
		}
	}
	env := "VERIF_PAILLIER=7:264"
	if c.Fail {
		env = "VERIF_PAILLIER=fail"
	}
	out, code := start(t, dir, []string{env}, 60*time.Second, "gen_keys", c.Args...)
	t.Check(code != -1, "gen_keys %q: the program does not stop for %s: %s", c.Args, c.Bad, out)
	t.Check(!panics(out), "gen_keys %q: the program panics for %s: %s", c.Args, c.Bad, out)
	t.Check(strings.TrimSpace(out) != "", "gen_keys %q: no message for %s (exit code %d)", c.Args, c.Bad, code)
	if f, err := os.Open(filepath.Join(dir, "keys_addrs")); err == nil {
		defer f.Close()
		b, _ := io.ReadAll(f)
		t.Check(len(b) == 0, "gen_keys %q: a committee is written in spite of %s: %.200s", c.Args, c.Bad, b)
	}
}

func genGenRefuse(rt *rapid.T) keysCase {
	n := rapid.IntRange(2, 6).Draw(rt, "n")
	c := keysCase{Args: []string{strconv.Itoa(n)}}
	file := rapid.Bool().Draw(rt, "file")
	if file {
		c.Args = append(c.Args, "addresses")
	}
	c.N = n
	switch rapid.IntRange(0, 5).Draw(rt, "bad") {
	case 0:
		c.Bad = "a malformed number"
		c.Args[0] = rapid.SampledFrom([]string{"", "x", "2.0", "1e1", "0x2", "two", " 2", "2 ", "99999999999999999999", "-99999999999999999999", "2,", "\u0662"}).Draw(rt, "text")
	case 1:
		c.Bad = "a number below 2"
		c.Args[0] = rapid.SampledFrom([]string{"0", "1", "-1", "-2", "-0", "+1", "-65534", "-9223372036854775808"}).Draw(rt, "text")
	case 2:
		c.Bad = "wrong arguments"
		c.Args = rapid.SampledFrom([][]string{{}, {"2", "addresses", "x"}, {"2", "nothing"}, {"2", "."}, {"2", ""}, {"2", "nothing/addresses"}}).Draw(rt, "args")
	case 3:
		c.Bad = "too few addresses"
		c.Args = []string{strconv.Itoa(n), "addresses"}
		c.N = 0
		for i := rapid.IntRange(0, n-1).Draw(rt, "lines"); i > 0; i-- {
			c.Lines = append(c.Lines, address(rt))
		}
		for i := rapid.IntRange(0, 2).Draw(rt, "empty"); i > 0; i-- {
			// empty lines are no addresses
			at := rapid.IntRange(0, len(c.Lines)).Draw(rt, "at")
			c.Lines = append(c.Lines[:at:at], append([]string{""}, c.Lines[at:]...)...)
		}
	case 4:
		c.Bad = "a file that cannot be written"
		c.Block = rapid.SampledFrom([]string{"keys_addrs", "0.pk", strconv.Itoa(n-1) + ".pk"}).Draw(rt, "block")
	case 5:
		c.Bad = "keys that cannot be made"
		c.Fail = true
	}
	return c
}

func init() {
	pbt.Facet("C39", "refused", "the signing program with one option that is malformed, missing or impossible for the committee, while the other parties wait for it: it ends with a message, sends nothing, does not panic; non-trivial: always",
		1200, 40000, genRefuse, runRefuse,
		refuseCase{N: 2, Bad: "a number of signatures of 0", Start: "later", Duration: "1s", Sigs: "0", T: "1"},
		refuseCase{N: 2, Bad: "a threshold of 65537", Start: "later", Duration: "1s", Sigs: "1", T: "65537"})
	pbt.Facet("C39", "work", "the signing program with good options works with other parties, which the check simulates with the number of signatures and the threshold of the options: all of it succeeds, from the given time on and no longer; non-trivial: the machine was fast enough for the starting time",
		48, 1000,
		func(rt *rapid.T) workCase {
			c := workCase{N: rapid.IntRange(2, 5).Draw(rt, "n"), Sigs: rapid.SampledFrom([]int{1, 1, 2, 2, 3, 3, 4, 4, 9}).Draw(rt, "sigs"), NoT: rapid.Bool().Draw(rt, "not"), NoSigs: rapid.Bool().Draw(rt, "nosigs"), Spaces: rapid.Bool().Draw(rt, "spaces"), Order: rapid.IntRange(0, 5).Draw(rt, "order")}
			c.Pid = rapid.IntRange(0, c.N-1).Draw(rt, "pid")
			c.T = rapid.IntRange(1, c.N).Draw(rt, "t")
			return c
		}, runWork,
		workCase{N: 2, T: 2, Sigs: 40, Pid: 1},
		workCase{N: 3, T: 1, Sigs: 20})
	pbt.Facet("C39", "wait", "the signing program with good options and a start that is minutes to a hundred years ahead, on any day: it connects to the others, sends nothing yet and does not end; non-trivial: always",
		600, 20000, genWait, runWait,
		waitCase{N: 2, Ahead: 100, Month: 3, Day: 7, Duration: "1s", Sigs: "1", T: "2"})
	pbt.Facet("C39", "gen_keys", "the key generator with malformed arguments, too few addresses, a file that cannot be written or keys that cannot be made: a message, no committee file, no panic; non-trivial: always",
		1200, 40000, genGenRefuse, runGenRefuse)
}
