// Package cmdp checks the two programs: the generation of keys and the reading of a configuration.
package cmdp

import (
	"bufio"
	"bytes"
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/binance-chain/tss-lib/crypto/paillier"
	"pgregory.net/rapid"

	_ "github.com/rs/zerolog"                             // of the programs
	_ "gitlab.com/alephledger/core-go/pkg/network/tcp"    // of the programs
	_ "gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa" // of the programs

	"verif.local/harness/internal/pbt"
)

func TestProps(t *testing.T) { pbt.Main(t) }

// ---- running programs

func program(name string) string {
	w := os.Getenv("PBT_WORK")
	if w == "" {
		pbt.Abort("PBT_WORK is not set")
	}
	return filepath.Join(w, name)
}

// scratch makes a directory that the case removes.
func scratch() (dir string, done func()) {
	d, err := os.MkdirTemp(os.Getenv("PBT_CWD"), "case-")
	if err != nil {
		pbt.Abort("%v", err)
	}
	return d, func() { os.RemoveAll(d) }
}

func write(name string, data []byte) {
	if err := os.WriteFile(name, data, 0o600); err != nil {
		pbt.Abort("%v", err)
	}
}

// start runs a program to its end. out is all it has written, code its exit code, -1 if it was killed.
func start(t *pbt.T, dir string, env []string, limit time.Duration, name string, args ...string) (out string, code int) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	return startIn(ctx, dir, env, name, args...)
}

// startUntil is start until kill is closed.
func startUntil(t *pbt.T, dir string, env []string, kill chan int, name string, args ...string) (out string, code int) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go func() {
		select {
		case <-kill:
			cancel()
		case <-ctx.Done():
		}
	}()
	return startIn(ctx, dir, env, name, args...)
}

func startIn(ctx context.Context, dir string, env []string, name string, args ...string) (out string, code int) {
	cmd := exec.CommandContext(ctx, program(name), args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"HOME=" + dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=all", "GOMAXPROCS=2"}, env...)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	var ee *exec.ExitError
	switch {
	case err == nil:
	case ctx.Err() != nil:
		code = -1
	case errors.As(err, &ee):
		code = ee.ExitCode()
	default:
		pbt.Abort("cannot run %s: %v", name, err)
	}
	return buf.String(), code
}

func panics(out string) bool {
	return strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: ") || strings.Contains(out, "goroutine 1 [")
}

// ---- the probe: the signing program answers what it reads

type answer struct {
	MemberErr, CommitteeErr     string
	MemberPanic, CommitteePanic string
	Member, Committee           bool
	Pid                         int
	N, Lambda, Phi              string
	Keys                        []string
	Addresses                   [][]byte
}

var probe struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err bytes.Buffer
}

// ask asks the probe. It returns false if there is none, because its package is of another form.
func ask(t *pbt.T, member, committee string) (a answer, ok bool) {
	if _, err := os.Stat(program("probe")); err != nil {
		t.Label("no probe")
		return a, false
	}
	if probe.cmd == nil {
		probe.cmd = exec.Command(program("probe"))
		probe.cmd.Env = []string{"VERIF_PROBE=1", "GOTRACEBACK=all"}
		probe.cmd.Dir = os.Getenv("PBT_CWD")
		probe.err.Reset()
		probe.cmd.Stderr = &probe.err
		var err error
		if probe.in, err = probe.cmd.StdinPipe(); err != nil {
			pbt.Abort("%v", err)
		}
		o, err := probe.cmd.StdoutPipe()
		if err != nil {
			pbt.Abort("%v", err)
		}
		probe.out = bufio.NewReaderSize(o, 1<<20)
		if err := probe.cmd.Start(); err != nil {
			pbt.Abort("%v", err)
		}
	}
	q, _ := json.Marshal(map[string]string{"Member": member, "Committee": committee})
	probe.in.Write(append(q, '\n'))
	line, err := probe.out.ReadBytes('\n')
	if err != nil {
		probe.in.Close()
		werr := probe.cmd.Wait()
		probe.cmd = nil
		t.Failf("the program ends while reading its configuration: %v\n%s", werr, probe.err.String())
	}
	if err := json.Unmarshal(line, &a); err != nil {
		pbt.Abort("answer of the probe: %v", err)
	}
	for _, p := range []string{a.MemberPanic, a.CommitteePanic} {
		t.Check(p == "", "panic: %s", p)
	}
	return a, true
}

// ---- an independent reading of the files

type config struct {
	member    bool // private key and id complete
	pid       *big.Int
	comps     []*big.Int
	committee bool
	keys      []*big.Int
	addrs     []string
	canonical bool // nothing but what is needed
}

func component(b []byte) (x *big.Int, rest []byte) {
	if len(b) < 2 {
		return nil, nil
	}
	l := int(binary.LittleEndian.Uint16(b))
	if len(b) < 2+l {
		return nil, nil
	}
	x = new(big.Int).SetBytes(b[2 : 2+l])
	if x.Sign() == 0 {
		return nil, nil
	}
	return x, b[2+l:]
}

func parse(member, committee []byte) (c config) {
	if w := strings.Fields(string(member)); len(w) >= 2 {
		if b, err := base64.StdEncoding.DecodeString(w[0]); err == nil {
			for i := 0; i < 3; i++ {
				var x *big.Int
				if x, b = component(b); x == nil {
					break
				}
				c.comps = append(c.comps, x)
			}
		}
		if _, err := strconv.ParseInt(w[1], 10, 64); err == nil {
			c.pid, _ = new(big.Int).SetString(w[1], 10)
		}
		c.member = len(c.comps) == 3 && c.pid != nil
	}
	c.committee = true
	for _, w := range strings.Fields(string(committee)) {
		s := strings.Split(w, "|")
		if len(s) < 2 {
			c.committee = false
			return c
		}
		b, err := base64.StdEncoding.DecodeString(s[0])
		x := new(big.Int).SetBytes(b)
		if err != nil || x.Sign() == 0 || !strings.Contains(s[1], ":") {
			c.committee = false
			return c
		}
		c.keys, c.addrs = append(c.keys, x), append(c.addrs, s[1])
	}
	c.committee = len(c.keys) >= 2
	return c
}

func (c config) complete() bool {
	return c.member && c.committee && c.pid.Sign() >= 0 && c.pid.Cmp(big.NewInt(int64(len(c.keys)))) < 0
}

func hex(x *big.Int) string { return x.Text(16) }

// runTecdsa starts the signing program. It returns what the program would connect to, or nil if it
// stopped before.
type endpoint struct {
	Local   []byte
	Remotes [][]byte
}

func runTecdsa(t *pbt.T, dir, member, committee string) (*endpoint, string) {
	dump, log := filepath.Join(dir, "dump.json"), filepath.Join(dir, "aleph.log")
	os.Remove(dump)
	os.Remove(log)
	at := strings.ReplaceAll(time.Now().Add(time.Hour).UTC().Format(time.UnixDate), " ", "-")
	out, code := start(t, dir, []string{"VERIF_TCP_DUMP=" + dump}, 120*time.Second, "tecdsa", "-pk", member, "-keys_addrs", committee, "-startTime", at, "-roundDuration", "1s")
	l, _ := os.ReadFile(log)
	out += string(l)
	t.Check(!panics(out), "the program panics: %s", out)
	t.Check(code != -1, "the program does not stop: %s", out)
	t.Check(code != 2 || !strings.Contains(out, "goroutine"), "the program crashes: %s", out)
	b, err := os.ReadFile(dump)
	if err != nil {
		t.Check(strings.TrimSpace(out) != "", "the program stops without a message (exit code %d)", code)
		return nil, out
	}
	var e endpoint
	if err := json.Unmarshal(b, &e); err != nil {
		pbt.Abort("dump: %v", err)
	}
	return &e, out
}

func (e *endpoint) check(t *pbt.T, pid int, addrs []string) {
	t.Check(string(e.Local) == addrs[pid], "process %d listens on %q instead of %q", pid, e.Local, addrs[pid])
	t.Check(len(e.Remotes) == len(addrs), "process %d knows %d addresses of %d", pid, len(e.Remotes), len(addrs))
	for i := range addrs {
		t.Check(string(e.Remotes[i]) == addrs[i], "process %d has address %q of process %d instead of %q", pid, e.Remotes[i], i, addrs[i])
	}
}

// ---- C31

type genCase struct {
	N      int
	Seed   uint64 // 0: real randomness
	Bits   int    // size of the keys; 0: that of the program
	Addrs  []string
	File   bool // addresses come from a file
	Extra  int  // more lines than needed
	NoEnd  bool // no newline at the end
	Stale  int  // a committee of this size has been generated in the same place before
	Pids   []int
	Plain  []pbt.Int
	NoRand bool
}

func (c genCase) run(t *pbt.T, dir string) {
	env := func(seed uint64) []string {
		if seed == 0 {
			return nil
		}
		return []string{fmt.Sprintf("VERIF_PAILLIER=%d:%d", seed, c.Bits)}
	}
	if c.Stale > 0 {
		start(t, dir, []string{fmt.Sprintf("VERIF_PAILLIER=%d:%d", c.Seed+1, 600)}, 120*time.Second, "gen_keys", strconv.Itoa(c.Stale))
	}
	args := []string{strconv.Itoa(c.N)}
	if c.File {
		s := strings.Join(c.Addrs, "\n")
		for i := 0; i < c.Extra; i++ {
			s += fmt.Sprintf("\nextra:%d", i)
		}
		if !c.NoEnd {
			s += "\n"
		}
		write(filepath.Join(dir, "addresses"), []byte(s))
		args = append(args, "addresses")
	}
	out, code := start(t, dir, env(c.Seed), 300*time.Second, "gen_keys", args...)
	t.Check(!panics(out) && code == 0, "key generation for %d processes ends with code %d: %s", c.N, code, out)
}

func runGenKeys(t *pbt.T, c genCase) {
	t.NonTrivial()
	dir, done := scratch()
	defer done()
	c.run(t, dir)
	addrs := c.Addrs
	committee := filepath.Join(dir, "keys_addrs")
	cf, err := os.ReadFile(committee)
	t.Check(err == nil, "no committee file: %v", err)
	var first answer
	seen := map[string]int{}
	all := map[int]bool{}
	for _, p := range c.Pids {
		all[p%c.N] = true
	}
	for pid := 0; pid < c.N; pid++ {
		if !c.File {
			// without a list the addresses are the program's choice
			addrs = parse(nil, cf).addrs
			used := map[string]int{}
			for i, a := range addrs {
				q, dup := used[a]
				t.Check(!dup, "processes %d and %d of %d have the same address %q, and no addresses were given", q, i, c.N, a)
				used[a] = i
			}
		}
		t.Check(len(addrs) == c.N, "%d addresses for %d processes", len(addrs), c.N)
		member := filepath.Join(dir, strconv.Itoa(pid)+".pk")
		mf, err := os.ReadFile(member)
		t.Check(err == nil, "no file for process %d: %v", pid, err)
		a, ok := ask(t, member, committee)
		if !ok {
			ref := parse(mf, cf)
			t.Check(ref.complete(), "the files of process %d are not complete", pid)
			a = answer{Member: true, Committee: true, Pid: int(ref.pid.Int64()), N: hex(ref.comps[0]), Lambda: hex(ref.comps[1]), Phi: hex(ref.comps[2])}
			for i := range ref.keys {
				a.Keys, a.Addresses = append(a.Keys, hex(ref.keys[i])), append(a.Addresses, []byte(ref.addrs[i]))
			}
		}
		t.Check(a.MemberErr == "" && a.Member, "the file of process %d of %d is refused: %s", pid, c.N, a.MemberErr)
		t.Check(a.CommitteeErr == "" && a.Committee, "the committee file for %d processes is refused: %s", c.N, a.CommitteeErr)
		t.Check(a.Pid == pid, "process %d reads the id %d", pid, a.Pid)
		if pid == 0 {
			first = a
			t.Check(len(a.Keys) == c.N, "%d public keys for %d processes", len(a.Keys), c.N)
			t.Check(len(a.Addresses) == c.N, "%d addresses for %d processes", len(a.Addresses), c.N)
			for i := range addrs {
				t.Check(string(a.Addresses[i]) == addrs[i], "the address of process %d is read as %q instead of %q", i, a.Addresses[i], addrs[i])
			}
		}
		t.Check(a.N == first.Keys[pid], "process %d has a private key for the modulus %s, and the committee file has %s", pid, a.N, first.Keys[pid])
		c.match(t, pid, a)
		if c.Bits == 0 || c.Bits >= 128 {
			q, dup := seen[a.N]
			t.Check(!dup, "processes %d and %d have the same key", q, pid)
			seen[a.N] = pid
		}
		if all[pid] {
			e, out := runTecdsa(t, dir, member, committee)
			t.Check(e != nil, "the signing program refuses the files of process %d of %d: %s", pid, c.N, out)
			e.check(t, pid, addrs)
		}
	}
}

func num(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		return new(big.Int)
	}
	return x
}

// match checks that all components of a private key belong together, and that it decrypts.
func (c genCase) match(t *pbt.T, pid int, a answer) {
	one := big.NewInt(1)
	n, lambda, phi := num(a.N), num(a.Lambda), num(a.Phi)
	t.Check(n.Sign() > 0 && lambda.Sign() > 0 && phi.Sign() > 0, "process %d: a component of the private key is missing: N=%s LambdaN=%s PhiN=%s", pid, a.N, a.Lambda, a.Phi)
	// phi = (p-1)(q-1), so p+q = n-phi+1
	sum := new(big.Int).Sub(n, phi)
	sum.Add(sum, one)
	disc := new(big.Int).Mul(sum, sum)
	disc.Sub(disc, new(big.Int).Lsh(n, 2))
	t.Check(disc.Sign() >= 0, "process %d: PhiN=%s does not belong to N=%s", pid, a.Phi, a.N)
	root := new(big.Int).Sqrt(disc)
	p, q := new(big.Int).Add(sum, root), new(big.Int).Sub(sum, root)
	p.Rsh(p, 1)
	q.Rsh(q, 1)
	t.Check(new(big.Int).Mul(p, q).Cmp(n) == 0 && q.Cmp(one) > 0, "process %d: PhiN=%s does not belong to N=%s", pid, a.Phi, a.N)
	p1, q1 := new(big.Int).Sub(p, one), new(big.Int).Sub(q, one)
	l := new(big.Int).Mul(p1, q1)
	l.Div(l, new(big.Int).GCD(nil, nil, p1, q1))
	t.Check(l.Cmp(lambda) == 0, "process %d: LambdaN=%s does not belong to N=%s", pid, a.Lambda, a.N)
	priv := &paillier.PrivateKey{PublicKey: paillier.PublicKey{N: n}, LambdaN: lambda, PhiN: phi}
	pub := &paillier.PublicKey{N: num(a.N)}
	for _, m := range c.Plain {
		x := new(big.Int).Mod(m.Int, n)
		e, err := pub.Encrypt(x)
		t.Check(err == nil, "process %d: cannot encrypt: %v", pid, err)
		d, err := priv.Decrypt(e)
		t.Check(err == nil && d.Cmp(x) == 0, "process %d decrypts %x as %x (%v)", pid, x, d, err)
	}
}

func address(rt *rapid.T) string {
	host := ""
	switch rapid.IntRange(0, 5).Draw(rt, "host") {
	case 0:
		host = fmt.Sprintf("%d.%d.%d.%d", rapid.IntRange(0, 255).Draw(rt, "a"), rapid.IntRange(0, 255).Draw(rt, "b"), rapid.IntRange(0, 255).Draw(rt, "c"), rapid.IntRange(1, 254).Draw(rt, "d"))
	case 1:
		host = "localhost"
	case 2:
		host = "[::1]"
	case 3:
		host = "[2001:db8:0:1:1:1:" + strconv.FormatInt(int64(rapid.IntRange(1, 65535).Draw(rt, "a")), 16) + ":1%eth0]"
	case 4:
		host = strings.Join(rapid.SliceOfN(rapid.StringMatching(`[a-z][a-z0-9-]{0,15}`), 1, 12).Draw(rt, "labels"), ".")
	case 5:
		host = rapid.StringMatching(`[A-Za-z0-9._~=+/#,;@é-]{1,60}`).Draw(rt, "text")
	}
	return host + ":" + strconv.Itoa(rapid.IntRange(1, 65535).Draw(rt, "port"))
}

func genGenKeys(rt *rapid.T) genCase {
	c := genCase{N: rapid.IntRange(2, 12).Draw(rt, "n"), Seed: uint64(rapid.IntRange(1, 1<<40).Draw(rt, "seed"))}
	switch rapid.IntRange(0, 7).Draw(rt, "kind") {
	case 0:
		c.Bits = rapid.IntRange(16, 80).Draw(rt, "bits")
	case 1:
		c.Bits = rapid.IntRange(80, 700).Draw(rt, "bits")
	}
	if c.File = rapid.Bool().Draw(rt, "file"); c.File {
		for i := 0; i < c.N; i++ {
			c.Addrs = append(c.Addrs, address(rt))
		}
		c.Extra = rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(rt, "extra")
		c.NoEnd = rapid.Bool().Draw(rt, "noend")
	}
	if rapid.IntRange(0, 3).Draw(rt, "stale") == 0 {
		c.Stale = rapid.IntRange(2, 14).Draw(rt, "before")
	}
	c.Pids = []int{rapid.IntRange(0, c.N-1).Draw(rt, "pid")}
	for i := 0; i < 2; i++ {
		c.Plain = append(c.Plain, pbt.BigScalar(rt, "plain"))
	}
	return c
}

// ---- C31: the whole system

type systemCase struct {
	N, T, Sigs int
	Seed       uint64
	Addrs      []string
}

func runSystem(t *pbt.T, c systemCase) {
	for try := 0; try < 3; try++ {
		if c.attempt(t, 4+8*try) {
			t.NonTrivial()
			return
		}
	}
	t.Label("too busy: not decided")
}

// attempt returns false if the machine was too slow for the starting time.
func (c systemCase) attempt(t *pbt.T, delay int) bool {
	dir, done := scratch()
	defer done()
	// names of sockets are short
	socks, err := os.MkdirTemp("", "v")
	if err != nil {
		pbt.Abort("%v", err)
	}
	defer os.RemoveAll(socks)
	genCase{N: c.N, Seed: c.Seed, Addrs: c.Addrs, File: true}.run(t, dir)
	at := strings.ReplaceAll(time.Now().Add(time.Duration(delay)*time.Second).UTC().Format(time.UnixDate), " ", "-")
	logs := make([]string, c.N)
	codes := make([]int, c.N)
	end := make(chan int)
	for i := 0; i < c.N; i++ {
		d := filepath.Join(dir, fmt.Sprintf("proc-%d", i))
		if err := os.Mkdir(d, 0o700); err != nil {
			pbt.Abort("%v", err)
		}
		go func(i int) {
			defer func() { end <- i }()
			var out string
			out, codes[i] = start(t, d, []string{"VERIF_TCP_DIR=" + socks}, 100*time.Second, "tecdsa", "-pk", filepath.Join(dir, strconv.Itoa(i)+".pk"), "-keys_addrs", filepath.Join(dir, "keys_addrs"),
				"-startTime", at, "-roundDuration", "60s", "-sigNumber", strconv.Itoa(c.Sigs), "-threshold", strconv.Itoa(c.T))
			l, _ := os.ReadFile(filepath.Join(d, "aleph.log"))
			logs[i] = out + string(l)
		}(i)
	}
	for range logs {
		<-end
	}
	for i, l := range logs {
		if strings.Contains(l, "has passed") || codes[i] == -1 {
			return false
		}
	}
	for i, l := range logs {
		t.Check(!panics(l), "process %d of %d panics: %s", i, c.N, l)
		t.Check(codes[i] == 0 && strings.Contains(l, "All done!") && !strings.Contains(l, "error during"), "process %d of %d does not end its work (code %d): %s", i, c.N, codes[i], l)
		t.Check(strings.Count(l, "Signing; round") >= c.Sigs, "process %d of %d has signed less than %d messages: %s", i, c.N, c.Sigs, l)
	}
	return true
}

// ---- C32

type cfgCase struct {
	Member, Committee pbt.Bytes
	NoMember          int // 1: there is no member file, 2: it is a directory, 3: its name is empty
	NoCommittee       int
	Program           bool // the program is started, too
	// Long bytes, if not 0, are put into the committee file: after the first bar from byte LongAt on, or as
	// a word of their own.
	Long, LongAt int
	LongWord     bool
}

func (c *cfgCase) lengthen() {
	if c.Long == 0 {
		return
	}
	at := c.LongAt
	if at > len(c.Committee) {
		at = len(c.Committee)
	}
	x := strings.Repeat("x", c.Long)
	if c.LongWord {
		for at < len(c.Committee) && c.Committee[at] != '\n' {
			at++
		}
		x = "\n" + x + "\n"
	} else if i := bytes.IndexByte(c.Committee[at:], '|'); i >= 0 {
		at += i + 1
	}
	c.Committee = append(append(append(pbt.Bytes{}, c.Committee[:at]...), x...), c.Committee[at:]...)
}

func runConfig(t *pbt.T, c cfgCase) {
	c.lengthen()
	dir, done := scratch()
	defer done()
	name := func(n string, how int, data []byte) string {
		f := filepath.Join(dir, n)
		switch how {
		case 0:
			write(f, data)
		case 2:
			if err := os.Mkdir(f, 0o700); err != nil {
				pbt.Abort("%v", err)
			}
		case 3:
			return ""
		}
		return f
	}
	member, committee := name("member", c.NoMember, c.Member), name("committee", c.NoCommittee, c.Committee)
	ref := parse(c.Member, c.Committee)
	ref.member = ref.member && c.NoMember == 0
	ref.committee = ref.committee && c.NoCommittee == 0
	if ref.complete() {
		t.Label("complete")
	} else {
		t.NonTrivial()
		if !ref.member {
			t.Label("member file incomplete")
		}
		if !ref.committee {
			t.Label("committee file incomplete")
		}
		if ref.member && ref.committee {
			t.Label("id out of range")
		}
	}
	if a, ok := ask(t, member, committee); ok {
		if a.MemberErr == "" {
			t.Check(ref.member, "an incomplete member file is accepted: id %d, N=%s, LambdaN=%s, PhiN=%s", a.Pid, a.N, a.Lambda, a.Phi)
			t.Check(a.Member && big.NewInt(int64(a.Pid)).Cmp(ref.pid) == 0, "the id %v is read as %d", ref.pid, a.Pid)
			for i, s := range []string{a.N, a.Lambda, a.Phi} {
				t.Check(s == hex(ref.comps[i]), "component %d of the private key is read as %s instead of %x", i, s, ref.comps[i])
			}
		} else {
			t.Label("member file refused")
		}
		if a.CommitteeErr == "" {
			t.Check(ref.committee, "an incomplete committee file is accepted: %d keys, %d addresses", len(a.Keys), len(a.Addresses))
			t.Check(len(a.Keys) == len(ref.keys) && len(a.Addresses) == len(ref.addrs), "%d keys and %d addresses for %d members", len(a.Keys), len(a.Addresses), len(ref.keys))
			for i := range ref.keys {
				t.Check(a.Keys[i] == hex(ref.keys[i]), "key %d is read as %s instead of %x", i, a.Keys[i], ref.keys[i])
				t.Check(string(a.Addresses[i]) == ref.addrs[i], "address %d is read as %q instead of %q", i, a.Addresses[i], ref.addrs[i])
			}
		} else {
			t.Label("committee file refused")
		}
	}
	if !c.Program {
		return
	}
	e, out := runTecdsa(t, dir, member, committee)
	if e == nil {
		t.Label("program stops")
		return
	}
	t.Label("program accepts")
	t.Check(ref.complete(), "the program accepts an incomplete configuration (member file complete: %v, committee file complete: %v, id %v of %d members): %s", ref.member, ref.committee, ref.pid, len(ref.keys), out)
	e.check(t, int(ref.pid.Int64()), ref.addrs)
}

func comp(b []byte) []byte {
	return append(binary.LittleEndian.AppendUint16(nil, uint16(len(b))), b...)
}

func number(rt *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 9).Draw(rt, label+"-kind") {
	case 0:
		return nil
	case 1:
		return make([]byte, rapid.IntRange(1, 40).Draw(rt, label+"-zeros"))
	case 2:
		return append(make([]byte, 3), 1)
	default:
		b := pbt.RandBytes(rt, rapid.IntRange(1, 40).Draw(rt, label+"-len"), label)
		b[0] |= 1
		return b
	}
}

func good(rt *rapid.T, label string) []byte {
	b := pbt.RandBytes(rt, rapid.IntRange(1, 40).Draw(rt, label+"-len"), label)
	b[0] |= 1
	return b
}

func enc(rt *rapid.T, b []byte, wrong bool) string {
	if !wrong {
		return base64.StdEncoding.EncodeToString(b)
	}
	switch rapid.IntRange(0, 4).Draw(rt, "encoding") {
	case 0:
		return base64.RawStdEncoding.EncodeToString(b)
	case 1:
		return base64.URLEncoding.EncodeToString(b)
	case 2:
		return fmt.Sprintf("%x", b)
	case 3:
		s := base64.StdEncoding.EncodeToString(b)
		return s[:len(s)*rapid.IntRange(0, 9).Draw(rt, "part")/10]
	default:
		s := []byte(base64.StdEncoding.EncodeToString(b) + "=")
		s[rapid.IntRange(0, len(s)-1).Draw(rt, "at")] = byte(rapid.IntRange(33, 255).Draw(rt, "char"))
		return string(s)
	}
}

func genMember(rt *rapid.T, n int) []byte {
	id := strconv.Itoa(rapid.IntRange(0, n-1).Draw(rt, "id"))
	switch rapid.IntRange(0, 9).Draw(rt, "member") {
	case 0, 1, 2:
		// a good one
		var b []byte
		for i := 0; i < 3; i++ {
			b = append(b, comp(good(rt, "comp"))...)
		}
		return []byte(enc(rt, b, false) + " " + id + "\n")
	case 3:
		return []byte(rapid.StringN(0, 60, -1).Draw(rt, "text"))
	}
	var b []byte
	k := rapid.SampledFrom([]int{3, 3, 3, 3, 3, 0, 1, 2, 4}).Draw(rt, "comps")
	bad := rapid.IntRange(0, 3).Draw(rt, "bad")
	for i := 0; i < k; i++ {
		if bad == 0 {
			b = append(b, comp(number(rt, "comp"))...)
		} else {
			b = append(b, comp(good(rt, "comp"))...)
		}
	}
	switch rapid.IntRange(0, 7).Draw(rt, "spoil") {
	case 0:
		b = b[:rapid.IntRange(0, len(b)).Draw(rt, "cut")]
	case 1:
		if len(b) > 0 {
			b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "flip"))
		}
	case 2:
		b = append(b, pbt.BytesUpTo(rt, 20, "more")...)
	case 3:
		// the length of some component is another one
		i := 0
		for j := rapid.IntRange(0, 2).Draw(rt, "which"); j > 0 && i+2 <= len(b); j-- {
			i += 2 + int(binary.LittleEndian.Uint16(b[i:]))
		}
		if i+2 <= len(b) {
			binary.LittleEndian.PutUint16(b[i:], uint16(rapid.SampledFrom([]int{0, 1, 2, 255, 256, 32767, 32768, 65533, 65534, 65535, len(b) - i - 2, len(b) - i - 1, len(b) - i}).Draw(rt, "length")))
		}
	}
	if rapid.IntRange(0, 2).Draw(rt, "otherid") == 0 {
		id = rapid.SampledFrom([]string{"", "-1", "-0", "+0", "00", "007", strconv.Itoa(n), strconv.Itoa(n + 1), strconv.Itoa(n - 1), "-" + strconv.Itoa(n), "65535", "65536", "65537", "4294967296", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "0x0", "1_0", "0.0", "1e0", "a", "٣", "0|", "\x00"}).Draw(rt, "idtext")
	}
	sep := rapid.SampledFrom([]string{" ", " ", " ", "\n", "\t", "  ", "\r\n", "", ",", "\u00a0", "\u2003", "\x00"}).Draw(rt, "sep")
	pre := rapid.SampledFrom([]string{"", "", "", " ", "\n\n", "\ufeff"}).Draw(rt, "pre")
	post := rapid.SampledFrom([]string{"\n", "\n", "", " ", "\r\n", " 1", "\n2 3\n"}).Draw(rt, "post")
	return []byte(pre + enc(rt, b, rapid.IntRange(0, 4).Draw(rt, "wrong") == 0) + sep + id + post)
}

func genLine(rt *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(rt, "line") {
	case 0, 1, 2:
		return enc(rt, good(rt, "key"), false) + "|" + address(rt)
	case 3:
		return strings.TrimSpace(rapid.StringN(0, 30, -1).Draw(rt, "text"))
	}
	key := enc(rt, number(rt, "key"), rapid.IntRange(0, 3).Draw(rt, "wrong") == 0)
	bar := rapid.SampledFrom([]string{"|", "|", "|", "||", "", ":", "¦"}).Draw(rt, "bar")
	addr := rapid.SampledFrom([]string{"", ":", "host", ":1", "host:", "host:1", "a:b:c", "host:1|x", "|:", "1.2.3.4:99999"}).Draw(rt, "addr")
	return key + bar + addr
}

func genCommittee(rt *rapid.T) (int, []byte) {
	n := rapid.SampledFrom([]int{0, 1, 1, 2, 2, 2, 3, 3, 4, 6}).Draw(rt, "members")
	bad := rapid.IntRange(0, 2).Draw(rt, "bad")
	var lines []string
	for i := 0; i < n; i++ {
		if bad == 0 {
			lines = append(lines, genLine(rt))
		} else {
			lines = append(lines, enc(rt, good(rt, "key"), false)+"|"+address(rt))
		}
	}
	if bad == 1 && n > 0 {
		lines[rapid.IntRange(0, n-1).Draw(rt, "which")] = genLine(rt)
	}
	sep := rapid.SampledFrom([]string{"\n", "\n", "\n", "\r\n", " ", "\n\n", "\t", ",", ""}).Draw(rt, "linesep")
	end := rapid.SampledFrom([]string{"\n", "\n", "", "\n\n", "\n#", "\n|"}).Draw(rt, "end")
	s := []byte(strings.Join(lines, sep) + end)
	if rapid.IntRange(0, 9).Draw(rt, "spoil") == 0 {
		s = s[:rapid.IntRange(0, len(s)).Draw(rt, "cut")]
	}
	if rapid.IntRange(0, 9).Draw(rt, "flip") == 0 && len(s) > 0 {
		s[rapid.IntRange(0, len(s)-1).Draw(rt, "at")] = byte(rapid.IntRange(0, 255).Draw(rt, "byte"))
	}
	if n == 0 {
		n = 1
	}
	return n, s
}

func genConfig(program bool) func(rt *rapid.T) cfgCase {
	return func(rt *rapid.T) cfgCase {
		n, s := genCommittee(rt)
		c := cfgCase{Committee: s, Program: program}
		c.Member = genMember(rt, n)
		if rapid.IntRange(0, 40).Draw(rt, "none") == 0 {
			c.NoMember = rapid.IntRange(0, 3).Draw(rt, "nomember")
			c.NoCommittee = rapid.IntRange(0, 3).Draw(rt, "nocommittee")
		}
		if rapid.IntRange(0, 19).Draw(rt, "long") == 0 {
			c.Long = rapid.SampledFrom([]int{4000, 4096, 65400, 65536, 65537, 70000, 131072}).Draw(rt, "length")
			c.LongAt = rapid.IntRange(0, len(c.Committee)).Draw(rt, "longat")
			c.LongWord = rapid.Bool().Draw(rt, "longword")
		}
		return c
	}
}

func bigCommittee(n int) pbt.Bytes {
	var b bytes.Buffer
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "BQ==|h:%d\n", i)
	}
	return b.Bytes()
}

func init() {
	pbt.Facet("C31", "files", "keys for 2 to 12 processes with given or default addresses, also where files of an earlier committee lie, are read by the signing program: id, components of the key that belong together and decrypt, keys and addresses in order; the program itself listens and connects to these addresses; non-trivial: always",
		400, 20000, genGenKeys, runGenKeys,
		genCase{N: 120, Seed: 5, Pids: []int{0, 99, 119}, Plain: []pbt.Int{{Int: big.NewInt(1)}}},
		genCase{N: 260, Seed: 6, Pids: []int{1, 255, 256, 259}, Plain: []pbt.Int{{Int: big.NewInt(2)}}},
		genCase{N: 2, Seed: 6, Bits: 2080, Pids: []int{1}, Plain: []pbt.Int{{Int: big.NewInt(12345)}}},
		genCase{N: 3, Pids: []int{2}, Plain: []pbt.Int{{Int: big.NewInt(0)}}})
	pbt.Facet("C31", "system", "keys are generated, the signing program is started for every process over local sockets, presigns and signs; non-trivial: it was fast enough for the starting time",
		8, 100,
		func(rt *rapid.T) systemCase {
			c := systemCase{N: rapid.IntRange(2, 4).Draw(rt, "n"), Sigs: rapid.IntRange(1, 2).Draw(rt, "sigs"), Seed: uint64(rapid.IntRange(1, 1<<40).Draw(rt, "seed"))}
			c.T = rapid.IntRange(1, c.N).Draw(rt, "t")
			for i := 0; i < c.N; i++ {
				c.Addrs = append(c.Addrs, fmt.Sprintf("host-%d:%d", i, rapid.IntRange(1, 65535).Draw(rt, "port")))
			}
			return c
		}, runSystem)
	key := base64.StdEncoding.EncodeToString(append(append(comp([]byte{35}), comp([]byte{12})...), comp([]byte{24})...))
	pbt.Facet("C32", "files", "member and committee files from complete to arbitrary, read in place by the functions of the program: what is accepted is complete and read as written, nothing panics; non-trivial: the configuration is not complete",
		20000, 2000000, genConfig(false), runConfig,
		cfgCase{Member: []byte(key + " 0\n"), Committee: []byte("BQ==|" + strings.Repeat("x", 65536) + ":1\nBQ==|a:1\nBQ==|a:2\n")},
		cfgCase{Member: []byte(key + " 0\n"), Committee: bigCommittee(3), Long: 65536, LongAt: 16},
		cfgCase{Member: []byte(key + " 0\n"), Committee: bigCommittee(3), Long: 65536, LongAt: 18, LongWord: true},
		cfgCase{Member: []byte(strings.Repeat("A", 70000) + " 0\n"), Committee: bigCommittee(2)})
	pbt.Facet("C32", "program", "the same files given to the program: it tries to connect only with a complete configuration and an id inside the committee, and otherwise stops with a message; non-trivial: the configuration is not complete",
		4000, 100000, genConfig(true), runConfig,
		cfgCase{Member: []byte(key + " 1\n"), Committee: bigCommittee(2), Program: true},
		cfgCase{Member: []byte(key + " 2\n"), Committee: bigCommittee(2), Program: true},
		cfgCase{Member: []byte(key + " -1\n"), Committee: bigCommittee(2), Program: true},
		cfgCase{Member: []byte(key + " 65534\n"), Committee: bigCommittee(65535), Program: true},
		cfgCase{Member: []byte(key + " 65536\n"), Committee: bigCommittee(65537), Program: true},
		cfgCase{Member: []byte(key + " 0\n"), Committee: bigCommittee(3), Long: 65536, LongAt: 16, Program: true},
		cfgCase{Member: []byte(key + " 0\n"), Committee: bigCommittee(2), NoCommittee: 1, Program: true},
		cfgCase{Member: []byte(key + " 0\n"), Committee: bigCommittee(2), NoMember: 2, Program: true})
}
