package cmdp

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/big"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/binance-chain/tss-lib/crypto/paillier"

	"verif.local/harness/internal/pbt"
)

// ---- C42: private keys stay in their files

// secret is a part of a private key in some form.
type secret struct {
	what string
	text []byte
	win  int // so many bytes of it in a row give it away
}

type rngReader struct{ *rand.Rand }

func (r rngReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return len(b), nil
}

// secretsOf are the parts of a private key that the public key does not tell, in all usual forms.
func secretsOf(n, lambda, phi *big.Int) (res []secret) {
	one := big.NewInt(1)
	sum := new(big.Int).Sub(n, phi)
	sum.Add(sum, one)
	root := new(big.Int).Mul(sum, sum)
	root.Sub(root, new(big.Int).Lsh(n, 2))
	root.Sqrt(root.Abs(root))
	p := new(big.Int).Add(sum, root)
	p.Rsh(p, 1)
	q := new(big.Int).Sub(sum, p)
	belong := new(big.Int).Mul(p, q).Cmp(n) == 0
	add := func(what string, x *big.Int, half bool) {
		// the upper half of phi and lambda follows from the modulus
		low := func(b []byte, quantum int) []byte {
			if half {
				k := len(b)/2 + 2
				b = b[k+(quantum-k%quantum)%quantum:]
			}
			return b
		}
		raw := x.Bytes()
		res = append(res,
			secret{what + " in decimal", low([]byte(x.String()), 1), 14},
			secret{what + " in hexadecimal", low([]byte(x.Text(16)), 1), 14},
			secret{what + " in HEXADECIMAL", low([]byte(strings.ToUpper(x.Text(16))), 1), 14},
			secret{what, low(raw, 1), 8})
		rev := append([]byte{}, low(raw, 1)...)
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		res = append(res, secret{what + " in reverse", rev, 8})
		var list []string
		for _, b := range low(raw, 1) {
			list = append(list, strconv.Itoa(int(b)))
		}
		res = append(res, secret{what + " as a list of bytes", []byte(strings.Join(list, " ")), 28})
		for i := 0; i < 3; i++ {
			b := low(raw, 1)[i:]
			for _, e := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
				res = append(res, secret{what + " in base64", []byte(e.EncodeToString(b[:len(b)/3*3])), 12})
			}
		}
		word := new(big.Int).And(x, new(big.Int).SetUint64(^uint64(0)))
		res = append(res, secret{"the lowest word of " + what, []byte(word.String()), len(word.String())})
	}
	add("LambdaN", lambda, true)
	add("PhiN", phi, true)
	if belong {
		add("a factor of N", p, false)
		add("a factor of N", q, false)
	}
	return res
}

// kept requires that data does not give secrets away.
func kept(t *pbt.T, tell []secret, where string, data []byte) {
	for _, s := range tell {
		for i := 0; i+s.win <= len(s.text); i++ {
			if at := bytes.Index(data, s.text[i:i+s.win]); at >= 0 && s.win > 5 {
				t.Failf("%s: a part of %s of a private key is at byte %d: %q", where, s.what, at, clip(data, at, s.win))
			}
		}
	}
}

func clip(data []byte, at, n int) string {
	return string(data[max(0, at-60):min(len(data), at+n+60)])
}

// files requires that no file in the directory gives secrets away, but those named.
func files(t *pbt.T, tell []secret, dir string, but ...string) {
	err := filepath.WalkDir(dir, func(name string, e os.DirEntry, err error) error {
		if err != nil || !e.Type().IsRegular() {
			return err
		}
		for _, b := range but {
			if name == filepath.Join(dir, b) {
				return nil
			}
		}
		data, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		kept(t, tell, "the file "+filepath.Base(name), data)
		return nil
	})
	if err != nil {
		pbt.Abort("%v", err)
	}
}

func secretKey(seed uint64, bits int) *paillier.PrivateKey {
	priv, _, err := paillier.GenerateKeyPairFrom(rngReader{rand.New(rand.NewPCG(seed, 42))}, bits)
	if err != nil {
		pbt.Abort("%v", err)
	}
	return priv
}

func encodeKey(k *paillier.PrivateKey) string {
	return base64.StdEncoding.EncodeToString(leakCase{}.spoil(k))
}

// spoil encodes a key, well or not.
func (c leakCase) spoil(k *paillier.PrivateKey) (b []byte) {
	var starts []int
	for i, x := range []*big.Int{k.N, k.LambdaN, k.PhiN} {
		starts = append(starts, len(b))
		switch {
		case c.Spoil == 10+i:
			continue
		case c.Spoil == 20+i:
			b = append(b, comp(nil)...)
			continue
		}
		b = append(b, comp(x.Bytes())...)
		if c.Spoil == 40+i {
			b = append(b, c.More...)
		}
	}
	if i := c.Spoil - 50; i >= 0 && i < 6 {
		// another length
		b[starts[i%3]+i/3] ^= 1 << (len(c.More) % 8)
	}
	return b
}

// secretCommittee writes the files of a committee with real keys, and returns the secrets of one process.
func secretCommittee(dir string, n, pid int, seed uint64) (addrs []string, tell []secret) {
	var lines string
	for i := 0; i < n; i++ {
		k := secretKey(seed+uint64(i), 264+int(seed%3)*128)
		addrs = append(addrs, fmt.Sprintf("h%d:%d", i, i+1))
		lines += base64.StdEncoding.EncodeToString(k.N.Bytes()) + "|" + addrs[i] + "\n"
		write(filepath.Join(dir, strconv.Itoa(i)+".pk"), []byte(encodeKey(k)+" "+strconv.Itoa(i)+"\n"))
		if i == pid {
			tell = secretsOf(k.N, k.LambdaN, k.PhiN)
		}
	}
	return addrs, tell
}

// the key generator

type leakGen struct {
	N    int
	Seed uint64
	Bits int
	Args []string // others than the number of processes
	Note string   // a file that is there before, which cannot be written
	Full bool     // because the disk is full
}

func runLeakGen(t *pbt.T, c leakGen) {
	dir, done := scratch()
	defer done()
	var env []string
	if c.Seed != 0 {
		env = []string{fmt.Sprintf("VERIF_PAILLIER=%d:%d", c.Seed, c.Bits)}
	}
	if c.Note != "" {
		f := filepath.Join(dir, c.Note)
		err := os.Mkdir(f, 0o700)
		if c.Full {
			os.Remove(f)
			err = os.Symlink("/dev/full", f)
		}
		if err != nil {
			pbt.Abort("%v", err)
		}
		t.Label("a file cannot be written")
	}
	out, code := start(t, dir, env, 300*time.Second, "gen_keys", append([]string{strconv.Itoa(c.N)}, c.Args...)...)
	t.Check(!panics(out), "key generation for %d processes ends with code %d: %s", c.N, code, out)
	for pid := 0; pid < c.N; pid++ {
		own := strconv.Itoa(pid) + ".pk"
		if own == c.Note {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, own))
		if err != nil {
			continue
		}
		ref := parse(b, nil)
		t.Check(len(ref.comps) >= 3, "the file %s is not complete", own)
		t.NonTrivial()
		tell := secretsOf(ref.comps[0], ref.comps[1], ref.comps[2])
		kept(t, tell, "the output", []byte(out))
		files(t, tell, dir, own)
	}
}

// the signing program

type leakCase struct {
	N, Pid int
	Seed   uint64
	Bits   int
	Member string // the member file: K is the key, L another one, I the id
	Cut    int    // of the key, so many characters
	Spoil  int    // what is wrong with the components of the key
	More   pbt.Bytes
	Committee,
	Start, Duration, Sigs, T string
	Swap bool // the files are given for each other
}

var memberForms = []string{
	"K I", "K I", "K I", "K I", "I K", "K", "KI", "K,I", "K|I", "K:I", "K K", "K L", "K K I", "L I K", "K L I", "K x", "K -1", "K 99999999999999999999", "K I K", "K I\nL I",
	"\"K\" I", "pk=K id=I", "K\u00a0I", "K I.0", "K 0xI", "-----BEGIN KEY-----\nK\n-----END KEY----- I", "K=I", "K= I", "{\"key\":\"K\",\"pid\":I}", "K\nK", "K\nL\n", "K Key", "K K:I", "h0:1|K I", "K h0:1|K",
}

func runLeak(t *pbt.T, c leakCase) {
	dir, done := scratch()
	defer done()
	var lines string
	var keys []*paillier.PrivateKey
	for i := 0; i < c.N+1; i++ {
		k := secretKey(c.Seed+uint64(i), c.Bits)
		keys = append(keys, k)
		if i < c.N {
			lines += base64.StdEncoding.EncodeToString(k.N.Bytes()) + fmt.Sprintf("|127.0.0.1:%d\n", i+1)
		}
	}
	own, other := keys[c.Pid], keys[c.N]
	key := base64.StdEncoding.EncodeToString(c.spoil(own))
	key = key[:max(0, len(key)-c.Cut)]
	text := strings.NewReplacer("K", key, "L", encodeKey(other), "I", strconv.Itoa(c.Pid)).Replace(c.Member)
	member, committee := filepath.Join(dir, "member"), filepath.Join(dir, "committee")
	write(member, []byte(text))
	write(committee, []byte(strings.NewReplacer("C", lines, "K", key).Replace(c.Committee)))
	args := []string{"-pk", member, "-keys_addrs", committee}
	if c.Swap {
		args = []string{"-pk", committee, "-keys_addrs", member}
	}
	at := c.Start
	if at == "later" {
		at = unixDate(time.Now().Add(time.Hour))
	}
	for _, o := range []struct{ name, text string }{{"-startTime", at}, {"-roundDuration", c.Duration}, {"-sigNumber", c.Sigs}, {"-threshold", c.T}} {
		if o.text != "-" {
			args = append(args, o.name, o.text)
		}
	}
	dump := filepath.Join(dir, "dump.json")
	out, code := start(t, dir, []string{"VERIF_TCP_DUMP=" + dump}, 120*time.Second, "tecdsa", args...)
	t.Check(code != -1, "the program does not stop: %s", out)
	if _, err := os.Stat(dump); err == nil {
		t.Label("it would connect")
	} else {
		t.Label("it stops")
		t.NonTrivial()
	}
	for _, k := range []*paillier.PrivateKey{own, other} {
		tell := secretsOf(k.N, k.LambdaN, k.PhiN)
		kept(t, tell, "the output of the program", []byte(out))
		files(t, tell, dir, "member", "committee")
	}
}

func init() {
	pbt.Facet("C42", "generator", "keys for 2 to 6 processes, some with places that cannot be written: nothing of a private key (factors, LambdaN, PhiN in binary, decimal, hexadecimal, base64) is in the output or in another file than that of its process; non-trivial: some key is written",
		200, 10000,
		func(rt *rapid.T) leakGen {
			c := leakGen{N: rapid.IntRange(2, 6).Draw(rt, "n"), Bits: rapid.SampledFrom([]int{200, 264, 264, 400, 520}).Draw(rt, "bits")}
			c.Seed = uint64(rapid.IntRange(0, 1<<40).Draw(rt, "seed"))
			switch rapid.IntRange(0, 4).Draw(rt, "args") {
			case 0:
				c.Full = rapid.Bool().Draw(rt, "full")
				c.Note = rapid.SampledFrom([]string{"keys_addrs", strconv.Itoa(c.N-1) + ".pk", "1.pk"}).Draw(rt, "note")
			case 1:
				c.Args = []string{rapid.SampledFrom([]string{"", "nothing", "0.pk", "/dev/null"}).Draw(rt, "addresses")}
			}
			return c
		}, runLeakGen)
	pbt.Facet("C42", "program", "the signing program with member and committee files and options of which any may be wrong, the member file having a key in any place and form, also together with another key: nothing of a private key is in the output or the files that it writes; non-trivial: the program refuses",
		1500, 50000,
		func(rt *rapid.T) leakCase {
			c := leakCase{N: rapid.IntRange(2, 4).Draw(rt, "n"), Bits: rapid.SampledFrom([]int{200, 264, 264, 400}).Draw(rt, "bits"), Seed: uint64(rapid.IntRange(1, 500).Draw(rt, "seed")) * 16, Committee: "C", Start: "later", Duration: "1s", Sigs: "-", T: "-", Member: "K I"}
			c.Pid = rapid.IntRange(0, c.N-1).Draw(rt, "pid")
			switch rapid.IntRange(0, 7).Draw(rt, "wrong") {
			case 0, 1, 2:
				c.Member = rapid.SampledFrom(memberForms).Draw(rt, "member")
				if rapid.IntRange(0, 3).Draw(rt, "cut?") == 0 {
					c.Cut = rapid.IntRange(1, 60).Draw(rt, "cut")
				}
			case 6, 7:
				c.Spoil = rapid.SampledFrom([]int{10, 11, 12, 20, 21, 22, 40, 41, 42, 50, 51, 52, 53, 54, 55}).Draw(rt, "spoil")
				c.More = pbt.BytesUpTo(rt, 40, "more")
			case 3:
				c.Committee = rapid.SampledFrom([]string{"", "C\nx", "K|", "K|h0:1", "CK|h0:1", "K", "CK"}).Draw(rt, "committee")
			case 4:
				c.Swap = true
			default:
				c.Start = rapid.SampledFrom([]string{"later", "", "-", "now"}).Draw(rt, "start")
				c.Duration = rapid.SampledFrom([]string{"1s", "", "-", "x"}).Draw(rt, "duration")
				c.Sigs = rapid.SampledFrom([]string{"-", "0", "x"}).Draw(rt, "sigs")
				c.T = rapid.SampledFrom([]string{"-", "0", "x", "70000"}).Draw(rt, "t")
			}
			return c
		}, runLeak,
		leakCase{N: 2, Bits: 264, Seed: 16, Member: "K K", Committee: "C", Start: "later", Duration: "1s", Sigs: "-", T: "-"},
		leakCase{N: 2, Bits: 264, Seed: 16, Member: "K I", Committee: "C", Start: "later", Duration: "1s", Sigs: "-", T: "-"})
	pbt.Facet("C42", "work", "the signing program presigns and signs with other parties: nothing of its private key is in its output, the files that it writes or what the others receive; non-trivial: the machine was fast enough for the starting time",
		6, 100,
		func(rt *rapid.T) workCase {
			c := workCase{N: rapid.IntRange(2, 3).Draw(rt, "n"), Sigs: rapid.IntRange(1, 2).Draw(rt, "sigs")}
			c.Pid = rapid.IntRange(0, c.N-1).Draw(rt, "pid")
			c.T = rapid.IntRange(1, c.N).Draw(rt, "t")
			c.Secret = uint64(rapid.IntRange(1, 500).Draw(rt, "seed")) * 16
			return c
		}, runWork)
}
