// Package pbt runs properties over generated cases with rapid: it counts and classifies the cases,
// keeps the minimal failing one as a replay file, and replays such files without the library.
package pbt

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const repoPath = "gitlab.com/alephledger/threshold-ecdsa/"

// TT is testing.T, of which virtual-time runs need one.
type TT = testing.T

var theT *testing.T

// TestingT is the test being run.
func TestingT() *testing.T {
	if theT == nil {
		Abort("no test is running")
	}
	return theT
}

// InRepo tells whether a stack trace goes through the code under test.
func InRepo(stack string) bool { return strings.Contains(stack, repoPath) }

// T is the context of one case.
type T struct {
	labels     map[string]bool
	nonTrivial bool
	known      []string
	Facet      string
}

type failure struct{ msg string }

// Failf reports that the property does not hold for the case.
func (t *T) Failf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// FailMessage tells whether a recovered value is a failure of the case or an abort, and its message.
func FailMessage(e interface{}) (msg string, fail, abort bool) {
	switch e := e.(type) {
	case failure:
		return e.msg, true, false
	case HarnessError:
		return e.Msg, false, true
	}
	return "", false, false
}

// Check fails with the message unless ok.
func (t *T) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		t.Failf(format, args...)
	}
}

// Label classifies the case.
func (t *T) Label(format string, args ...interface{}) {
	s := format
	if len(args) > 0 {
		s = fmt.Sprintf(format, args...)
	}
	t.labels[s] = true
}

// NonTrivial marks the case as non-trivial by the facet's rule.
func (t *T) NonTrivial() { t.nonTrivial = true }

// Known reports a listed finding seen in the case (key is the entry's identifier).
func (t *T) Known(key string) { t.known = append(t.known, key) }

// HarnessError aborts the run as an error of the check itself (exit code 2, no verdict).
type HarnessError struct{ Msg string }

// Abort stops the whole run as an error of the check.
func Abort(format string, args ...interface{}) {
	panic(HarnessError{fmt.Sprintf(format, args...)})
}

type facet struct {
	prop, name, rule string
	quick, thorough  int
	gen              func(*rapid.T) interface{}
	run              func(*T, json.RawMessage)
	fixed            []json.RawMessage
}

var facets []*facet

// Facet registers one executable form of a property: gen draws a case, which must survive a JSON
// round trip, run decides it. quick and thorough are the total numbers of cases. fixed cases are run
// every time, before the generated ones.
func Facet[C any](prop, name, rule string, quick, thorough int, gen func(*rapid.T) C, run func(*T, C), fixed ...C) {
	f := &facet{prop: prop, name: name, rule: rule, quick: quick, thorough: thorough}
	if gen != nil {
		f.gen = func(rt *rapid.T) interface{} { return gen(rt) }
	}
	f.run = func(t *T, raw json.RawMessage) {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			Abort("case of %s/%s does not survive JSON: %v", prop, name, err)
		}
		run(t, c)
	}
	for _, c := range fixed {
		f.fixed = append(f.fixed, mustJSON(c))
	}
	facets = append(facets, f)
}

func mustJSON(v interface{}) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		Abort("cannot encode case: %v", err)
	}
	return b
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

// Stats of a facet in one process.
type Stats struct {
	Facet       string            `json:"facet"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Hashes      []string          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Known       map[string]int    `json:"known"`
	KnownSample map[string]string `json:"known_sample"`
	Samples     []json.RawMessage `json:"samples"`
	Failed      bool              `json:"failed"`
	WallS       float64           `json:"wall_s"`
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func envInt(k string, def int) int {
	n, err := strconv.Atoi(env(k, strconv.Itoa(def)))
	if err != nil {
		Abort("%s: %v", k, err)
	}
	return n
}

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return env("PBT_TIER", "quick") == "thorough" }

func seedFor(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	s := h.Sum64()
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], s)
	d := sha256.Sum256(b[:])
	s = binary.BigEndian.Uint64(d[:8]) >> 1
	if s == 0 {
		s = 1
	}
	return s
}

// exec runs one case and returns the failure message, or "".
func (f *facet) exec(t *T, raw json.RawMessage) (msg string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case failure:
			msg = e.msg
		case HarnessError:
			panic(e)
		default:
			st := string(debug.Stack())
			if strings.Contains(st, repoPath) {
				msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(st))
			} else {
				panic(HarnessError{fmt.Sprintf("panic in the harness: %v\n%s", e, st)})
			}
		}
	}()
	f.run(t, raw)
	return ""
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

var curFile *os.File

// setCurrent notes the case being run, for crashes that end the process.
func setCurrent(out string, f *facet, raw json.RawMessage) {
	if out == "" {
		return
	}
	if curFile == nil {
		var err error
		curFile, err = os.Create(filepath.Join(out, "current-"+env("PBT_SHARD", "0")+".json"))
		if err != nil {
			Abort("%v", err)
		}
	}
	b := mustJSON(Replay{f.prop, f.name, "process ended while running this case", raw})
	// the length first, so that a stale tail is ignored
	h := []byte(fmt.Sprintf("%012d", len(b)))
	if _, err := curFile.WriteAt(append(h, b...), 0); err != nil {
		Abort("%v", err)
	}
}

// Main is the body of the only test of a package of properties.
func Main(t *testing.T) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case HarnessError:
			fmt.Println("HARNESS-ERROR:", e.Msg)
			os.Exit(3)
		default:
			panic(e)
		}
	}()
	theT = t
	prop := env("PBT_PROP", "")
	out := env("PBT_OUT", "")
	if p := env("PBT_REPLAY", ""); p != "" {
		replay(p)
		return
	}
	shard, shards := envInt("PBT_SHARD", 0), envInt("PBT_SHARDS", 1)
	only := env("PBT_FACET", "")
	n := 0
	for _, f := range facets {
		if (prop != "" && f.prop != prop) || (only != "" && f.name != only) {
			continue
		}
		n++
		runFacet(t, f, shard, shards, out)
	}
	if n == 0 {
		Abort("no facets for property %q", prop)
	}
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		Abort("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		Abort("%v", err)
	}
	for _, f := range facets {
		if f.prop == r.Property && f.name == r.Facet {
			tt := &T{labels: map[string]bool{}, Facet: f.name}
			msg := f.exec(tt, r.Case)
			for _, k := range tt.known {
				fmt.Println("known finding:", k)
			}
			if msg != "" {
				fmt.Println("REPLAY-FAILED:", msg)
			} else {
				fmt.Println("REPLAY-PASSED")
			}
			return
		}
	}
	Abort("no facet %s/%s", r.Property, r.Facet)
}

func runFacet(t *testing.T, f *facet, shard, shards int, out string) {
	total := f.quick
	if Thorough() {
		total = f.thorough
	}
	if s := env("PBT_SCALE", ""); s != "" {
		x, err := strconv.ParseFloat(s, 64)
		if err != nil {
			Abort("PBT_SCALE: %v", err)
		}
		total = int(float64(total)*x) + 1
	}
	count := total / shards
	if shard < total%shards {
		count++
	}
	if f.gen == nil {
		count = 0
	}
	st := &Stats{Facet: f.name, Rule: f.rule, Labels: map[string]int{}, Known: map[string]int{}, KnownSample: map[string]string{}}
	hashes := map[string]bool{}
	begin := time.Now()
	failed := false
	eval := func(raw json.RawMessage) string {
		setCurrent(out, f, raw)
		tt := &T{labels: map[string]bool{}, Facet: f.name}
		msg := f.exec(tt, raw)
		if msg != "" {
			failed = true
			if out != "" {
				b, _ := json.MarshalIndent(Replay{f.prop, f.name, msg, raw}, "", " ")
				name := filepath.Join(out, fmt.Sprintf("fail-%s-%d.json", f.name, shard))
				err := os.WriteFile(name+".new", b, 0o644)
				if err == nil {
					err = os.Rename(name+".new", name)
				}
				if err != nil {
					Abort("%v", err)
				}
			}
		}
		if failed {
			// the cases tried while shrinking are not counted
			return msg
		}
		st.Evaluations++
		for l := range tt.labels {
			st.Labels[l]++
		}
		for _, k := range tt.known {
			st.Known[k]++
			if st.KnownSample[k] == "" {
				st.KnownSample[k] = string(raw)
			}
		}
		if tt.nonTrivial {
			st.NonTrivial++
			d := sha256.Sum256(raw)
			h := fmt.Sprintf("%x", d[:8])
			if !hashes[h] {
				hashes[h] = true
				if len(st.Samples) < 2 || (len(st.Samples) < 4 && st.NonTrivial%37 == 0) {
					st.Samples = append(st.Samples, raw)
				}
			}
		}
		return msg
	}
	t.Run(f.name, func(t *testing.T) {
		outer := theT
		theT = t
		defer func() { theT = outer }()
		for i, raw := range f.fixed {
			if i%shards == shard {
				if msg := eval(raw); msg != "" {
					fmt.Printf("FAILED %s/%s: %s\n", f.prop, f.name, msg)
					t.FailNow()
				}
			}
		}
		if count == 0 {
			return
		}
		set := func(k, v string) {
			if err := flag.Set(k, v); err != nil {
				Abort("%v", err)
			}
		}
		set("rapid.checks", strconv.Itoa(count))
		set("rapid.seed", strconv.FormatUint(seedFor(env("VERIF_SEED", "1"), f.prop, f.name, strconv.Itoa(shard)), 10))
		set("rapid.nofailfile", "true")
		set("rapid.shrinktime", env("PBT_SHRINK", "10s"))
		rapid.Check(t, func(rt *rapid.T) {
			c := f.gen(rt)
			var msg string
			func() {
				defer func() {
					if e := recover(); e != nil {
						if he, ok := e.(HarnessError); ok {
							fmt.Println("HARNESS-ERROR:", he.Msg)
							os.Exit(3)
						}
						panic(e)
					}
				}()
				msg = eval(mustJSON(c))
			}()
			if msg != "" {
				// one line, always the same for the same kind of failure: rapid takes
				// differing messages for different failures
				rt.Fatalf("property %s does not hold", f.prop)
			}
		})
	})
	st.Failed = failed
	st.WallS = time.Since(begin).Seconds()
	if out != "" {
		for h := range hashes {
			st.Hashes = append(st.Hashes, h)
		}
		sort.Strings(st.Hashes)
		b := mustJSON(st)
		if err := os.WriteFile(filepath.Join(out, fmt.Sprintf("stats-%s-%d.json", f.name, shard)), b, 0o644); err != nil {
			Abort("%v", err)
		}
	} else {
		fmt.Printf("%s/%s: %d evaluations, %d non-trivial, %d distinct, labels %v, known %v, %.1fs\n", f.prop, f.name, st.Evaluations, st.NonTrivial, len(hashes), st.Labels, st.Known, st.WallS)
	}
}
