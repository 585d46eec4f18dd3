// Package det supplies deterministic randomness to the code under test.
package det

import (
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
	"math/rand/v2"
	"runtime"

	"a.local/detrand"

	"verif.local/harness/internal/pbt"
)

// Stream is a deterministic stream: the prefix, then pseudo-random bytes. It counts what is read and
// remembers the reads of 32 bytes.
type Stream struct {
	Prefix []byte
	src    *rand.ChaCha8
	Count  int
	Reads  [][]byte
	Keep   bool
	Nth    map[int][]byte        // replaces the n-th read of this many bytes
	Limit  int                   // bytes after which reading fails, if positive
	Once   bool                  // reading fails only once
	Fill   func(n int, b []byte) // may change what the n-th read gives
	Pieces []int                 // the most bytes a read returns, used cyclically; reads are then kept as they are
	n      int
}

// New returns the stream of a seed.
func New(seed uint64, prefix []byte) *Stream {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], seed)
	return &Stream{Prefix: append([]byte{}, prefix...), src: rand.NewChaCha8(sha256.Sum256(b[:]))}
}

// Read implements io.Reader
func (s *Stream) Read(b []byte) (int, error) {
	if len(s.Pieces) > 0 {
		if k := s.Pieces[s.n%len(s.Pieces)]; k > 0 && k < len(b) {
			b = b[:k]
		}
	}
	if s.Limit > 0 && s.Count+len(b) > s.Limit {
		if s.Once {
			s.Limit = 0
		}
		giveUp()
		return 0, errors.New("no more randomness")
	}
	i := s.n
	s.n++
	n := copy(b, s.Prefix)
	s.Prefix = s.Prefix[n:]
	if n < len(b) {
		s.src.Read(b[n:])
	}
	if r, ok := s.Nth[i]; ok && len(r) == len(b) {
		copy(b, r)
	}
	if s.Fill != nil {
		s.Fill(i, b)
	}
	s.Count += len(b)
	if s.Keep {
		s.Reads = append(s.Reads, append([]byte{}, b...))
	}
	return len(b), nil
}

// giveUp panics if the caller is rand.Read, which would end the whole process at an error.
func giveUp() {
	pc := make([]uintptr, 50)
	frames := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := frames.Next()
		if f.Function == "crypto/rand.Read" {
			panic("rand.Read: no more randomness")
		}
		if !more {
			return
		}
	}
}

// With runs f with r as the source of crypto/rand.
func With(r io.Reader, f func()) {
	if !detrand.Installed() {
		pbt.Abort("crypto/rand.Reader was replaced by the code under test")
	}
	detrand.Set(r)
	defer detrand.Set(nil)
	f()
}
