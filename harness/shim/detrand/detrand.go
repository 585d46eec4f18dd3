// Package detrand replaces crypto/rand.Reader by a switchable reader. Its import path sorts before
// those of the packages under test, so that it is initialised before they copy the variable.
package detrand

import (
	"crypto/rand"
	"io"
	"sync"
	"sync/atomic"
)

type sw struct {
	mu  sync.Mutex
	cur atomic.Pointer[io.Reader]
}

func (s *sw) Read(b []byte) (int, error) {
	r := s.cur.Load()
	if r == nil {
		// without the lock, which would order goroutines that are not ordered otherwise
		return original.Read(b)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return (*r).Read(b)
}

var (
	original = rand.Reader
	theSw    = &sw{}
)

func init() { rand.Reader = theSw }

// Set makes r the source of randomness; nil restores the original one. r is called by one
// goroutine at a time.
func Set(r io.Reader) {
	theSw.mu.Lock()
	defer theSw.mu.Unlock()
	if r == nil {
		theSw.cur.Store(nil)
		return
	}
	theSw.cur.Store(&r)
}

// Installed tells whether crypto/rand.Reader still is the switch.
func Installed() bool { return rand.Reader == io.Reader(theSw) }
