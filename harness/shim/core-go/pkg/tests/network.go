// Package tests is a stand-in for gitlab.com/alephledger/core-go/pkg/tests: an in-memory network of
// servers whose connections time out.
package tests

import (
	"errors"
	"net"
	"sync"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

type conn struct {
	net.Conn
	timeout time.Duration
}

func (c *conn) Read(b []byte) (int, error) {
	if err := c.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
		return 0, err
	}
	return c.Conn.Read(b)
}

func (c *conn) Write(b []byte) (int, error) {
	if err := c.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
		return 0, err
	}
	return c.Conn.Write(b)
}

func (c *conn) Flush() error                 { return nil }
func (c *conn) TimeoutAfter(t time.Duration) { time.AfterFunc(t, func() { c.Close() }) }

type server struct {
	all     []*server
	in      chan network.Connection
	done    chan struct{}
	once    sync.Once
	timeout time.Duration
}

func (s *server) Dial(pid uint16) (network.Connection, error) {
	a, b := net.Pipe()
	to := s.all[pid]
	select {
	case to.in <- &conn{b, s.timeout}:
		return &conn{a, s.timeout}, nil
	case <-to.done:
		return nil, errors.New("peer stopped")
	case <-time.After(s.timeout):
		return nil, errors.New("dial timeout")
	}
}

func (s *server) Listen() (network.Connection, error) {
	select {
	case c := <-s.in:
		return c, nil
	case <-s.done:
		return nil, errors.New("stopped")
	case <-time.After(s.timeout):
		return nil, errors.New("listen timeout")
	}
}

func (s *server) Stop() { s.once.Do(func() { close(s.done) }) }

// NewNetwork returns n connected in-memory servers.
func NewNetwork(n int, timeout time.Duration) []network.Server {
	all := make([]*server, n)
	res := make([]network.Server, n)
	for i := range all {
		all[i] = &server{in: make(chan network.Connection, n), done: make(chan struct{}), timeout: timeout}
		res[i] = all[i]
	}
	for i := range all {
		all[i].all = all
	}
	return res
}

// CloseNetwork stops all the servers.
func CloseNetwork(servers []network.Server) {
	for _, s := range servers {
		s.Stop()
	}
}
