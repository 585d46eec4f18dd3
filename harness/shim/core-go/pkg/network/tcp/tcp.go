// Package tcp is a stand-in for gitlab.com/alephledger/core-go/pkg/network/tcp.
package tcp

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"net"
	"os"
	"path/filepath"
	"time"

	"github.com/rs/zerolog"

	"gitlab.com/alephledger/core-go/pkg/network"
)

type conn struct {
	net.Conn
	w *bufio.Writer
	r *bufio.Reader
}

func newConn(c net.Conn) *conn { return &conn{c, bufio.NewWriter(c), bufio.NewReader(c)} }

func (c *conn) Read(b []byte) (int, error)   { return c.r.Read(b) }
func (c *conn) Write(b []byte) (int, error)  { return c.w.Write(b) }
func (c *conn) Flush() error                 { return c.w.Flush() }
func (c *conn) TimeoutAfter(t time.Duration) { time.AfterFunc(t, func() { c.Close() }) }

type server struct {
	l       net.Listener
	remotes []string
	network string
}

func raw(l []string) (r [][]byte) {
	for _, s := range l {
		r = append(r, []byte(s))
	}
	return r
}

func sock(dir, addr string) string {
	h := sha256.Sum256([]byte(addr))
	return filepath.Join(dir, hex.EncodeToString(h[:8]))
}

// NewServer listens on localAddress.
func NewServer(localAddress string, remoteAddresses []string, _ zerolog.Logger) (network.Server, error) {
	if f := os.Getenv("VERIF_TCP_DUMP"); f != "" {
		// what the program would connect to
		b, err := json.Marshal(map[string]interface{}{"local": []byte(localAddress), "remotes": raw(remoteAddresses)})
		if err == nil {
			err = os.WriteFile(f, b, 0o600)
		}
		if err != nil {
			return nil, err
		}
		return nil, errors.New("written to VERIF_TCP_DUMP")
	}
	if d := os.Getenv("VERIF_TCP_DIR"); d != "" {
		// sockets of the file system in place of addresses
		l, err := net.Listen("unix", sock(d, localAddress))
		if err != nil {
			return nil, err
		}
		s := &server{l: l, network: "unix"}
		for _, r := range remoteAddresses {
			s.remotes = append(s.remotes, sock(d, r))
		}
		return s, nil
	}
	l, err := net.Listen("tcp", localAddress)
	if err != nil {
		return nil, err
	}
	return &server{l, remoteAddresses, "tcp"}, nil
}

func (s *server) Dial(pid uint16) (network.Connection, error) {
	c, err := net.DialTimeout(s.network, s.remotes[pid], time.Second)
	if err != nil {
		time.Sleep(10 * time.Millisecond)
		return nil, err
	}
	return newConn(c), nil
}

func (s *server) Listen() (network.Connection, error) {
	c, err := s.l.Accept()
	if err != nil {
		time.Sleep(10 * time.Millisecond)
		return nil, err
	}
	return newConn(c), nil
}

func (s *server) Stop() { s.l.Close() }
