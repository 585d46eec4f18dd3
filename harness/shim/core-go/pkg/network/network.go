// Package network is a stand-in for gitlab.com/alephledger/core-go/pkg/network, which is not
// available offline. It declares the interfaces that threshold-ecdsa programs against.
package network

import "time"

// Connection represents a network connection between two processes.
type Connection interface {
	// Read reads data from the connection; like io.Reader it may return fewer bytes than asked for.
	Read([]byte) (int, error)
	// Write writes data to the connection.
	Write([]byte) (int, error)
	// Flush flushes the data written to the connection.
	Flush() error
	// Close the connection.
	Close() error
	// TimeoutAfter closes the connection after the given time.
	TimeoutAfter(t time.Duration)
}

// Server establishes network connections.
type Server interface {
	// Dial connects to a committee member identified by pid and returns the resulting connection or an error.
	Dial(pid uint16) (Connection, error)
	// Listen waits for an incoming connection and returns it or an error.
	Listen() (Connection, error)
	// Stop the server.
	Stop()
}
