// Package zerolog is a stand-in for github.com/rs/zerolog, of which only Nop and the Logger type are used.
package zerolog

// Logger does nothing.
type Logger struct{}

// Nop returns a disabled logger.
func Nop() Logger { return Logger{} }
