// Package log stands in for github.com/go-kit/kit/log (not in this sandbox's
// module cache), as far as the Prometheus packages need it.
package log

// Logger logs pairs of keys and values.
type Logger interface {
	Log(keyvals ...interface{}) error
}

type nop struct{}

func (nop) Log(...interface{}) error { return nil }

// NewNopLogger gives a logger that does nothing.
func NewNopLogger() Logger { return nop{} }
