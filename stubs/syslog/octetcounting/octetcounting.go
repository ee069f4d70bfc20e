// Package octetcounting stands in for the package of that name.
package octetcounting

import (
	"io"

	"github.com/influxdata/go-syslog"
	"github.com/influxdata/go-syslog/rfc5425"
)

type parser struct {
	bestEffort bool
	emit       syslog.ParserListener
}

// Source stands for the parser when it is set.
var Source func(r io.Reader, emit syslog.ParserListener)

// NewParser returns a parser.
func NewParser(opts ...syslog.ParserOption) syslog.Parser {
	p := &parser{emit: func(*syslog.Result) {}}
	for _, o := range opts {
		p = o(p).(*parser)
	}
	return p
}

// WithBestEffort is the option to go on after errors.
func WithBestEffort() syslog.ParserOption {
	return func(p syslog.Parser) syslog.Parser {
		p.WithBestEffort()
		return p
	}
}

func (p *parser) WithBestEffort()                      { p.bestEffort = true }
func (p *parser) HasBestEffort() bool                  { return p.bestEffort }
func (p *parser) WithListener(f syslog.ParserListener) { p.emit = f }

// Parse parses what r holds until it ends or is no syslog.
func (p *parser) Parse(r io.Reader) {
	if Source != nil {
		Source(r, p.emit)
		return
	}
	var opts []rfc5425.ParserOpt
	if p.bestEffort {
		opts = append(opts, rfc5425.WithBestEffort())
	}
	rfc5425.NewParser(r, opts...).ParseExecuting(func(res *rfc5425.Result) {
		out := &syslog.Result{Error: res.Error}
		if out.Error == nil {
			out.Error = res.MessageError
		}
		if res.Message != nil {
			out.Message = res.Message
		}
		p.emit(out)
	})
}
