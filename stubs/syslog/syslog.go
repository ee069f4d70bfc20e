// Package syslog stands in for github.com/influxdata/go-syslog of a later
// release (not in this sandbox's module cache): the names the repository
// uses, over the parser of the release that is there.
package syslog

import (
	"io"
	"time"
)

// Message is a syslog message; what it lacks is nil.
type Message interface {
	Valid() bool
	Priority() *uint8
	Version() uint16
	Facility() *uint8
	Severity() *uint8
	FacilityMessage() *string
	FacilityLevel() *string
	SeverityMessage() *string
	SeverityLevel() *string
	SeverityShortLevel() *string
	Timestamp() *time.Time
	Hostname() *string
	ProcID() *string
	Appname() *string
	MsgID() *string
	Message() *string
	StructuredData() *map[string]map[string]string
}

// Result is a message, or why there is none.
type Result struct {
	Message Message
	Error   error
}

// ParserListener is given the results.
type ParserListener func(*Result)

// ParserOption changes a parser.
type ParserOption func(p Parser) Parser

// BestEfforter is told whether to go on after errors.
type BestEfforter interface {
	WithBestEffort()
	HasBestEffort() bool
}

// Parser parses a stream of messages.
type Parser interface {
	Parse(r io.Reader)
	WithListener(ParserListener)
	BestEfforter
}
