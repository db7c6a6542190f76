// Package log is a stand-in for github.com/Breeze0806/go/log, which is not
// present in this sandbox. It declares the API the repository uses so that the
// root package can be type-checked and compiled.
package log

import "io"

// Level is a log level.
type Level int

// Log levels.
const (
	DebugLevel Level = iota
	InfoLevel
	ErrorLevel
)

// Logger is the logging interface.
type Logger interface {
	Errorf(format string, args ...interface{})
	Infof(format string, args ...interface{})
	Debugf(format string, args ...interface{})
	Print(v ...interface{})
}

type nop struct{}

func (nop) Errorf(format string, args ...interface{}) {}
func (nop) Infof(format string, args ...interface{})  {}
func (nop) Debugf(format string, args ...interface{}) {}
func (nop) Print(v ...interface{})                    {}

var current Logger = nop{}

// NewDefaultLogger returns a logger.
func NewDefaultLogger(w io.Writer, l Level, prefix string) Logger { return nop{} }

// SetLogger sets the process logger.
func SetLogger(l Logger) { current = l }

// GetLogger returns the process logger.
func GetLogger() Logger { return current }
