// Package log writes to the simulated process's standard error stream and
// ends the simulated process.
package log

import (
	"fmt"
	"io"
	real "log"

	"verifsim/shim/os"
)

const (
	Ldate         = real.Ldate
	Ltime         = real.Ltime
	Lmicroseconds = real.Lmicroseconds
	Llongfile     = real.Llongfile
	Lshortfile    = real.Lshortfile
	LUTC          = real.LUTC
	Lmsgprefix    = real.Lmsgprefix
	LstdFlags     = real.LstdFlags
)

// Logger leaves the time of day out.
type Logger struct{ l *real.Logger }

const clock = Ldate | Ltime | Lmicroseconds

var std = New(os.Stderr, "", 0)

func Default() *Logger { return std }
func New(w io.Writer, prefix string, flag int) *Logger {
	return &Logger{real.New(w, prefix, flag&^clock)}
}

func (l *Logger) out(s string)                      { l.l.Output(3, s) }
func (l *Logger) Output(d int, s string) error      { return l.l.Output(d+1, s) }
func (l *Logger) Print(a ...interface{})            { l.out(fmt.Sprint(a...)) }
func (l *Logger) Printf(f string, a ...interface{}) { l.out(fmt.Sprintf(f, a...)) }
func (l *Logger) Println(a ...interface{})          { l.out(fmt.Sprintln(a...)) }
func (l *Logger) Fatal(a ...interface{})            { l.out(fmt.Sprint(a...)); os.Exit(1) }
func (l *Logger) Fatalf(f string, a ...interface{}) { l.out(fmt.Sprintf(f, a...)); os.Exit(1) }
func (l *Logger) Fatalln(a ...interface{})          { l.out(fmt.Sprintln(a...)); os.Exit(1) }
func (l *Logger) Panic(a ...interface{})            { s := fmt.Sprint(a...); l.out(s); panic(s) }
func (l *Logger) Panicf(f string, a ...interface{}) { s := fmt.Sprintf(f, a...); l.out(s); panic(s) }
func (l *Logger) Panicln(a ...interface{})          { s := fmt.Sprintln(a...); l.out(s); panic(s) }
func (l *Logger) Flags() int                        { return l.l.Flags() }
func (l *Logger) SetFlags(flag int)                 { l.l.SetFlags(flag &^ clock) }
func (l *Logger) Prefix() string                    { return l.l.Prefix() }
func (l *Logger) SetPrefix(p string)                { l.l.SetPrefix(p) }
func (l *Logger) Writer() io.Writer                 { return l.l.Writer() }
func (l *Logger) SetOutput(w io.Writer)             { l.l.SetOutput(w) }
func Output(d int, s string) error                  { return std.l.Output(d+1, s) }
func Print(a ...interface{})                        { std.out(fmt.Sprint(a...)) }
func Printf(f string, a ...interface{})             { std.out(fmt.Sprintf(f, a...)) }
func Println(a ...interface{})                      { std.out(fmt.Sprintln(a...)) }
func Fatal(a ...interface{})                        { std.out(fmt.Sprint(a...)); os.Exit(1) }
func Fatalf(f string, a ...interface{})             { std.out(fmt.Sprintf(f, a...)); os.Exit(1) }
func Fatalln(a ...interface{})                      { std.out(fmt.Sprintln(a...)); os.Exit(1) }
func Panic(a ...interface{})                        { std.Panic(a...) }
func Panicf(f string, a ...interface{})             { std.Panicf(f, a...) }
func Panicln(a ...interface{})                      { std.Panicln(a...) }
func Flags() int                                    { return std.Flags() }
func SetFlags(flag int)                             { std.SetFlags(flag) }
func Prefix() string                                { return std.Prefix() }
func SetPrefix(p string)                            { std.SetPrefix(p) }
func Writer() io.Writer                             { return std.Writer() }
func SetOutput(w io.Writer)                         { std.SetOutput(w) }
