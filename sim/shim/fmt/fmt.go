// Package fmt sends the printing functions to the simulated process's
// standard streams.
package fmt

import (
	real "fmt"
	"io"

	"verifsim/shim/os"
)

type (
	Formatter  = real.Formatter
	GoStringer = real.GoStringer
	ScanState  = real.ScanState
	Scanner    = real.Scanner
	State      = real.State
	Stringer   = real.Stringer
)

func Append(b []byte, a ...interface{}) []byte            { return real.Append(b, a...) }
func Appendf(b []byte, f string, a ...interface{}) []byte { return real.Appendf(b, f, a...) }
func Appendln(b []byte, a ...interface{}) []byte          { return real.Appendln(b, a...) }
func Errorf(f string, a ...interface{}) error             { return real.Errorf(f, a...) }
func FormatString(s State, verb rune) string              { return real.FormatString(s, verb) }
func Fprint(w io.Writer, a ...interface{}) (int, error)   { return real.Fprint(w, a...) }
func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	return real.Fprintf(w, f, a...)
}
func Fprintln(w io.Writer, a ...interface{}) (int, error)         { return real.Fprintln(w, a...) }
func Fscan(r io.Reader, a ...interface{}) (int, error)            { return real.Fscan(r, a...) }
func Fscanf(r io.Reader, f string, a ...interface{}) (int, error) { return real.Fscanf(r, f, a...) }
func Fscanln(r io.Reader, a ...interface{}) (int, error)          { return real.Fscanln(r, a...) }
func Print(a ...interface{}) (int, error)                         { return real.Fprint(os.Stdout, a...) }
func Printf(f string, a ...interface{}) (int, error)              { return real.Fprintf(os.Stdout, f, a...) }
func Println(a ...interface{}) (int, error)                       { return real.Fprintln(os.Stdout, a...) }
func Scan(a ...interface{}) (int, error)                          { return real.Fscan(os.Stdin, a...) }
func Scanf(f string, a ...interface{}) (int, error)               { return real.Fscanf(os.Stdin, f, a...) }
func Scanln(a ...interface{}) (int, error)                        { return real.Fscanln(os.Stdin, a...) }
func Sprint(a ...interface{}) string                              { return real.Sprint(a...) }
func Sprintf(f string, a ...interface{}) string                   { return real.Sprintf(f, a...) }
func Sprintln(a ...interface{}) string                            { return real.Sprintln(a...) }
func Sscan(s string, a ...interface{}) (int, error)               { return real.Sscan(s, a...) }
func Sscanf(s, f string, a ...interface{}) (int, error)           { return real.Sscanf(s, f, a...) }
func Sscanln(s string, a ...interface{}) (int, error)             { return real.Sscanln(s, a...) }
