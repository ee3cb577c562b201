// Package flag gives every simulated process its own command line.
package flag

import (
	"encoding"
	real "flag"
	"time"
)

const ContinueOnError = real.ContinueOnError
const ExitOnError = real.ExitOnError
const PanicOnError = real.PanicOnError

func Arg(i int) string { return (*SimCommandLine()).Arg(i) }
func Args() []string   { return (*SimCommandLine()).Args() }
func Bool(name string, value bool, usage string) *bool {
	return (*SimCommandLine()).Bool(name, value, usage)
}
func BoolFunc(name string, usage string, fn func(string) error) {
	(*SimCommandLine()).BoolFunc(name, usage, fn)
}
func BoolVar(p *bool, name string, value bool, usage string) {
	(*SimCommandLine()).BoolVar(p, name, value, usage)
}
func Duration(name string, value time.Duration, usage string) *time.Duration {
	return (*SimCommandLine()).Duration(name, value, usage)
}
func DurationVar(p *time.Duration, name string, value time.Duration, usage string) {
	(*SimCommandLine()).DurationVar(p, name, value, usage)
}
func Float64(name string, value float64, usage string) *float64 {
	return (*SimCommandLine()).Float64(name, value, usage)
}
func Float64Var(p *float64, name string, value float64, usage string) {
	(*SimCommandLine()).Float64Var(p, name, value, usage)
}
func Func(name string, usage string, fn func(string) error) {
	(*SimCommandLine()).Func(name, usage, fn)
}
func Int(name string, value int, usage string) *int {
	return (*SimCommandLine()).Int(name, value, usage)
}
func Int64(name string, value int64, usage string) *int64 {
	return (*SimCommandLine()).Int64(name, value, usage)
}
func Int64Var(p *int64, name string, value int64, usage string) {
	(*SimCommandLine()).Int64Var(p, name, value, usage)
}
func IntVar(p *int, name string, value int, usage string) {
	(*SimCommandLine()).IntVar(p, name, value, usage)
}
func Lookup(name string) *Flag            { return (*SimCommandLine()).Lookup(name) }
func NArg() int                           { return (*SimCommandLine()).NArg() }
func NFlag() int                          { return (*SimCommandLine()).NFlag() }
func Parsed() bool                        { return (*SimCommandLine()).Parsed() }
func PrintDefaults()                      { (*SimCommandLine()).PrintDefaults() }
func Set(name string, value string) error { return (*SimCommandLine()).Set(name, value) }
func String(name string, value string, usage string) *string {
	return (*SimCommandLine()).String(name, value, usage)
}
func StringVar(p *string, name string, value string, usage string) {
	(*SimCommandLine()).StringVar(p, name, value, usage)
}
func TextVar(p encoding.TextUnmarshaler, name string, value encoding.TextMarshaler, usage string) {
	(*SimCommandLine()).TextVar(p, name, value, usage)
}
func Uint(name string, value uint, usage string) *uint {
	return (*SimCommandLine()).Uint(name, value, usage)
}
func Uint64(name string, value uint64, usage string) *uint64 {
	return (*SimCommandLine()).Uint64(name, value, usage)
}
func Uint64Var(p *uint64, name string, value uint64, usage string) {
	(*SimCommandLine()).Uint64Var(p, name, value, usage)
}
func UintVar(p *uint, name string, value uint, usage string) {
	(*SimCommandLine()).UintVar(p, name, value, usage)
}
func Var(value Value, name string, usage string) { (*SimCommandLine()).Var(value, name, usage) }
func Visit(fn func(*Flag))                       { (*SimCommandLine()).Visit(fn) }
func VisitAll(fn func(*Flag))                    { (*SimCommandLine()).VisitAll(fn) }

type ErrorHandling = real.ErrorHandling
type Flag = real.Flag
type FlagSet = real.FlagSet
type Getter = real.Getter
type Value = real.Value

var ErrHelp = real.ErrHelp
var UnquoteUsage = real.UnquoteUsage
