// Package pflag gives every simulated process its own command line.
package pflag

import (
	real "github.com/spf13/pflag"
	"net"
	"time"
)

const ContinueOnError = real.ContinueOnError
const ExitOnError = real.ExitOnError
const PanicOnError = real.PanicOnError

func Arg(i int) string { return (*SimCommandLine()).Arg(i) }
func Args() []string   { return (*SimCommandLine()).Args() }
func Bool(name string, value bool, usage string) *bool {
	return (*SimCommandLine()).Bool(name, value, usage)
}
func BoolP(name string, shorthand string, value bool, usage string) *bool {
	return (*SimCommandLine()).BoolP(name, shorthand, value, usage)
}
func BoolSlice(name string, value []bool, usage string) *[]bool {
	return (*SimCommandLine()).BoolSlice(name, value, usage)
}
func BoolSliceP(name string, shorthand string, value []bool, usage string) *[]bool {
	return (*SimCommandLine()).BoolSliceP(name, shorthand, value, usage)
}
func BoolSliceVar(p *[]bool, name string, value []bool, usage string) {
	(*SimCommandLine()).BoolSliceVar(p, name, value, usage)
}
func BoolSliceVarP(p *[]bool, name string, shorthand string, value []bool, usage string) {
	(*SimCommandLine()).BoolSliceVarP(p, name, shorthand, value, usage)
}
func BoolVar(p *bool, name string, value bool, usage string) {
	(*SimCommandLine()).BoolVar(p, name, value, usage)
}
func BoolVarP(p *bool, name string, shorthand string, value bool, usage string) {
	(*SimCommandLine()).BoolVarP(p, name, shorthand, value, usage)
}
func BytesBase64(name string, value []byte, usage string) *[]byte {
	return (*SimCommandLine()).BytesBase64(name, value, usage)
}
func BytesBase64P(name string, shorthand string, value []byte, usage string) *[]byte {
	return (*SimCommandLine()).BytesBase64P(name, shorthand, value, usage)
}
func BytesBase64Var(p *[]byte, name string, value []byte, usage string) {
	(*SimCommandLine()).BytesBase64Var(p, name, value, usage)
}
func BytesBase64VarP(p *[]byte, name string, shorthand string, value []byte, usage string) {
	(*SimCommandLine()).BytesBase64VarP(p, name, shorthand, value, usage)
}
func BytesHex(name string, value []byte, usage string) *[]byte {
	return (*SimCommandLine()).BytesHex(name, value, usage)
}
func BytesHexP(name string, shorthand string, value []byte, usage string) *[]byte {
	return (*SimCommandLine()).BytesHexP(name, shorthand, value, usage)
}
func BytesHexVar(p *[]byte, name string, value []byte, usage string) {
	(*SimCommandLine()).BytesHexVar(p, name, value, usage)
}
func BytesHexVarP(p *[]byte, name string, shorthand string, value []byte, usage string) {
	(*SimCommandLine()).BytesHexVarP(p, name, shorthand, value, usage)
}
func Count(name string, usage string) *int { return (*SimCommandLine()).Count(name, usage) }
func CountP(name string, shorthand string, usage string) *int {
	return (*SimCommandLine()).CountP(name, shorthand, usage)
}
func CountVar(p *int, name string, usage string) { (*SimCommandLine()).CountVar(p, name, usage) }
func CountVarP(p *int, name string, shorthand string, usage string) {
	(*SimCommandLine()).CountVarP(p, name, shorthand, usage)
}
func Duration(name string, value time.Duration, usage string) *time.Duration {
	return (*SimCommandLine()).Duration(name, value, usage)
}
func DurationP(name string, shorthand string, value time.Duration, usage string) *time.Duration {
	return (*SimCommandLine()).DurationP(name, shorthand, value, usage)
}
func DurationSlice(name string, value []time.Duration, usage string) *[]time.Duration {
	return (*SimCommandLine()).DurationSlice(name, value, usage)
}
func DurationSliceP(name string, shorthand string, value []time.Duration, usage string) *[]time.Duration {
	return (*SimCommandLine()).DurationSliceP(name, shorthand, value, usage)
}
func DurationSliceVar(p *[]time.Duration, name string, value []time.Duration, usage string) {
	(*SimCommandLine()).DurationSliceVar(p, name, value, usage)
}
func DurationSliceVarP(p *[]time.Duration, name string, shorthand string, value []time.Duration, usage string) {
	(*SimCommandLine()).DurationSliceVarP(p, name, shorthand, value, usage)
}
func DurationVar(p *time.Duration, name string, value time.Duration, usage string) {
	(*SimCommandLine()).DurationVar(p, name, value, usage)
}
func DurationVarP(p *time.Duration, name string, shorthand string, value time.Duration, usage string) {
	(*SimCommandLine()).DurationVarP(p, name, shorthand, value, usage)
}
func Float32(name string, value float32, usage string) *float32 {
	return (*SimCommandLine()).Float32(name, value, usage)
}
func Float32P(name string, shorthand string, value float32, usage string) *float32 {
	return (*SimCommandLine()).Float32P(name, shorthand, value, usage)
}
func Float32Var(p *float32, name string, value float32, usage string) {
	(*SimCommandLine()).Float32Var(p, name, value, usage)
}
func Float32VarP(p *float32, name string, shorthand string, value float32, usage string) {
	(*SimCommandLine()).Float32VarP(p, name, shorthand, value, usage)
}
func Float64(name string, value float64, usage string) *float64 {
	return (*SimCommandLine()).Float64(name, value, usage)
}
func Float64P(name string, shorthand string, value float64, usage string) *float64 {
	return (*SimCommandLine()).Float64P(name, shorthand, value, usage)
}
func Float64Var(p *float64, name string, value float64, usage string) {
	(*SimCommandLine()).Float64Var(p, name, value, usage)
}
func Float64VarP(p *float64, name string, shorthand string, value float64, usage string) {
	(*SimCommandLine()).Float64VarP(p, name, shorthand, value, usage)
}
func IP(name string, value net.IP, usage string) *net.IP {
	return (*SimCommandLine()).IP(name, value, usage)
}
func IPMask(name string, value net.IPMask, usage string) *net.IPMask {
	return (*SimCommandLine()).IPMask(name, value, usage)
}
func IPMaskP(name string, shorthand string, value net.IPMask, usage string) *net.IPMask {
	return (*SimCommandLine()).IPMaskP(name, shorthand, value, usage)
}
func IPMaskVar(p *net.IPMask, name string, value net.IPMask, usage string) {
	(*SimCommandLine()).IPMaskVar(p, name, value, usage)
}
func IPMaskVarP(p *net.IPMask, name string, shorthand string, value net.IPMask, usage string) {
	(*SimCommandLine()).IPMaskVarP(p, name, shorthand, value, usage)
}
func IPNet(name string, value net.IPNet, usage string) *net.IPNet {
	return (*SimCommandLine()).IPNet(name, value, usage)
}
func IPNetP(name string, shorthand string, value net.IPNet, usage string) *net.IPNet {
	return (*SimCommandLine()).IPNetP(name, shorthand, value, usage)
}
func IPNetVar(p *net.IPNet, name string, value net.IPNet, usage string) {
	(*SimCommandLine()).IPNetVar(p, name, value, usage)
}
func IPNetVarP(p *net.IPNet, name string, shorthand string, value net.IPNet, usage string) {
	(*SimCommandLine()).IPNetVarP(p, name, shorthand, value, usage)
}
func IPP(name string, shorthand string, value net.IP, usage string) *net.IP {
	return (*SimCommandLine()).IPP(name, shorthand, value, usage)
}
func IPSlice(name string, value []net.IP, usage string) *[]net.IP {
	return (*SimCommandLine()).IPSlice(name, value, usage)
}
func IPSliceP(name string, shorthand string, value []net.IP, usage string) *[]net.IP {
	return (*SimCommandLine()).IPSliceP(name, shorthand, value, usage)
}
func IPSliceVar(p *[]net.IP, name string, value []net.IP, usage string) {
	(*SimCommandLine()).IPSliceVar(p, name, value, usage)
}
func IPSliceVarP(p *[]net.IP, name string, shorthand string, value []net.IP, usage string) {
	(*SimCommandLine()).IPSliceVarP(p, name, shorthand, value, usage)
}
func IPVar(p *net.IP, name string, value net.IP, usage string) {
	(*SimCommandLine()).IPVar(p, name, value, usage)
}
func IPVarP(p *net.IP, name string, shorthand string, value net.IP, usage string) {
	(*SimCommandLine()).IPVarP(p, name, shorthand, value, usage)
}
func Int(name string, value int, usage string) *int {
	return (*SimCommandLine()).Int(name, value, usage)
}
func Int16(name string, value int16, usage string) *int16 {
	return (*SimCommandLine()).Int16(name, value, usage)
}
func Int16P(name string, shorthand string, value int16, usage string) *int16 {
	return (*SimCommandLine()).Int16P(name, shorthand, value, usage)
}
func Int16Var(p *int16, name string, value int16, usage string) {
	(*SimCommandLine()).Int16Var(p, name, value, usage)
}
func Int16VarP(p *int16, name string, shorthand string, value int16, usage string) {
	(*SimCommandLine()).Int16VarP(p, name, shorthand, value, usage)
}
func Int32(name string, value int32, usage string) *int32 {
	return (*SimCommandLine()).Int32(name, value, usage)
}
func Int32P(name string, shorthand string, value int32, usage string) *int32 {
	return (*SimCommandLine()).Int32P(name, shorthand, value, usage)
}
func Int32Var(p *int32, name string, value int32, usage string) {
	(*SimCommandLine()).Int32Var(p, name, value, usage)
}
func Int32VarP(p *int32, name string, shorthand string, value int32, usage string) {
	(*SimCommandLine()).Int32VarP(p, name, shorthand, value, usage)
}
func Int64(name string, value int64, usage string) *int64 {
	return (*SimCommandLine()).Int64(name, value, usage)
}
func Int64P(name string, shorthand string, value int64, usage string) *int64 {
	return (*SimCommandLine()).Int64P(name, shorthand, value, usage)
}
func Int64Var(p *int64, name string, value int64, usage string) {
	(*SimCommandLine()).Int64Var(p, name, value, usage)
}
func Int64VarP(p *int64, name string, shorthand string, value int64, usage string) {
	(*SimCommandLine()).Int64VarP(p, name, shorthand, value, usage)
}
func Int8(name string, value int8, usage string) *int8 {
	return (*SimCommandLine()).Int8(name, value, usage)
}
func Int8P(name string, shorthand string, value int8, usage string) *int8 {
	return (*SimCommandLine()).Int8P(name, shorthand, value, usage)
}
func Int8Var(p *int8, name string, value int8, usage string) {
	(*SimCommandLine()).Int8Var(p, name, value, usage)
}
func Int8VarP(p *int8, name string, shorthand string, value int8, usage string) {
	(*SimCommandLine()).Int8VarP(p, name, shorthand, value, usage)
}
func IntP(name string, shorthand string, value int, usage string) *int {
	return (*SimCommandLine()).IntP(name, shorthand, value, usage)
}
func IntSlice(name string, value []int, usage string) *[]int {
	return (*SimCommandLine()).IntSlice(name, value, usage)
}
func IntSliceP(name string, shorthand string, value []int, usage string) *[]int {
	return (*SimCommandLine()).IntSliceP(name, shorthand, value, usage)
}
func IntSliceVar(p *[]int, name string, value []int, usage string) {
	(*SimCommandLine()).IntSliceVar(p, name, value, usage)
}
func IntSliceVarP(p *[]int, name string, shorthand string, value []int, usage string) {
	(*SimCommandLine()).IntSliceVarP(p, name, shorthand, value, usage)
}
func IntVar(p *int, name string, value int, usage string) {
	(*SimCommandLine()).IntVar(p, name, value, usage)
}
func IntVarP(p *int, name string, shorthand string, value int, usage string) {
	(*SimCommandLine()).IntVarP(p, name, shorthand, value, usage)
}
func Lookup(name string) *Flag            { return (*SimCommandLine()).Lookup(name) }
func NArg() int                           { return (*SimCommandLine()).NArg() }
func NFlag() int                          { return (*SimCommandLine()).NFlag() }
func Parsed() bool                        { return (*SimCommandLine()).Parsed() }
func PrintDefaults()                      { (*SimCommandLine()).PrintDefaults() }
func Set(name string, value string) error { return (*SimCommandLine()).Set(name, value) }
func SetInterspersed(interspersed bool)   { (*SimCommandLine()).SetInterspersed(interspersed) }
func ShorthandLookup(name string) *Flag   { return (*SimCommandLine()).ShorthandLookup(name) }
func String(name string, value string, usage string) *string {
	return (*SimCommandLine()).String(name, value, usage)
}
func StringArray(name string, value []string, usage string) *[]string {
	return (*SimCommandLine()).StringArray(name, value, usage)
}
func StringArrayP(name string, shorthand string, value []string, usage string) *[]string {
	return (*SimCommandLine()).StringArrayP(name, shorthand, value, usage)
}
func StringArrayVar(p *[]string, name string, value []string, usage string) {
	(*SimCommandLine()).StringArrayVar(p, name, value, usage)
}
func StringArrayVarP(p *[]string, name string, shorthand string, value []string, usage string) {
	(*SimCommandLine()).StringArrayVarP(p, name, shorthand, value, usage)
}
func StringP(name string, shorthand string, value string, usage string) *string {
	return (*SimCommandLine()).StringP(name, shorthand, value, usage)
}
func StringSlice(name string, value []string, usage string) *[]string {
	return (*SimCommandLine()).StringSlice(name, value, usage)
}
func StringSliceP(name string, shorthand string, value []string, usage string) *[]string {
	return (*SimCommandLine()).StringSliceP(name, shorthand, value, usage)
}
func StringSliceVar(p *[]string, name string, value []string, usage string) {
	(*SimCommandLine()).StringSliceVar(p, name, value, usage)
}
func StringSliceVarP(p *[]string, name string, shorthand string, value []string, usage string) {
	(*SimCommandLine()).StringSliceVarP(p, name, shorthand, value, usage)
}
func StringVar(p *string, name string, value string, usage string) {
	(*SimCommandLine()).StringVar(p, name, value, usage)
}
func StringVarP(p *string, name string, shorthand string, value string, usage string) {
	(*SimCommandLine()).StringVarP(p, name, shorthand, value, usage)
}
func Uint(name string, value uint, usage string) *uint {
	return (*SimCommandLine()).Uint(name, value, usage)
}
func Uint16(name string, value uint16, usage string) *uint16 {
	return (*SimCommandLine()).Uint16(name, value, usage)
}
func Uint16P(name string, shorthand string, value uint16, usage string) *uint16 {
	return (*SimCommandLine()).Uint16P(name, shorthand, value, usage)
}
func Uint16Var(p *uint16, name string, value uint16, usage string) {
	(*SimCommandLine()).Uint16Var(p, name, value, usage)
}
func Uint16VarP(p *uint16, name string, shorthand string, value uint16, usage string) {
	(*SimCommandLine()).Uint16VarP(p, name, shorthand, value, usage)
}
func Uint32(name string, value uint32, usage string) *uint32 {
	return (*SimCommandLine()).Uint32(name, value, usage)
}
func Uint32P(name string, shorthand string, value uint32, usage string) *uint32 {
	return (*SimCommandLine()).Uint32P(name, shorthand, value, usage)
}
func Uint32Var(p *uint32, name string, value uint32, usage string) {
	(*SimCommandLine()).Uint32Var(p, name, value, usage)
}
func Uint32VarP(p *uint32, name string, shorthand string, value uint32, usage string) {
	(*SimCommandLine()).Uint32VarP(p, name, shorthand, value, usage)
}
func Uint64(name string, value uint64, usage string) *uint64 {
	return (*SimCommandLine()).Uint64(name, value, usage)
}
func Uint64P(name string, shorthand string, value uint64, usage string) *uint64 {
	return (*SimCommandLine()).Uint64P(name, shorthand, value, usage)
}
func Uint64Var(p *uint64, name string, value uint64, usage string) {
	(*SimCommandLine()).Uint64Var(p, name, value, usage)
}
func Uint64VarP(p *uint64, name string, shorthand string, value uint64, usage string) {
	(*SimCommandLine()).Uint64VarP(p, name, shorthand, value, usage)
}
func Uint8(name string, value uint8, usage string) *uint8 {
	return (*SimCommandLine()).Uint8(name, value, usage)
}
func Uint8P(name string, shorthand string, value uint8, usage string) *uint8 {
	return (*SimCommandLine()).Uint8P(name, shorthand, value, usage)
}
func Uint8Var(p *uint8, name string, value uint8, usage string) {
	(*SimCommandLine()).Uint8Var(p, name, value, usage)
}
func Uint8VarP(p *uint8, name string, shorthand string, value uint8, usage string) {
	(*SimCommandLine()).Uint8VarP(p, name, shorthand, value, usage)
}
func UintP(name string, shorthand string, value uint, usage string) *uint {
	return (*SimCommandLine()).UintP(name, shorthand, value, usage)
}
func UintSlice(name string, value []uint, usage string) *[]uint {
	return (*SimCommandLine()).UintSlice(name, value, usage)
}
func UintSliceP(name string, shorthand string, value []uint, usage string) *[]uint {
	return (*SimCommandLine()).UintSliceP(name, shorthand, value, usage)
}
func UintSliceVar(p *[]uint, name string, value []uint, usage string) {
	(*SimCommandLine()).UintSliceVar(p, name, value, usage)
}
func UintSliceVarP(p *[]uint, name string, shorthand string, value []uint, usage string) {
	(*SimCommandLine()).UintSliceVarP(p, name, shorthand, value, usage)
}
func UintVar(p *uint, name string, value uint, usage string) {
	(*SimCommandLine()).UintVar(p, name, value, usage)
}
func UintVarP(p *uint, name string, shorthand string, value uint, usage string) {
	(*SimCommandLine()).UintVarP(p, name, shorthand, value, usage)
}
func Var(value Value, name string, usage string) { (*SimCommandLine()).Var(value, name, usage) }
func VarP(value Value, name string, shorthand string, usage string) {
	(*SimCommandLine()).VarP(value, name, shorthand, usage)
}
func Visit(fn func(*Flag))    { (*SimCommandLine()).Visit(fn) }
func VisitAll(fn func(*Flag)) { (*SimCommandLine()).VisitAll(fn) }

type ErrorHandling = real.ErrorHandling
type Flag = real.Flag
type FlagSet = real.FlagSet
type NormalizedName = real.NormalizedName
type ParseErrorsWhitelist = real.ParseErrorsWhitelist
type Value = real.Value

var ErrHelp = real.ErrHelp
var ParseIPv4Mask = real.ParseIPv4Mask
var UnquoteUsage = real.UnquoteUsage
