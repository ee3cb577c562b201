// Package time has the clock of the simulation: a microsecond for every
// scheduling point.
package time

import (
	real "time"

	"verifsim/simrt"
)

type (
	Duration   = real.Duration
	Location   = real.Location
	Month      = real.Month
	ParseError = real.ParseError
	Ticker     = real.Ticker
	Time       = real.Time
	Timer      = real.Timer
	Weekday    = real.Weekday
)

const (
	Nanosecond  = real.Nanosecond
	Microsecond = real.Microsecond
	Millisecond = real.Millisecond
	Second      = real.Second
	Minute      = real.Minute
	Hour        = real.Hour

	Layout      = real.Layout
	ANSIC       = real.ANSIC
	UnixDate    = real.UnixDate
	RubyDate    = real.RubyDate
	RFC822      = real.RFC822
	RFC822Z     = real.RFC822Z
	RFC850      = real.RFC850
	RFC1123     = real.RFC1123
	RFC1123Z    = real.RFC1123Z
	RFC3339     = real.RFC3339
	RFC3339Nano = real.RFC3339Nano
	Kitchen     = real.Kitchen
	Stamp       = real.Stamp
	StampMilli  = real.StampMilli
	StampMicro  = real.StampMicro
	StampNano   = real.StampNano
	DateTime    = real.DateTime
	DateOnly    = real.DateOnly
	TimeOnly    = real.TimeOnly

	January   = real.January
	February  = real.February
	March     = real.March
	April     = real.April
	May       = real.May
	June      = real.June
	July      = real.July
	August    = real.August
	September = real.September
	October   = real.October
	November  = real.November
	December  = real.December

	Sunday    = real.Sunday
	Monday    = real.Monday
	Tuesday   = real.Tuesday
	Wednesday = real.Wednesday
	Thursday  = real.Thursday
	Friday    = real.Friday
	Saturday  = real.Saturday
)

var (
	UTC   = real.UTC
	Local = real.UTC
)

func Now() Time             { return real.Unix(1e9, simrt.Steps()*1000).UTC() }
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep lets others run.
func Sleep(d Duration) {
	for end := Now().Add(d); Now().Before(end); {
		n := simrt.Steps()
		simrt.Yield()
		if simrt.Steps() == n || d > Millisecond {
			return
		}
	}
}

func Date(y int, m Month, d, h, min, s, ns int, l *Location) Time {
	return real.Date(y, m, d, h, min, s, ns, l)
}
func Unix(s, ns int64) Time           { return real.Unix(s, ns).UTC() }
func UnixMilli(ms int64) Time         { return real.UnixMilli(ms).UTC() }
func UnixMicro(us int64) Time         { return real.UnixMicro(us).UTC() }
func Parse(l, s string) (Time, error) { return real.Parse(l, s) }
func ParseInLocation(l, s string, loc *Location) (Time, error) {
	return real.ParseInLocation(l, s, loc)
}
func ParseDuration(s string) (Duration, error) { return real.ParseDuration(s) }
func FixedZone(n string, o int) *Location      { return real.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return real.LoadLocation(n) }
func After(d Duration) <-chan Time             { return real.After(d) }
func AfterFunc(d Duration, f func()) *Timer    { return real.AfterFunc(d, f) }
func NewTimer(d Duration) *Timer               { return real.NewTimer(d) }
func NewTicker(d Duration) *Ticker             { return real.NewTicker(d) }
