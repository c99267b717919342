// Package time replaces the standard package in instrumented code: the clock
// and all timers are virtual.
package time

import (
	std "time"

	"github.com/kitex-contrib/xds/verifrt/vrt"
)

type (
	Duration   = std.Duration
	Time       = std.Time
	Month      = std.Month
	Weekday    = std.Weekday
	Location   = std.Location
	ParseError = std.ParseError
)

const (
	Nanosecond  = std.Nanosecond
	Microsecond = std.Microsecond
	Millisecond = std.Millisecond
	Second      = std.Second
	Minute      = std.Minute
	Hour        = std.Hour

	January   = std.January
	February  = std.February
	March     = std.March
	April     = std.April
	May       = std.May
	June      = std.June
	July      = std.July
	August    = std.August
	September = std.September
	October   = std.October
	November  = std.November
	December  = std.December

	Sunday    = std.Sunday
	Monday    = std.Monday
	Tuesday   = std.Tuesday
	Wednesday = std.Wednesday
	Thursday  = std.Thursday
	Friday    = std.Friday
	Saturday  = std.Saturday

	Layout      = std.Layout
	ANSIC       = std.ANSIC
	UnixDate    = std.UnixDate
	RubyDate    = std.RubyDate
	RFC822      = std.RFC822
	RFC822Z     = std.RFC822Z
	RFC850      = std.RFC850
	RFC1123     = std.RFC1123
	RFC1123Z    = std.RFC1123Z
	RFC3339     = std.RFC3339
	RFC3339Nano = std.RFC3339Nano
	Kitchen     = std.Kitchen
	Stamp       = std.Stamp
	StampMilli  = std.StampMilli
	StampMicro  = std.StampMicro
	StampNano   = std.StampNano
	DateTime    = std.DateTime
	DateOnly    = std.DateOnly
	TimeOnly    = std.TimeOnly
)

var (
	Local                  = std.Local
	UTC                    = std.UTC
	ParseDuration          = std.ParseDuration
	FixedZone              = std.FixedZone
	LoadLocation           = std.LoadLocation
	LoadLocationFromTZData = std.LoadLocationFromTZData
	Date                   = std.Date
	Parse                  = std.Parse
	ParseInLocation        = std.ParseInLocation
	Unix                   = std.Unix
	UnixMicro              = std.UnixMicro
	UnixMilli              = std.UnixMilli
)

func Now() Time                    { return vrt.Now() }
func Since(t Time) Duration        { return vrt.Now().Sub(t) }
func Until(t Time) Duration        { return t.Sub(vrt.Now()) }
func Sleep(d Duration)             { vrt.Sleep(d) }
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Timer is time.Timer.
type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	t *vrt.Timer
}

func (t *Timer) arm(d Duration) {
	t.t = vrt.AddTimer(d, func() {
		if t.f != nil {
			vrt.SpawnFromTimer("AfterFunc", t.f)
			return
		}
		select {
		case t.c <- vrt.Now():
		default:
		}
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool { return t.t.Stop() }

func (t *Timer) Reset(d Duration) bool {
	r := t.t.Stop()
	t.arm(d)
	return r
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan Time
	c chan Time
	d Duration
	t *vrt.Timer
}

func (t *Ticker) arm() {
	t.t = vrt.AddTimer(t.d, func() {
		select {
		case t.c <- vrt.Now():
		default:
		}
		t.arm()
	})
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop() { t.t.Stop() }
func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.t.Stop()
	t.d = d
	t.arm()
}
