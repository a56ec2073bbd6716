// Package vtime is package time with a clock the harness controls.
package vtime

import (
	"time"

	"github.com/IfanTsai/metis/verif/rt"
)

type (
	Time     = time.Time
	Duration = time.Duration
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
)

func Now() time.Time {
	if rt.ClockRead != nil {
		rt.ClockRead()
	}
	return time.Unix(rt.Base+rt.ClockSec, rt.ClockMs*1000000)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	ms := int64(d / time.Millisecond)
	rt.Tick(ms/1000, ms%1000)
}
