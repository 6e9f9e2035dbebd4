// Package vtime is the simulated clock: one step is one microsecond, the time
// of day differs from run to run, and sleeping is just another decision point.
package vtime

import (
	"time"

	"verif.local/rt"
)

func base() time.Time {
	return time.Unix(1700000000+int64(rt.MapSeed()%(1<<28)), 0)
}

func Now() time.Time {
	if !rt.InTask() {
		return base()
	}
	return base().Add(time.Duration(rt.Step()) * time.Microsecond)
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { rt.Yield() }
