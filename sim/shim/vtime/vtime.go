// Package vtime stands in for package time's clock.
package vtime

import (
	"time"
	"vsim/simrt"
)

// Epoch is added to the bubble's clock, which starts in the year 2000.
const Epoch = 22 * 365 * 24 * time.Hour

// Now is the wall clock of the calling process.
func Now() time.Time {
	t := time.Now().Add(Epoch)
	if g := simrt.Cur(); g != nil {
		t = t.Add(g.Proc.Offset)
	}
	return t
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { simrt.Sleep(d) }

func AfterFunc(d time.Duration, f func()) *time.Timer { return simrt.AfterFunc(d, f) }
