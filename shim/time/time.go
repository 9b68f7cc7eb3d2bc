// Package time models timers and the clock: timers fire when the harness says
// so, sleeping takes no time.
package time

import (
	"runtime"
)

// Timer is a timer fired by the harness.
type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	// Armed, Set and D describe the timer: whether it is running, how often
	// it was set, and every interval it was set to.
	Armed bool
	D     []Duration
	Every Duration
}

// Timers lists all timers and tickers that were created.
var Timers []*Timer

func mk(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c, Armed: true, D: []Duration{d}}
	Timers = append(Timers, t)
	return t
}

// NewTimer creates a timer.
func NewTimer(d Duration) *Timer { return mk(d) }

// AfterFunc creates a timer that calls f.
func AfterFunc(d Duration, f func()) *Timer {
	t := mk(d)
	t.f = f
	return t
}

// After is NewTimer(d).C.
func After(d Duration) <-chan Time { return mk(d).C }

// Stop disarms the timer.
func (t *Timer) Stop() bool {
	was := t.Armed
	t.Armed = false
	for len(t.c) > 0 {
		<-t.c
	}
	return was
}

// Reset arms the timer again.
func (t *Timer) Reset(d Duration) bool {
	was := t.Armed
	t.Armed = true
	for len(t.c) > 0 {
		<-t.c
	}
	t.D = append(t.D, d)
	return was
}

// Fire makes an armed timer expire and reports whether it was armed.
func (t *Timer) Fire() bool {
	if !t.Armed {
		return false
	}
	if t.Every == 0 {
		t.Armed = false
	} else {
		t.D = append(t.D, t.Every)
	}
	if t.f != nil {
		go t.f()
		return true
	}
	select {
	case t.c <- Time{}:
	default:
	}
	return true
}

// Ticker is a repeating timer fired by the harness.
type Ticker struct {
	C <-chan Time
	t *Timer
}

// NewTicker creates a ticker.
func NewTicker(d Duration) *Ticker {
	t := mk(d)
	t.Every = d
	return &Ticker{t.C, t}
}

// Tick is NewTicker(d).C.
func Tick(d Duration) <-chan Time { return NewTicker(d).C }

// Stop disarms the ticker.
func (t *Ticker) Stop() { t.t.Stop() }

// Reset changes the interval.
func (t *Ticker) Reset(d Duration) {
	t.t.Every = d
	t.t.Reset(d)
}

// Sleeps counts the calls of Sleep.
var Sleeps int

// Sleep lets others run.
func Sleep(d Duration) { Sleeps++; runtime.Gosched() }

// Clock is the current time.
var Clock Time

// Now is the current time.
func Now() Time { return Clock }

// Since is the time passed since t.
func Since(t Time) Duration { return Clock.Sub(t) }

// Until is the time left until t.
func Until(t Time) Duration { return t.Sub(Clock) }
