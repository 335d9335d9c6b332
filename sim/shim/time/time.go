//go:build go1.21

// Package time replaces the standard library's time inside a simulation: the clock is simulated.
package time

import (
	rtime "time"

	"github.com/hired/gevulot/zzsim/simrt"
)

// Now returns simulated time.
func Now() Time { simrt.Yield(); return simrt.Now() }

// Since is Now().Sub(t).
func Since(t Time) Duration { return Now().Sub(t) }

// Until is t.Sub(Now()).
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep pauses the goroutine.
func Sleep(d Duration) { simrt.Sleep(d) }

// Timer is a simulated timer.
type Timer struct {
	C  <-chan Time
	c  chan Time
	f  func()
	ev *simrt.Timer
}

func (t *Timer) arm(d Duration) {
	if t.f != nil {
		t.ev = simrt.AfterFunc(d, "time.AfterFunc", t.f)
		return
	}
	t.ev = simrt.At(d, func() { simrt.TrySendNow(t.c, simrt.Now()) })
}

// NewTimer creates a timer that sends on its channel after d.
func NewTimer(d Duration) *Timer {
	c := simrt.MakeChan(make(chan Time, 1))
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

// AfterFunc calls f in its own goroutine after d.
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// Stop prevents the timer from firing.
func (t *Timer) Stop() bool { simrt.Yield(); return t.ev.Stop() }

// Reset changes the timer to expire after d.
func (t *Timer) Reset(d Duration) bool {
	simrt.Yield()
	ok := t.ev.Stop()
	t.arm(d)
	return ok
}

// After is NewTimer(d).C.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker delivers ticks.
type Ticker struct {
	C  <-chan Time
	c  chan Time
	d  Duration
	ev *simrt.Timer
}

func (t *Ticker) arm() {
	t.ev = simrt.At(t.d, func() {
		simrt.TrySendNow(t.c, simrt.Now())
		t.arm()
	})
}

// NewTicker returns a new Ticker.
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := simrt.MakeChan(make(chan Time, 1))
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

// Stop turns off a ticker.
func (t *Ticker) Stop() { simrt.Yield(); t.ev.Stop() }

// Reset stops a ticker and resets its period.
func (t *Ticker) Reset(d Duration) { t.ev.Stop(); t.d = d; t.arm() }

// Tick is NewTicker(d).C.
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

var _ rtime.Duration
