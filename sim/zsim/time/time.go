//go:build go1.22

// Package time replaces time: the clock is simulated.
package time

import (
	real "time"

	"zsim/rt"
)

// Base is when every simulation starts.
var base = real.Unix(1700000000, 0)

// Now is the simulated time.
func Now() Time { return base.Add(Duration(rt.Now)) }

// Since is the time elapsed.
func Since(t Time) Duration { return Now().Sub(t) }

// Until is the time left.
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep blocks the task.
func Sleep(d Duration) {
	rt.Point()
	if d > 0 {
		rt.Sleep(int64(d))
	}
}

// Timer is a simulated timer.
type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	stop func() bool
}

func (t *Timer) start(d Duration) {
	if d < 0 {
		d = 0
	}

	t.stop = rt.After(int64(d), func() {
		if t.f != nil {
			f := t.f
			rt.Start("timer", nil, f)

			return
		}

		rt.TrySend(t.c, Now())
	})
}

// NewTimer starts a timer.
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)

	return t
}

// After returns a channel.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// AfterFunc runs f later.
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)

	return t
}

// Stop stops the timer.
func (t *Timer) Stop() bool { return t.stop() }

// Reset restarts the timer.
func (t *Timer) Reset(d Duration) bool {
	a := t.stop()
	t.start(d)

	return a
}

// Ticker is a simulated ticker.
type Ticker struct {
	C    <-chan Time
	c    chan Time
	d    Duration
	off  bool
	stop func() bool
}

func (t *Ticker) start() {
	t.stop = rt.After(int64(t.d), func() {
		if !t.off {
			rt.TrySend(t.c, Now())
			t.start()
		}
	})
}

// NewTicker starts a ticker.
func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.start()

	return t
}

// Stop stops the ticker.
func (t *Ticker) Stop() { t.off = true; t.stop() }

// Reset changes the period.
func (t *Ticker) Reset(d Duration) { t.stop(); t.d = d; t.off = false; t.start() }

// Tick is NewTicker without Stop.
func Tick(d Duration) <-chan Time { return NewTicker(d).C }
