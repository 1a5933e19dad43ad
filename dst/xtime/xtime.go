// Package xtime is time under the simulator.
package xtime

import (
	"time"
	"unsafe"

	"verif.local/dst/rt"
)

// Epoch is the wall-clock time at virtual time 0.
var Epoch = time.Unix(1_700_000_000, 0).UTC()

// Now is what the clock of the current process shows. As with the real
// package it carries a reading of the monotonic clock too, so that only what
// is done with the wall clock (Unix, comparing with a time that was not read
// from the clock) sees that the clock of the process is wrong.
func Now() time.Time {
	if rt.W == nil {
		return Epoch
	}
	if g := rt.Cur(); g != nil {
		return nowOf(g.Proc)
	}
	return nowOf(nil)
}

const (
	hasMonotonic = 1 << 63
	since1885    = 2682288000 // of the Unix epoch
)

func nowOf(p *rt.Proc) time.Time {
	now := rt.W.Now()
	t := Epoch.Add(time.Duration(now))
	if rt.W.Skew != nil {
		t = t.Add(time.Duration(rt.W.Skew(p)))
	}
	x := struct {
		wall uint64
		ext  int64
		loc  *time.Location
	}{hasMonotonic | uint64(t.Unix()+since1885)<<30 | uint64(t.Nanosecond()), int64(now) + 1, nil}
	return *(*time.Time)(unsafe.Pointer(&x))
}

// OnClock is when, on the clock of the simulator, the current process thinks t
// is.
func OnClock(t time.Time) rt.Duration { return rt.W.Now() + rt.Duration(Until(t)) }

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { rt.Sleep(int64(d)) }

type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *rt.Timer
	p *rt.Proc
}

// A timer dies with the process that armed it.
func (t *Timer) arm(d time.Duration) {
	if g := rt.Cur(); g != nil {
		t.p = g.Proc
	}
	if t.p != nil {
		t.p.Timers++
	}
	t.t = rt.W.At(int64(d), func() {
		if t.p != nil {
			t.p.Timers--
			if t.p.Dead {
				return
			}
		}
		if t.f != nil {
			rt.GoNamed("", t.p, t.f)
			return
		}
		rt.TrySend(t.c, nowOf(t.p))
	})
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}
func (t *Timer) Stop() bool {
	if rt.W == nil {
		return false
	}
	// As of Go 1.23 a value nobody has received yet counts as not having been
	// sent.
	r := rt.W.StopTimer(t.t)
	if r && t.p != nil {
		t.p.Timers--
	}
	if t.c != nil && rt.Drain(t.c) {
		r = true
	}
	return r
}
func (t *Timer) Reset(d time.Duration) bool {
	r := t.Stop()
	t.arm(d)
	return r
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	d time.Duration
	t *rt.Timer
	p *rt.Proc
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}
func (t *Ticker) arm() {
	if g := rt.Cur(); g != nil {
		t.p = g.Proc
	}
	if t.p != nil {
		t.p.Timers++
	}
	t.t = rt.W.At(int64(t.d), func() {
		if t.p != nil {
			t.p.Timers--
			if t.p.Dead {
				return
			}
		}
		rt.TrySend(t.c, nowOf(t.p))
		t.arm()
	})
}
func (t *Ticker) Stop() {
	if rt.W != nil {
		if rt.W.StopTimer(t.t) && t.p != nil {
			t.p.Timers--
		}
		rt.Drain(t.c)
	}
}
func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	t.arm()
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
