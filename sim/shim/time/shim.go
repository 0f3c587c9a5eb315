// Package time is the simulator's clock behind the API of package time.
package time

import (
	real "time"
	"verifsim/rt"
)

func Sleep(d real.Duration) {
	if rt.Cur() == nil {
		return
	}
	rt.SleepCur(int64(d))
}

func Now() real.Time {
	if rt.W == nil {
		return rt.Epoch
	}
	return rt.Epoch.Add(real.Duration(rt.W.Now))
}

func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }

type Timer struct {
	C      <-chan real.Time
	c      chan real.Time
	f      func()
	gen    int
	active bool
}

func (t *Timer) arm(d real.Duration) {
	t.gen++
	g := t.gen
	t.active = true
	if rt.W == nil {
		return
	}
	p := rt.CurProc()
	w := rt.W
	from := rt.Snap()
	rt.RelChan(t.c)
	w.After(int64(d), func() {
		if t.gen != g || !t.active || (p != nil && p.Dead) {
			return
		}
		t.active = false
		if t.f != nil {
			w.SpawnFrom(p, from, t.f)
			return
		}
		rt.TrySend(t.c, Now())
	})
}

func NewTimer(d real.Duration) *Timer {
	c := make(chan real.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d real.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool { a := t.active; t.active = false; return a }
func (t *Timer) Reset(d real.Duration) bool {
	a := t.active
	t.arm(d)
	return a
}

func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }

type Ticker struct {
	C   <-chan real.Time
	c   chan real.Time
	d   real.Duration
	gen int
}

func (t *Ticker) arm() {
	g := t.gen
	p := rt.CurProc()
	w := rt.W
	if w == nil {
		return
	}
	var f func()
	f = func() {
		if t.gen != g || (p != nil && p.Dead) {
			return
		}
		rt.TrySend(t.c, Now())
		w.After(int64(t.d), f)
	}
	w.After(int64(t.d), f)
}

func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan real.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}
func (t *Ticker) Stop() { t.gen++ }
func (t *Ticker) Reset(d real.Duration) {
	t.gen++
	t.d = d
	t.arm()
}
func Tick(d real.Duration) <-chan real.Time { return NewTicker(d).C }
