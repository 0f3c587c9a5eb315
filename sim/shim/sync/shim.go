// Package sync: blocking primitives that block simulated tasks.
package sync

import (
	real "sync"
	"verifsim/rt"
)

type Mutex struct {
	held bool
	r    *rt.WaitList
}

func (m *Mutex) Lock() {
	if rt.Cur() == nil {
		return
	}
	for m.held {
		if m.r == nil {
			m.r = new(rt.WaitList)
		}
		m.r.Wait("mutex")
	}
	m.held = true
	rt.Acq(m)
}
func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	rt.Acq(m)
	return true
}
func (m *Mutex) Unlock() {
	if rt.Cur() == nil {
		return
	}
	if !m.held {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	rt.Rel(m)
	m.held = false
	if m.r != nil {
		m.r.WakeOne()
	}
}

type RWMutex struct {
	w  bool
	rd int
	r  *rt.WaitList
}

func (m *RWMutex) wl() *rt.WaitList {
	if m.r == nil {
		m.r = new(rt.WaitList)
	}
	return m.r
}
func (m *RWMutex) Lock() {
	if rt.Cur() == nil {
		return
	}
	for m.w || m.rd > 0 {
		m.wl().Wait("rwmutex")
	}
	m.w = true
	rt.Acq(m)
}
func (m *RWMutex) Unlock() {
	if rt.Cur() == nil {
		return
	}
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	rt.Rel(m)
	m.w = false
	m.wl().WakeAll()
}
func (m *RWMutex) RLock() {
	if rt.Cur() == nil {
		return
	}
	for m.w {
		m.wl().Wait("rwmutex")
	}
	m.rd++
	rt.Acq(m)
}
func (m *RWMutex) RUnlock() {
	if rt.Cur() == nil {
		return
	}
	if m.rd <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	rt.Rel(m)
	m.rd--
	m.wl().WakeAll()
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.rd > 0 {
		return false
	}
	m.w = true
	rt.Acq(m)
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.rd++
	rt.Acq(m)
	return true
}
func (m *RWMutex) RLocker() real.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type WaitGroup struct {
	n int
	r *rt.WaitList
}

func (g *WaitGroup) Add(d int) {
	rt.Rel(g)
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 && g.r != nil {
		g.r.WakeAll()
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	for g.n > 0 {
		if g.r == nil {
			g.r = new(rt.WaitList)
		}
		g.r.Wait("waitgroup")
	}
	rt.Acq(g)
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go(func() { defer g.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		rt.Acq(o)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; rt.Rel(o) }()
		f()
	}
}

type Cond struct {
	L real.Locker
	r *rt.WaitList
}

func NewCond(l real.Locker) *Cond { return &Cond{L: l, r: new(rt.WaitList)} }
func (c *Cond) Wait() {
	c.L.Unlock()
	c.r.Wait("cond")
	rt.Acq(c)
	c.L.Lock()
}
func (c *Cond) Signal()    { rt.Rel(c); c.r.WakeOne() }
func (c *Cond) Broadcast() { rt.Rel(c); c.r.WakeAll() }

type Locker = real.Locker
type Map = real.Map
type Pool = real.Pool
