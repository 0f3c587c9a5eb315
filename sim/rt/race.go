package rt

import (
	"runtime"
	"strings"
	"unsafe"
)

// Unsynchronised use of maps. The Go runtime stops a process in which two
// goroutines use a map at the same time, one of them writing. Since only one
// task runs at a time here, that never happens by itself; instead every use of
// a map by the code under test is compared with the earlier ones by the other
// tasks of its process, following what orders them: locks, channels, starting
// a goroutine, and messages going out and coming in. Two uses that nothing
// orders can coincide.

// MapUser is the import path prefix of the packages whose uses of maps count;
// empty when the code synchronises by means that are not followed here.
var MapUser string

type Race struct {
	Seq      uint64
	Proc     *Proc
	Old, New string // functions
	Pair     string
}

type clock []uint32

func (c clock) at(i int) uint32 {
	if i < len(c) {
		return c[i]
	}
	return 0
}

func (c *clock) join(d clock) {
	for len(*c) < len(d) {
		*c = append(*c, 0)
	}
	for i, v := range d {
		if v > (*c)[i] {
			(*c)[i] = v
		}
	}
}

type use struct {
	at uint32
	fn string
}

type mapUse struct {
	w     use
	wTask int
	r     map[int]use
}

type raceState struct {
	sync  map[any]*clock
	maps  map[unsafe.Pointer]*mapUse
	found map[string]bool
}

var (
	inHook bool
	pcFn   = map[uintptr]string{}
)

func init() { runtime.VerifSetMapHook(mapHook) }

func (p *Proc) races() *raceState {
	if p.race == nil {
		p.race = &raceState{map[any]*clock{}, map[unsafe.Pointer]*mapUse{}, map[string]bool{}}
	}
	return p.race
}

func tracked() *Task {
	t := Cur()
	if t == nil || t.p.harness || MapUser == "" || inHook {
		return nil
	}
	return t
}

func (t *Task) tick() {
	for len(t.vc) <= t.idx {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.idx]++
}

// Rel makes what the current task did so far visible to whoever acquires k.
func Rel(k any) {
	t := tracked()
	if t == nil {
		return
	}
	inHook = true
	s := t.p.races().sync
	if s[k] == nil {
		s[k] = &clock{}
	}
	s[k].join(t.vc)
	t.tick()
	inHook = false
}

// Acq is the other side of Rel.
func Acq(k any) {
	t := tracked()
	if t == nil {
		return
	}
	inHook = true
	if c := t.p.races().sync[k]; c != nil {
		t.vc.join(*c)
	}
	inHook = false
}

// Snap copies the current task's clock for a task started on its behalf.
func Snap() any {
	t := Cur()
	if t == nil || t.p.harness {
		return nil
	}
	c := append(clock(nil), t.vc...)
	t.tick()
	return c
}

func (t *Task) inherit(c any) {
	if v, ok := c.(clock); ok {
		t.vc.join(v)
	}
	t.tick()
}

func mapHook(m unsafe.Pointer, pc uintptr, write bool) {
	if W == nil {
		return
	}
	t := tracked()
	if t == nil {
		return
	}
	inHook = true
	fn, ok := pcFn[pc]
	if !ok {
		fr, _ := runtime.CallersFrames([]uintptr{pc}).Next()
		if strings.HasPrefix(fr.Function, MapUser) {
			fn = strings.TrimPrefix(fr.Function, MapUser)
		}
		pcFn[pc] = fn
	}
	if fn != "" && !runtime.VerifOnStack(m) {
		t.useMap(m, fn, write)
	}
	inHook = false
}

func (t *Task) useMap(m unsafe.Pointer, fn string, write bool) {
	rs := t.p.races()
	u := rs.maps[m]
	if u == nil {
		u = &mapUse{wTask: -1, r: map[int]use{}}
		rs.maps[m] = u
	}
	if len(t.vc) <= t.idx {
		t.tick()
	}
	report := func(old use, ow bool) {
		kind := func(w bool) string {
			if w {
				return "writes"
			}
			return "reads"
		}
		a, b := old.fn+" "+kind(ow), fn+" "+kind(write)
		pair := a + " / " + b
		if rs.found[pair] {
			return
		}
		rs.found[pair] = true
		t.p.w.Races = append(t.p.w.Races, Race{t.p.w.Stamp(), t.p, a, b, pair})
	}
	if u.wTask >= 0 && u.wTask != t.idx && u.w.at > t.vc.at(u.wTask) {
		report(u.w, true)
	}
	now := use{t.vc[t.idx], fn}
	if !write {
		u.r[t.idx] = now
		return
	}
	// in the order of the tasks, so that a run is repeatable
	for i := 0; i < t.p.nTasks && len(u.r) > 0; i++ {
		if r, ok := u.r[i]; ok {
			if i != t.idx && r.at > t.vc.at(i) {
				report(r, false)
			}
			delete(u.r, i)
		}
	}
	u.w, u.wTask = now, t.idx
}
