// Package rt is the deterministic simulator: a single-threaded cooperative
// scheduler with virtual time, simulated processes, stdin/stdout and TCP.
//
// Exactly one goroutine runs at any moment: either the scheduler (the
// goroutine that called World.Run) or one task. A task hands the token back
// whenever it blocks, sleeps or is preempted at a preemption point P().
package rt

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
)

const (
	Microsecond int64 = 1000
	Millisecond int64 = 1000 * Microsecond
	Second      int64 = 1000 * Millisecond
)

// W is the world of this OS process (one simulated run per OS process).
var W *World

type event struct {
	at  int64
	seq uint64
	fn  func()
}

type eventHeap []event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x interface{}) { *h = append(*h, x.(event)) }
func (h *eventHeap) Pop() interface{} {
	o := *h
	n := len(o)
	e := o[n-1]
	o[n-1].fn = nil
	*h = o[:n-1]
	return e
}

// Proc is one simulated OS process.
type Proc struct {
	ID       int
	Name     string
	Role     string
	Index    int
	Args     []string
	Dead     bool
	Code     int
	Exited   bool // terminated by itself with os.Exit or return from main
	Crashed  bool // panic or fatal
	Killed   bool // killed by the simulator
	Vanished bool // its host is gone: nothing is closed, nobody answers
	Reason   string
	Stack    string
	Started  int64
	Files    map[string]string // overrides for files read by the process

	w       *World
	tasks   []*Task
	nTasks  int
	entropy *drbg
	maprng  uint64
	Draws   [][]byte // 64-byte entropy draws, in order
	stdin   stdinBuf
	outbuf  string
	eps     []*Endpoint
	lns     []*Listener
	Slow    int64 // extra virtual delay whenever it takes a connection
	harness bool
	dialSeq map[string]int
	vals    []interface{}
	race    *raceState
}

// Task is one simulated goroutine.
type Task struct {
	p        *Proc
	idx      int
	hash     uint64
	pc       uint64
	spin     int
	wake     chan struct{}
	done     bool
	why      string
	timeout  uint64 // generation counter for timed waits
	timedOut bool
	lastConn *Endpoint
	vc       clock
}

// Rec kinds of the run's trace.
type OutLine struct {
	Seq  uint64
	T    int64
	Proc *Proc
	Text string
}

type StdinRec struct {
	Seq  uint64
	T    int64
	Proc *Proc
	Wait bool
	Line string
}

type ExitRec struct {
	Seq    uint64
	T      int64
	Proc   *Proc
	Kind   string // exit, crash, killed
	Code   int
	Reason string
}

type World struct {
	Now      int64
	seq      uint64
	stampN   uint64
	heap     eventHeap
	Procs    []*Proc
	cur      *Task
	curProc  *Proc
	back     chan struct{}
	D        *Decider
	Activity int64 // virtual time of last externally visible activity
	Steps    uint64
	Switches uint64
	Preempts uint64

	Out   []OutLine
	Stdin []StdinRec
	Exits []ExitRec
	Msgs  []*Msg
	Races []Race

	Net NetState

	PreemptProb uint64 // threshold on 64-bit hash
	PreemptMax  int

	HashAcc uint64 // running hash of the trace (interleaving signature)
	Ilv     uint64 // running hash of the order of task switches only
	Stop    bool
	maprng  uint64

	OnExit func(e ExitRec)
	Probe  map[string]int
	Debug  func(string)
}

func NewWorld(seed uint64) *World {
	w := &World{back: make(chan struct{}), Probe: map[string]int{}}
	w.D = newDecider(seed)
	w.maprng = Mix(seed ^ 0x6d6170)
	w.Net.init(w)
	W = w
	runtime.VerifMapRand = mapRand
	return w
}

func mapRand() uint64 {
	w := W
	if w == nil {
		return 0x1234567
	}
	if t := w.cur; t != nil && !t.p.harness {
		t.p.maprng = t.p.maprng*6364136223846793005 + 1442695040888963407
		return Mix(t.p.maprng)
	}
	w.maprng = w.maprng*6364136223846793005 + 1442695040888963407
	return Mix(w.maprng)
}

// ResetMapRand restarts the harness's map order, so that preparing a replay
// leaves no trace in it.
func (w *World) ResetMapRand() { w.maprng = Mix(w.D.Seed ^ 0x6d6170) }

func (w *World) Stamp() uint64 { w.stampN++; return w.stampN }

func (w *World) hash(parts ...uint64) {
	for _, p := range parts {
		w.HashAcc = Mix(w.HashAcc ^ p)
	}
}

// After schedules fn to run in scheduler context.
func (w *World) After(d int64, fn func()) { w.At(w.Now+d, fn) }

func (w *World) At(t int64, fn func()) {
	if t < w.Now {
		t = w.Now
	}
	w.seq++
	heap.Push(&w.heap, event{t, w.seq, fn})
}

func (w *World) Touch() { w.Activity = w.Now }

// Run executes events until stop() is true, time is exhausted or nothing is left.
// The result says why it ended.
func (w *World) Run(until int64, maxSteps uint64) string {
	for {
		if w.Stop {
			return "stopped"
		}
		if len(w.heap) == 0 {
			return "idle"
		}
		if w.heap[0].at > until {
			return "time"
		}
		if w.Steps >= maxSteps {
			return "steps"
		}
		e := heap.Pop(&w.heap).(event)
		w.Now = e.at
		w.Steps++
		e.fn()
	}
}

func Cur() *Task {
	if W == nil {
		return nil
	}
	return W.cur
}

func CurProc() *Proc {
	if W == nil || W.cur == nil {
		return nil
	}
	return W.cur.p
}

func (t *Task) Proc() *Proc { return t.p }

// ready schedules t to run after d.
func (w *World) ready(t *Task, d int64) {
	w.After(d, func() { w.resume(t) })
}

func (w *World) resume(t *Task) {
	if t.done || t.p.Dead {
		return
	}
	w.Switches++
	w.Ilv = Mix(w.Ilv ^ uint64(t.p.ID)<<32 ^ uint64(t.idx)<<16 ^ t.pc)
	w.switchTo(t.p)
	w.cur = t
	t.wake <- struct{}{}
	<-w.back
	w.cur = nil
}

// park gives the token back and waits to be resumed.
func (t *Task) park(why string) {
	t.why = why
	t.spin = 0
	t.p.w.back <- struct{}{}
	<-t.wake
	t.why = ""
}

// dieHere gives the token back and never returns (process is gone).
func (t *Task) dieHere() {
	t.done = true
	t.p.w.back <- struct{}{}
	select {}
}

func (w *World) spawn(p *Proc, fn func()) *Task {
	t := &Task{p: p, idx: p.nTasks, wake: make(chan struct{})}
	p.nTasks++
	t.hash = Mix(w.D.Seed ^ HashStr(fmt.Sprintf("task/%s/%d", p.Name, t.idx)))
	p.tasks = append(p.tasks, t)
	go func() {
		<-t.wake
		normal := false
		defer func() {
			if !normal {
				r := recover()
				if r == nil { // Goexit
					t.done = true
					w.back <- struct{}{}
					return
				}
				st := string(debug.Stack())
				w.terminate(p, "crash", 2, "panic: "+fmt.Sprint(r), st)
			}
			t.done = true
			w.back <- struct{}{}
		}()
		fn()
		normal = true
	}()
	return t
}

// Start launches a simulated process whose main function is fn.
func (w *World) Start(p *Proc, delay int64, fn func()) {
	w.Procs = append(w.Procs, p)
	p.ID = len(w.Procs)
	p.w = w
	p.entropy = newDRBG(w.D.Seed, p.Name)
	p.maprng = Mix(w.D.Seed ^ HashStr("map/"+p.Name))
	p.dialSeq = map[string]int{}
	p.Started = w.Now + delay
	t := w.spawn(p, func() {
		if !p.harness {
			initGlobals(p)
		}
		fn()
		if !p.harness {
			w.terminate(p, "exit", 0, "main returned", "")
		}
	})
	w.ready(t, delay)
}

// HarnessProc creates a process for simulator-side actors (no globals, never preempted).
func (w *World) HarnessProc(name string) *Proc {
	return &Proc{Name: name, Role: "harness", harness: true}
}

// Spawn runs another task in p (harness actors).
func (w *World) Spawn(p *Proc, delay int64, fn func()) {
	t := w.spawn(p, fn)
	w.ready(t, delay)
}

// SpawnFrom is Spawn for a task started on behalf of another one.
func (w *World) SpawnFrom(p *Proc, from any, fn func()) {
	t := w.spawn(p, fn)
	t.inherit(from)
	w.ready(t, 0)
}

func (w *World) terminate(p *Proc, kind string, code int, reason, stack string) {
	if p.Dead {
		return
	}
	if p.outbuf != "" {
		w.emitOut(p, p.outbuf)
		p.outbuf = ""
	}
	p.Dead = true
	p.Code = code
	p.Reason = reason
	p.Stack = stack
	switch kind {
	case "exit":
		p.Exited = true
	case "crash":
		p.Crashed = true
	case "killed":
		p.Killed = true
	}
	e := ExitRec{w.Stamp(), w.Now, p, kind, code, reason}
	w.Exits = append(w.Exits, e)
	w.hash(HashStr("exit"), uint64(p.ID), uint64(w.Now), HashStr(kind))
	w.Touch()
	w.Net.procGone(p)
	if w.OnExit != nil {
		w.OnExit(e)
	}
}

// Kill ends a process from outside at once: nothing of it runs any more.
func (w *World) Kill(p *Proc) { w.terminate(p, "killed", 137, "killed by simulator", "") }

// Vanish is Kill for a host that is gone: its connections stay open until the
// other side's system gives up on them.
func (w *World) Vanish(p *Proc) {
	p.Vanished = true
	w.terminate(p, "killed", 137, "host vanished", "")
}

// ---- primitives for the instrumented code -------------------------------

// P is a preemption point.
func P() {
	w := W
	if w == nil {
		return
	}
	t := w.cur
	if t == nil || t.p.harness {
		return
	}
	t.pc++
	t.spin++
	if t.spin > 50000 {
		t.Sleep(Millisecond)
		return
	}
	if d, ok := w.D.preempt(w, t); ok {
		w.Preempts++
		t.sleepBusy(d)
	}
}

// Go starts a goroutine of the current process.
func Go(fn func()) {
	t := Cur()
	if t == nil { // outside of the simulation (package initialisation)
		go fn()
		return
	}
	w := t.p.w
	nt := w.spawn(t.p, fn)
	nt.inherit(Snap())
	d := w.D.choose("spawn/"+t.p.Name+"/"+itoa(nt.idx), 0, func(h uint64) int64 {
		if w.PreemptProb == 0 || h%4 != 0 {
			return 0
		}
		return int64((h>>8)%30) * Millisecond
	})
	w.ready(nt, d)
}

func (t *Task) Sleep(d int64) {
	if d < 0 {
		d = 0
	}
	t.p.w.ready(t, d)
	t.park("sleep")
}

// sleepBusy is a delay the task's own code did not ask for.
func (t *Task) sleepBusy(d int64) {
	t.p.w.ready(t, d)
	t.park("busy")
}

// Quiet says whether every simulated process is only waiting for input, time or
// other tasks, with nothing in flight.
func (w *World) Quiet() bool {
	for _, p := range w.Procs {
		if p.harness || p.Dead {
			continue
		}
		for _, t := range p.tasks {
			if t.done {
				continue
			}
			switch t.why {
			case "", "busy", "read", "dial":
				return false
			}
		}
		for _, l := range p.lns {
			if !l.closed && len(l.queue) > 0 {
				return false
			}
		}
	}
	return w.Net.inflight == 0
}

func SleepCur(d int64) {
	if t := Cur(); t != nil {
		t.Sleep(d)
	}
}

// Exit ends the current process (os.Exit).
func Exit(code int, reason string, fatal bool) {
	t := Cur()
	if t == nil {
		panic("exit outside of the simulation: " + reason)
	}
	kind := "exit"
	if fatal {
		kind = "crash"
	}
	t.p.w.terminate(t.p, kind, code, reason, string(debug.Stack()))
	t.dieHere()
}

func itoa(i int) string { return fmt.Sprint(i) }

// waitList of tasks.
type WaitList struct{ l []*Task }

func (wl *WaitList) Wait(why string) {
	t := Cur()
	if t == nil {
		panic("rt: blocking outside of a task")
	}
	wl.l = append(wl.l, t)
	t.park(why)
}

// WaitTimeout waits until woken or until d passed; false on timeout.
func (wl *WaitList) WaitTimeout(why string, d int64) bool {
	t := Cur()
	wl.l = append(wl.l, t)
	t.timeout++
	gen := t.timeout
	t.timedOut = false
	w := t.p.w
	w.After(d, func() {
		if t.timeout != gen {
			return
		}
		for i, x := range wl.l {
			if x == t {
				wl.l = append(wl.l[:i:i], wl.l[i+1:]...)
				t.timedOut = true
				w.resume(t)
				return
			}
		}
	})
	t.park(why)
	t.timeout++
	return !t.timedOut
}

func (wl *WaitList) prune() {
	k := wl.l[:0]
	for _, t := range wl.l {
		if !t.done && !t.p.Dead {
			k = append(k, t)
		}
	}
	wl.l = k
}

func (wl *WaitList) WakeOne() bool {
	wl.prune()
	if len(wl.l) == 0 {
		return false
	}
	t := wl.l[0]
	wl.l = append([]*Task(nil), wl.l[1:]...)
	t.p.w.ready(t, 0)
	return true
}

func (wl *WaitList) WakeAll() {
	for wl.WakeOne() {
	}
}

func (wl *WaitList) Len() int { wl.prune(); return len(wl.l) }

// ---- stdin / stdout ------------------------------------------------------

type stdinBuf struct {
	lines []string
	cur   []byte
	eof   bool
	wl    WaitList
	waits int
}

// Type makes a line available on p's terminal.
func (w *World) Type(p *Proc, line string) {
	p.stdin.lines = append(p.stdin.lines, line)
	p.stdin.wl.WakeAll()
	w.Touch()
}

// StdinPending counts typed lines p has not read yet.
func (p *Proc) StdinPending() int { return len(p.stdin.lines) }

// WaitingStdin says whether a task of p is blocked reading its terminal.
func (p *Proc) WaitingStdin() bool { return !p.Dead && p.stdin.wl.Len() > 0 }

// ReadStdin has terminal semantics: a read returns at most one line.
func ReadStdin(b []byte) (int, error) {
	t := Cur()
	if t == nil {
		return 0, fmt.Errorf("no terminal")
	}
	p := t.p
	w := p.w
	if len(b) == 0 {
		return 0, nil
	}
	for len(p.stdin.cur) == 0 {
		if len(p.stdin.lines) > 0 {
			l := p.stdin.lines[0]
			p.stdin.lines = p.stdin.lines[1:]
			p.stdin.cur = []byte(l + "\n")
			w.Stdin = append(w.Stdin, StdinRec{w.Stamp(), w.Now, p, false, l})
			w.hash(HashStr("stdin"), uint64(p.ID), uint64(w.Now), HashStr(l))
			w.Touch()
			break
		}
		p.stdin.waits++
		w.Stdin = append(w.Stdin, StdinRec{w.Stamp(), w.Now, p, true, ""})
		p.stdin.wl.Wait("stdin")
	}
	n := copy(b, p.stdin.cur)
	p.stdin.cur = p.stdin.cur[n:]
	return n, nil
}

func (w *World) emitOut(p *Proc, line string) {
	w.Out = append(w.Out, OutLine{w.Stamp(), w.Now, p, line})
	w.hash(HashStr("out"), uint64(p.ID), uint64(w.Now), HashStr(line))
	w.Touch()
}

// Stdout receives what the current process prints.
func Stdout(s string) {
	t := Cur()
	if t == nil {
		return
	}
	p := t.p
	p.outbuf += s
	for {
		i := strings.IndexByte(p.outbuf, '\n')
		if i < 0 {
			break
		}
		p.w.emitOut(p, p.outbuf[:i])
		p.outbuf = p.outbuf[i+1:]
	}
}

// TasksInfo describes what every live task is waiting for.
func (w *World) TasksInfo() string {
	var sb strings.Builder
	for _, p := range w.Procs {
		if p.harness {
			continue
		}
		fmt.Fprintf(&sb, "%s dead=%v:", p.Name, p.Dead)
		for _, t := range p.tasks {
			if !t.done {
				fmt.Fprintf(&sb, " [%d %s]", t.idx, t.why)
			}
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

// Send is a channel send statement.
