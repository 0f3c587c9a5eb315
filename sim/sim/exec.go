package sim

import (
	"fmt"
	"math/big"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"

	"verifsim/ref"
	"verifsim/rt"
	simexec "verifsim/shim/exec"
	simos "verifsim/shim/os"

	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

type Run struct {
	C        *Case
	W        *rt.World
	D        *rt.Proc // director
	Coord    *rt.Proc
	Servers  map[int]*rt.Proc
	Clients  map[int]*rt.Proc
	Evils    map[int]*Evil
	cut      map[string]string // unreachable processes
	armed    []Step            // malformed messages to be sent alongside honest ones
	vanishAt map[string]int    // the process's host is gone when it has sent this many more messages
	Log      []string
	NoQuiet  int
	stall    []string
	stepSeq  []uint64
	tcount   map[int]int
	res      *Result
	primeAt  int
	doneDir  bool
	enters   int
	mul      map[*rt.Proc]map[string][]byte
	forged   map[string]*ref.ShuffleForgery
}

const coordPort = 12345

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func (r *Run) logf(f string, a ...interface{}) {
	r.Log = append(r.Log, fmt.Sprintf("%10.3fs ", float64(r.W.Now)/1e9)+fmt.Sprintf(f, a...))
}

// Execute performs one run; it is called once per OS process.
func Execute(c *Case) (res *Result) {
	res = &Result{Probe: map[string]int{}, Checks: map[string]int{}}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	w := rt.NewWorld(c.Seed)
	if c.Replay {
		if c.Decisions == nil {
			c.Decisions = map[string]int64{}
		}
		w.D.SetReplay(c.Decisions)
	}
	w.ResetMapRand()
	random.Stream = rt.RandStream{}
	mul := map[*rt.Proc]map[string][]byte{}
	nist.MulHook = func(b, x, res *big.Int) {
		p := rt.CurProc()
		if p == nil {
			return
		}
		m := mul[p]
		if m == nil {
			m = map[string][]byte{}
			mul[p] = m
		}
		m[string(b.Bytes())+"|"+string(res.Bytes())] = x.Bytes()
	}
	simos.Root = repoDir()
	r := &Run{C: c, W: w, Servers: map[int]*rt.Proc{}, Clients: map[int]*rt.Proc{}, Evils: map[int]*Evil{}, cut: map[string]string{}, vanishAt: map[string]int{}, tcount: map[int]int{}, res: res, mul: mul, forged: map[string]*ref.ShuffleForgery{}}
	bits := c.Plan.Bits
	if bits == 0 {
		bits = 128
	}
	simexec.SafePrime = func(p *rt.Proc, _ string) string {
		pool := primes[bits]
		k := int(rt.Mix(c.Seed^0x7072) % uint64(len(pool)))
		s := pool[(k+r.primeAt)%len(pool)]
		r.primeAt++
		return s
	}
	n := &c.Plan.Net
	w.Net.LatJit = n.JitMs * rt.Millisecond
	w.Net.ChunkPct = n.Chunk
	for _, b := range n.Busy {
		w.Net.BusyPorts[b] = true
	}
	if n.Preempt > 0 {
		w.PreemptProb = uint64(n.Preempt) * (^uint64(0) / 1000000)
	}
	w.Net.DialFault = func(src, dst *rt.Proc, addr string) string {
		if dst != nil && r.cut[dst.Name] != "" {
			res.Probe["fault.unreachable."+r.cut[dst.Name]]++
			return r.cut[dst.Name]
		}
		if src != nil && r.cut[src.Name] != "" {
			return r.cut[src.Name]
		}
		return ""
	}
	w.Net.Intercept = r.intercept
	w.Net.Tear = r.tear
	r.D = w.HarnessProc("director")
	w.Start(r.D, 0, r.director)
	end := w.Run(100*3600*rt.Second, 3000000)
	if !r.doneDir {
		end = "director:" + end
	}
	res.End = end
	res.Hash, res.Ilv = w.HashAcc, w.Ilv
	res.SimNs, res.Steps, res.Switches, res.Msgs, res.Preempts = w.Now, w.Steps, w.Switches, len(w.Msgs), w.Preempts
	for k, v := range w.Probe {
		res.Probe[k] += v
	}
	if !c.Replay {
		res.Decisions = w.D.Rec
		res.Order = w.D.Order
	} else {
		res.Decisions = map[string]int64{}
		for k := range w.D.Used {
			res.Decisions[k] = c.Decisions[k]
		}
		res.Order = w.D.Order
	}
	if !r.doneDir {
		res.Error = "simulation did not finish: " + end + "\n" + w.TasksInfo()
		if end == "director:steps" {
			// endless activity is the system's doing, not the simulator's
			res.Error = ""
			r.stall = append(r.stall, "the run did not come to rest within the step budget")
		}
	}
	if res.Error == "" {
		func() {
			defer func() {
				if e := recover(); e != nil {
					res.Error = fmt.Sprintf("oracle panic: %v\n%s", e, debug.Stack())
				}
			}()
			judge(r)
		}()
	}
	if c.Trace {
		res.Trace = r.trace()
	}
	return res
}

func (r *Run) startApp(p *rt.Proc, arg string) {
	p.Slow = r.C.Plan.Net.Slow[p.Name] * rt.Millisecond
	r.W.Start(p, 0, func() {
		simos.Args = []string{"zrep", arg}
		AppMain()
	})
}

func (r *Run) proc(name string) *rt.Proc {
	for _, p := range r.W.Procs {
		if p.Name == name {
			return p
		}
	}
	return nil
}

func sleep(ms int64) { rt.SleepCur(ms * rt.Millisecond) }

// settle waits until nothing is in flight and nothing happened for a while.
func (r *Run) settle(limit int64) bool {
	w := r.W
	t0 := w.Now
	quietFrom := int64(-1)
	for {
		if !w.Quiet() || w.Activity > quietFrom && quietFrom >= 0 {
			quietFrom = -1
		}
		if w.Quiet() && quietFrom < 0 {
			quietFrom = w.Now
		}
		if quietFrom >= 0 && w.Now-quietFrom >= 3*rt.Second && w.Now-w.Activity >= 3*rt.Second {
			return true
		}
		if w.Now-t0 > limit {
			return false
		}
		sleep(250)
	}
}

const settleLimit = 4000 * rt.Second

func (r *Run) director() {
	w := r.W
	r.Coord = &rt.Proc{Name: "C", Role: "coordinator"}
	r.startApp(r.Coord, "coordinator")
	// the other parties are started once the coordinator is up
	for i := 0; i < 2400 && !w.Net.Listening(r.Coord) && !r.Coord.Dead; i++ {
		sleep(50)
	}
	for i, s := range r.C.Plan.Steps {
		r.stepSeq = append(r.stepSeq, w.Stamp())
		r.logf("step %d: %s", i, s)
		r.step(s)
	}
	if !r.settle(settleLimit) {
		r.NoQuiet++
		r.stall = append(r.stall, "the system did not come to rest at the end")
	}
	r.stepSeq = append(r.stepSeq, w.Stamp())
	r.doneDir = true
	w.Stop = true
}

func (r *Run) step(s Step) {
	w := r.W
	switch s.Op {
	case "server":
		p := &rt.Proc{Name: fmt.Sprintf("S%d", s.I), Role: "server", Index: s.I}
		r.Servers[s.I] = p
		r.startApp(p, "server")
	case "client":
		p := &rt.Proc{Name: fmt.Sprintf("c%d", s.I), Role: "client", Index: s.I}
		r.Clients[s.I] = p
		r.startApp(p, "client")
	case "evil":
		if s.S == "start" {
			r.Evils[s.I] = newEvil(r, s.I)
		} else if e := r.Evils[s.I]; e != nil {
			e.act(s)
		}
	case "enter":
		if !r.Coord.Dead {
			r.enters++
			w.Type(r.Coord, "")
		}
	case "cmd":
		if p := r.Clients[s.I]; p != nil && !p.Dead {
			w.Type(p, s.S)
		}
	case "getrel": // request as much as the reputation shown, or a little more or less
		if p := r.Clients[s.I]; p != nil && !p.Dead {
			w.Type(p, fmt.Sprintf("get %d", r.shown(p)+s.N))
		}
	case "settle":
		if !r.settle(settleLimit) {
			r.NoQuiet++
		}
	case "sleep":
		sleep(s.N)
	case "kill":
		if p := r.proc(s.S); p != nil && !p.Dead {
			if s.N > 0 {
				w.After(s.N*rt.Millisecond, func() {
					if !p.Dead {
						r.res.Probe["fault.kill"]++
						w.Kill(p)
					}
				})
			} else {
				r.res.Probe["fault.kill"]++
				w.Kill(p)
			}
		}
	case "vanish":
		if p := r.proc(s.S); p != nil && !p.Dead && s.M > 0 {
			r.vanishAt[p.Name] = int(s.M)
		} else if p != nil && !p.Dead {
			w.After(s.N*rt.Millisecond, func() {
				if !p.Dead {
					r.res.Probe["fault.vanish"]++
					r.cut[p.Name] = "timeout"
					w.Vanish(p)
				}
			})
		}
	case "cut":
		r.cut[s.S] = "refused"
		if s.N == 1 {
			r.cut[s.S] = "timeout"
		}
	case "heal":
		delete(r.cut, s.S)
	case "raw":
		r.raw(s)
	case "replay":
		r.replayMsg(s)
	case "conf":
		r.confMsg(s)
	default:
		panic("unknown step " + s.Op)
	}
}

// shown is the reputation that a client displayed last.
func (r *Run) shown(p *rt.Proc) int64 {
	for i := len(r.W.Out) - 1; i >= 0; i-- {
		if o := r.W.Out[i]; o.Proc == p {
			if _, t, ok := strings.Cut(o.Text, "My reputation is"); ok {
				if n, err := strconv.ParseInt(strings.TrimSpace(t), 10, 64); err == nil {
					return n
				}
			}
		}
	}
	return 5
}

func (r *Run) port(name string) int {
	if name == "C" {
		return coordPort
	}
	if p := r.proc(name); p != nil {
		return r.W.Net.PortOf(p)
	}
	return 0
}

// send opens a connection from the current task and writes b.
func (r *Run) send(port int, b []byte, label string) bool {
	if port == 0 {
		return false
	}
	e, err := rt.Dial(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}, 0, &rt.DialInfo{Inject: label})
	if err != nil {
		return false
	}
	r.res.Probe["inject."+strings.SplitN(label, ":", 2)[0]]++
	if len(b) > 0 {
		e.Write(b)
	}
	e.Close()
	return true
}

func addrOf(port int) string { return fmt.Sprintf("127.0.0.1:%d", port) }

// decode cache
type msgView struct {
	Ev, Sent *ref.Event
}

func view(m *rt.Msg) *msgView {
	if v, ok := m.Decoded.(*msgView); ok {
		return v
	}
	v := &msgView{}
	v.Ev, _ = ref.Dec(m.Bytes)
	v.Sent = v.Ev
	if m.Altered != "" {
		v.Sent, _ = ref.Dec(m.Orig)
	}
	m.Decoded = v
	return v
}

func evName(t int) string {
	for k, v := range Ev {
		if v == t {
			return k
		}
	}
	return fmt.Sprintf("type%d", t)
}

func is(e *ref.Event, name string) bool {
	if e == nil {
		return false
	}
	v, ok := Ev[name]
	return ok && e.EventType == v
}

func (r *Run) trace() string {
	var sb strings.Builder
	for _, l := range r.Log {
		sb.WriteString(l + "\n")
	}
	for _, m := range r.W.Msgs {
		v := view(m)
		t := "?"
		if v.Ev != nil {
			t = evName(v.Ev.EventType)
		}
		fmt.Fprintf(&sb, "msg %d %s>%s #%d %s %dB dial=%d sent=%d acc=%d eof=%d done=%d at=%.3fs fate=%s alt=%s inj=%s\n", m.ID, m.SrcName, m.DstName, m.N, t, len(m.Bytes), m.DialSeq, m.SentSeq, m.AccSeq, m.EOFSeq, m.DoneSeq, float64(m.SentAt)/1e9, m.Fate, m.Altered, m.Inject)
	}
	for _, o := range r.W.Out {
		fmt.Fprintf(&sb, "out %d %.3fs %s: %s\n", o.Seq, float64(o.T)/1e9, o.Proc.Name, o.Text)
	}
	for _, o := range r.W.Stdin {
		fmt.Fprintf(&sb, "stdin %d %s wait=%v %q\n", o.Seq, o.Proc.Name, o.Wait, o.Line)
	}
	for _, e := range r.W.Exits {
		fmt.Fprintf(&sb, "exit %d %.3fs %s %s %d %s\n%s\n", e.Seq, float64(e.T)/1e9, e.Proc.Name, e.Kind, e.Code, e.Reason, e.Proc.Stack)
	}
	sb.WriteString(r.W.TasksInfo())
	return sb.String()
}
