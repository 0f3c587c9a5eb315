package sim

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/rt"
)

// The driver runs cases in child processes (one simulated run per OS
// process), judges batches, minimises failures and writes the evidence.

var childLimit = 150 * time.Second

type outcome struct {
	c    *Case
	res  *Result
	dead string // the child did not deliver a result
	slow bool   // it ran out of time
}

func runChild(c *Case) *outcome {
	in, _ := json.Marshal(c)
	ctx, cancel := context.WithTimeout(context.Background(), childLimit)
	defer cancel()
	x := exec.CommandContext(ctx, os.Args[0], "child")
	x.Stdin = bytes.NewReader(in)
	x.Env = append(os.Environ(), "GOMEMLIMIT=1200MiB", "GOTRACEBACK=single")
	var out, errb bytes.Buffer
	x.Stdout, x.Stderr = &out, &errb
	err := x.Run()
	o := &outcome{c: c}
	if err != nil {
		e := errb.String()
		if len(e) > 1500 {
			e = e[:1500]
		}
		o.dead = fmt.Sprintf("%v: %s", err, e)
		o.slow = ctx.Err() != nil
		return o
	}
	var r Result
	if err := json.Unmarshal(out.Bytes(), &r); err != nil {
		o.dead = fmt.Sprintf("no result: %v %s", err, errb.String())
		return o
	}
	o.res = &r
	return o
}

// own lists the violations of prop in o; a child that the system under test
// hung or brought down counts against the properties that forbid that.
func own(prop string, o *outcome) []Violation {
	if o.res == nil {
		switch prop {
		case "C11", "C12", "C13", "C14":
			what := "down"
			if o.slow {
				what = "hang"
			}
			return []Violation{{prop, "process." + what, "the simulated system does not return control: " + firstLine(o.dead)}}
		}
		return nil
	}
	var l []Violation
	for _, v := range o.res.Violations {
		if v.Prop == prop {
			l = append(l, v)
		}
	}
	return l
}

func workers() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_JOBS")); err == nil && n > 0 {
		return n
	}
	n := runtime.NumCPU()
	if n > 16 {
		n = 16
	}
	return n
}

// batch runs f(0..n-1) in parallel until it returns false or time is up.
func batch(n int, deadline time.Time, f func(i int) bool) int {
	var mu sync.Mutex
	next, done := 0, 0
	stop := false
	var wg sync.WaitGroup
	for w := workers(); w > 0; w-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= n || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				ok := f(i)
				mu.Lock()
				done++
				if !ok {
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return done
}

type replayFile struct {
	Prop      string   `json:"property"`
	Kind      string   `json:"kind"`
	Msg       string   `json:"message"`
	Command   string   `json:"command"`
	FoundSeed uint64   `json:"found_with_seed"`
	Hash      uint64   `json:"execution_hash"`
	Minimised string   `json:"minimised"`
	Case      *Case    `json:"case,omitempty"`
	Cross     []*Case  `json:"cross_cases,omitempty"`
	Story     []string `json:"story,omitempty"`
}

type finding struct {
	Prop   string `json:"property"`
	Kind   string `json:"kind"`
	Match  string `json:"match,omitempty"` // text every such violation's message contains
	What   string `json:"what"`
	Status string `json:"status"` // known | fixed
	Commit string `json:"commit,omitempty"`
	Replay string `json:"replay,omitempty"` // file under /verif that shows it
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var l []finding
	for _, ln := range strings.Split(string(b), "\n") {
		j, ok := strings.CutPrefix(ln, "known: ")
		if !ok {
			continue
		}
		var f finding
		if err := json.Unmarshal([]byte(j), &f); err != nil {
			fmt.Println("known-findings.txt:", err)
			os.Exit(2)
		}
		f.Status = "known"
		l = append(l, f)
	}
	return l
}

func (f *finding) covers(v Violation) bool {
	return f.Status == "known" && f.Prop == v.Prop && f.Kind == v.Kind && strings.Contains(v.Msg, f.Match)
}

func cli(a []string) int {
	switch a[0] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(a) > 2 {
			tier = a[2]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		return check(a[1], tier)
	case "replay":
		return replay(a[1])
	case "sweep":
		n, from := 40, 1
		if len(a) > 2 {
			n, _ = strconv.Atoi(a[2])
		}
		if len(a) > 3 {
			from, _ = strconv.Atoi(a[3])
		}
		return sweep(a[1], n, from)
	case "kill": // the first violation that any property's runs find
		n, dead := 4, 0
		if len(a) > 1 {
			n, _ = strconv.Atoi(a[1])
		}
		var mu sync.Mutex
		found := ""
		batch(n*19, time.Now().Add(2*time.Hour), func(i int) bool {
			prop := fmt.Sprintf("C%02d", i*7%19+1)
			s := uint64(i/19 + 1)
			o := runChild(Generate(prop, s, "quick"))
			mu.Lock()
			defer mu.Unlock()
			if o.res == nil {
				dead++
				return true
			}
			for _, v := range o.res.Violations {
				if v.Prop == prop && found == "" {
					found = fmt.Sprintf("%s/%s seed %d: %s", v.Prop, v.Kind, s, v.Msg)
				}
			}
			return found == ""
		})
		if found == "" {
			found = fmt.Sprintf("NOTHING (%d runs gave no result)", dead)
		}
		fmt.Println(found)
		return 0
	case "det": // determinism of plain reruns and of replays
		n, bad := 40, 0
		if len(a) > 2 {
			n, _ = strconv.Atoi(a[2])
		}
		var mu sync.Mutex
		batch(n, time.Now().Add(2*time.Hour), func(i int) bool {
			c := Generate(a[1], uint64(i+1), "quick")
			o, o2 := runChild(c), runChild(c)
			r := c.copy()
			if o.res != nil {
				r.Replay, r.Decisions = true, o.res.Decisions
			}
			o3 := runChild(r)
			mu.Lock()
			defer mu.Unlock()
			if o.res == nil || o2.res == nil || o3.res == nil || o.res.Hash != o2.res.Hash || o.res.Hash != o3.res.Hash {
				fmt.Println("differs:", c.Seed)
				bad++
			}
			return true
		})
		fmt.Println(a[1], n, "cases,", bad, "differ")
		if bad > 0 {
			return 1
		}
		return 0
	case "min":
		var s uint64
		fmt.Sscan(a[2], &s)
		c := Generate(a[1], s, "quick")
		o := runChild(c)
		vs := own(a[1], o)
		if len(vs) == 0 {
			fmt.Println("no violation")
			return 0
		}
		p, _ := minimise(c, o, vs[0], time.Now().Add(120*time.Second))
		fmt.Println(p)
		return 1
	case "trace": // of a replay file
		rf, err := loadReplay(a[1])
		if err != nil {
			fmt.Println(err)
			return 2
		}
		rf.Case.Trace = true
		res := Execute(rf.Case)
		fmt.Println(res.Trace)
		for _, v := range res.Violations {
			fmt.Println(v.Prop, v.Kind, v.Msg)
		}
		return 0
	}
	fmt.Fprintln(os.Stderr, "unknown command", a[0])
	return 2
}

func sweep(prop string, n, from int) int {
	var mu sync.Mutex
	kinds := map[string][]uint64{}
	msgs := map[string]string{}
	t0 := time.Now()
	nt := 0
	batch(n, time.Now().Add(2*time.Hour), func(i int) bool {
		s := uint64(from + i)
		tier := "quick"
		if os.Getenv("VERIF_TIER") == "thorough" {
			tier = "thorough"
		}
		o := runChild(Generate(prop, s, tier))
		mu.Lock()
		defer mu.Unlock()
		if o.res == nil {
			k := "DEAD"
			kinds[k] = append(kinds[k], s)
			msgs[k] = o.dead
			return true
		}
		if o.res.NonTrivial {
			nt++
		}
		if o.res.Error != "" {
			k := "ERROR " + firstLine(o.res.Error)
			kinds[k] = append(kinds[k], s)
			msgs[k] = o.res.Error
		}
		for _, v := range o.res.Violations {
			k := v.Prop + "/" + v.Kind
			if v.Prop == prop {
				k = "*" + k
			}
			kinds[k] = append(kinds[k], s)
			msgs[k] = v.Msg
		}
		return true
	})
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Printf("%s: %d runs, %d non-trivial, %.1fs\n", prop, n, nt, time.Since(t0).Seconds())
	for _, k := range ks {
		l := kinds[k]
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		c := len(l)
		if len(l) > 8 {
			l = l[:8]
		}
		fmt.Printf("  %-36s %4d %v %s\n", k, c, l, msgs[k])
	}
	return 0
}

func loadReplay(path string) (*replayFile, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		return nil, err
	}
	return &rf, nil
}

func hasKind(vs []Violation, v Violation) *Violation {
	for i := range vs {
		if vs[i].Prop == v.Prop && vs[i].Kind == v.Kind {
			return &vs[i]
		}
	}
	return nil
}

// shows re-executes a replay file; the violation it shows, or nil.
func shows(rf *replayFile) *Violation {
	if len(rf.Cross) > 0 {
		st := newStats()
		batch(len(rf.Cross), time.Now().Add(time.Hour), func(i int) bool {
			if o := runChild(rf.Cross[i]); o.res != nil {
				st.add(rf.Cross[i].Seed, o.res)
			}
			return true
		})
		for _, x := range st.verdict(rf.Prop) {
			if x.v.Kind == rf.Kind {
				return &x.v
			}
		}
		return nil
	}
	return hasKind(own(rf.Prop, runChild(rf.Case)), Violation{Prop: rf.Prop, Kind: rf.Kind})
}

func replay(path string) int {
	rf, err := loadReplay(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if v := shows(rf); v != nil {
		for _, l := range rf.Story {
			fmt.Println("  " + l)
		}
		fmt.Printf("%s %s: %s\n", v.Prop, v.Kind, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, path)
		return 1
	}
	fmt.Printf("replay: no violation of %s (%s) on this tree\n", rf.Prop, rf.Kind)
	return 0
}

func (c *Case) copy() *Case {
	b, _ := json.Marshal(c)
	var d Case
	json.Unmarshal(b, &d)
	return &d
}

// minimise reduces a failing case to a small replay file that still shows
// the same kind of violation.
func minimise(c *Case, o *outcome, v Violation, deadline time.Time) (string, Violation) {
	tries := 0
	cur := c.copy()
	cur.Trace = false
	best := v
	var mu sync.Mutex
	fails := func(x *Case) bool {
		mu.Lock()
		tries++
		mu.Unlock()
		p := hasKind(own(v.Prop, runChild(x)), v)
		return p != nil
	}
	if o.res != nil {
		r := cur.copy()
		r.Replay, r.Decisions = true, o.res.Decisions
		if fails(r) {
			cur = r
		}
	}
	// first of the candidates that still fails, tried in parallel
	first := func(l []*Case) int {
		found := len(l)
		for lo := 0; lo < len(l) && found == len(l); lo += workers() {
			hi := lo + workers()
			if hi > len(l) {
				hi = len(l)
			}
			if time.Now().After(deadline) {
				return -1
			}
			ok := make([]bool, hi-lo)
			batch(hi-lo, deadline, func(i int) bool { ok[i] = fails(l[lo+i]); return true })
			for i, b := range ok {
				if b {
					found = lo + i
					break
				}
			}
		}
		if found == len(l) {
			return -1
		}
		return found
	}
	// ddmin over n items; without(keep) builds the case that keeps those items
	ddmin := func(n int, build func(keep []bool) *Case) {
		keep := make([]bool, n)
		for i := range keep {
			keep[i] = true
		}
		parts := 2
		for time.Now().Before(deadline) {
			var on []int
			for i, k := range keep {
				if k {
					on = append(on, i)
				}
			}
			if len(on) == 0 {
				break
			}
			if parts > len(on) {
				parts = len(on)
			}
			var l []*Case
			var ks [][]bool
			if parts == 2 || len(on) == 1 { // everything at once
				k := make([]bool, n)
				ks = append(ks, k)
				l = append(l, build(k))
			}
			for p := 0; p < parts && len(on) > 1; p++ {
				k := append([]bool(nil), keep...)
				for x := p * len(on) / parts; x < (p+1)*len(on)/parts; x++ {
					k[on[x]] = false
				}
				ks = append(ks, k)
				l = append(l, build(k))
			}
			if f := first(l); f >= 0 {
				keep = ks[f]
				cur = l[f]
				if parts > 2 {
					parts--
				}
				continue
			}
			if parts >= len(on) {
				break
			}
			parts *= 2
		}
	}
	steps := func() {
		base := cur
		ddmin(len(base.Plan.Steps), func(keep []bool) *Case {
			x := base.copy()
			x.Plan.Steps = nil
			for i, s := range base.Plan.Steps {
				if keep[i] {
					x.Plan.Steps = append(x.Plan.Steps, s)
				}
			}
			return x
		})
	}
	if len(cur.Decisions) > 0 {
		base := cur
		var ks []string
		for k := range base.Decisions {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		ddmin(len(ks), func(keep []bool) *Case {
			x := base.copy()
			x.Decisions = map[string]int64{}
			for i, k := range ks {
				if keep[i] {
					x.Decisions[k] = base.Decisions[k]
				}
			}
			return x
		})
	}
	if len(cur.Plan.Tampers) > 0 {
		base := cur
		ddmin(len(base.Plan.Tampers), func(keep []bool) *Case {
			x := base.copy()
			x.Plan.Tampers = nil
			for i, s := range base.Plan.Tampers {
				if keep[i] {
					x.Plan.Tampers = append(x.Plan.Tampers, s)
				}
			}
			return x
		})
	}
	steps()
	// simpler surroundings
	for _, f := range []func(*Case){
		func(x *Case) { x.Plan.Net.Slow = nil },
		func(x *Case) { x.Plan.Net.Busy = nil },
		func(x *Case) { x.Plan.Net.Chunk = 0 },
		func(x *Case) { x.Plan.Net.Preempt = 0 },
		func(x *Case) { x.Plan.Net.JitMs = 0 },
	} {
		if time.Now().After(deadline) {
			break
		}
		x := cur.copy()
		f(x)
		if fails(x) {
			cur = x
		}
	}
	// the file must show it again, in a process of its own
	fin := runChild(cur)
	p := hasKind(own(v.Prop, fin), v)
	if p == nil {
		return "", v
	}
	best = *p
	rf := &replayFile{Prop: v.Prop, Kind: v.Kind, Msg: best.Msg, FoundSeed: c.Seed, Case: cur,
		Minimised: fmt.Sprintf("%d of %d steps, %d of %d tampers, %d decisions left after %d re-executions", len(cur.Plan.Steps), len(c.Plan.Steps), len(cur.Plan.Tampers), len(c.Plan.Tampers), len(cur.Decisions), tries)}
	if fin.res != nil {
		rf.Hash = fin.res.Hash
	}
	for _, s := range cur.Plan.Steps {
		rf.Story = append(rf.Story, s.String())
	}
	for _, t := range cur.Plan.Tampers {
		rf.Story = append(rf.Story, fmt.Sprintf("tamper %s %s>%s (#%d) %s.%s", t.Type, t.Src, t.Dst, t.Nth, t.Mut, t.Field))
	}
	return writeReplay(rf), best
}

func writeReplay(rf *replayFile) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0755)
	h := rt.HashStr(rf.Prop + rf.Kind + fmt.Sprint(rf.FoundSeed))
	p := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", rf.Prop, uint32(h)))
	rf.Command = "bash " + filepath.Join(verifDir(), "check.sh") + " replay " + p
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(p, append(b, '\n'), 0644)
	return p
}

// seedOf is the i-th case seed of a batch.
func seedOf(base uint64, i int) uint64 { return rt.Mix(base*0x51ed2701+uint64(i)) >> 16 }

func check(prop, tier string) int {
	t0 := time.Now()
	base := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			base = uint64(v)
		}
	}
	n, budget := 260, 75*time.Second
	if tier == "thorough" {
		n, budget = 1<<30, 780*time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_RUNS")); err == nil && v > 0 {
		n = v
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil && v > 0 {
		budget = time.Duration(v) * time.Second
	}
	finds := loadFindings()
	var mu sync.Mutex
	ev := newEvidence(prop, tier, int64(base))
	st := newStats()
	var bad *outcome
	var badV Violation
	var errs []string
	knownSeen := map[string]string{}
	deadline := t0.Add(budget)

	// findings on record: show them again
	for _, f := range finds {
		if f.Prop != prop || f.Status != "known" || f.Replay == "" {
			continue
		}
		rf, err := loadReplay(filepath.Join(verifDir(), f.Replay))
		if err != nil {
			fmt.Println(err)
			return 2
		}
		if v := shows(rf); v != nil {
			knownSeen[f.Kind+f.Match] = f.What
		}
	}

	// corpus: cases that once failed and were repaired, and directed ones
	corpus, _ := filepath.Glob(filepath.Join(verifDir(), "corpus", prop+"-*.json"))
	sort.Strings(corpus)
	cases := func(i int) *Case {
		if i < len(corpus) {
			if rf, err := loadReplay(corpus[i]); err == nil && rf.Case != nil {
				return rf.Case
			}
		}
		return Generate(prop, seedOf(base, i-len(corpus)), tier)
	}
	total := n + len(corpus)
	if n == 1<<30 {
		total = n
	}
	take := func(i int) bool {
		c := cases(i)
		o := runChild(c)
		if o.res == nil && !o.slow && strings.Contains(o.dead, "signal: killed") {
			o = runChild(c) // the sandbox was short of memory
		}
		mu.Lock()
		defer mu.Unlock()
		ev.add(i, o)
		if o.res != nil && o.res.Error != "" {
			errs = append(errs, fmt.Sprintf("seed %d: %s", c.Seed, o.res.Error))
		}
		if o.res != nil {
			if i >= len(corpus) {
				st.add(c.Seed, o.res)
			}
		}
		for _, v := range own(prop, o) {
			known := false
			for k := range finds {
				if finds[k].covers(v) {
					knownSeen[finds[k].Kind+finds[k].Match] = finds[k].What
					known = true
				}
			}
			if !known {
				if bad == nil {
					bad, badV = o, v
				}
				return false
			}
		}
		return true
	}
	batch(total, deadline, take)

	report := func(path string, v Violation) int {
		ev.write(t0, 1)
		fmt.Printf("%s %s: %s\n", v.Prop, v.Kind, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	if bad != nil {
		fmt.Printf("seed %d violates %s (%s): %s\n", bad.c.Seed, prop, badV.Kind, badV.Msg)
		lim := 45 * time.Second
		if tier == "thorough" {
			lim = 100 * time.Second
		}
		path, v := minimise(bad.c, bad, badV, time.Now().Add(lim))
		if path == "" { // the unreduced case
			o := runChild(bad.c)
			if p := hasKind(own(prop, o), badV); p != nil {
				rf := &replayFile{Prop: prop, Kind: badV.Kind, Msg: p.Msg, FoundSeed: bad.c.Seed, Case: bad.c, Minimised: "not reduced"}
				if o.res != nil {
					rf.Hash = o.res.Hash
				}
				path, v = writeReplay(rf), *p
			}
		}
		if path == "" {
			fmt.Printf("the violation does not reproduce: the simulation is not deterministic on this tree\n")
			ev.write(t0, 0)
			return 2
		}
		return report(path, v)
	}
	for _, x := range st.verdict(prop) {
		rf := &replayFile{Prop: prop, Kind: x.v.Kind, Msg: x.v.Msg, FoundSeed: x.seeds[0], Minimised: fmt.Sprintf("%d runs", len(x.seeds))}
		for _, s := range x.seeds {
			rf.Cross = append(rf.Cross, Generate(prop, s, tier))
		}
		return report(writeReplay(rf), x.v)
	}
	// determinism: the same case again, and its recorded schedule replayed
	det := 0
	reps := 3
	batch(reps, time.Now().Add(120*time.Second), func(i int) bool {
		i = len(corpus) + i*7
		mu.Lock()
		h, ok := ev.hash[i]
		mu.Unlock()
		if !ok {
			return true
		}
		c := cases(i)
		o := runChild(c)
		mu.Lock()
		defer mu.Unlock()
		if o.res == nil || o.res.Hash != h {
			errs = append(errs, fmt.Sprintf("seed %d: not deterministic", c.Seed))
			return true
		}
		mu.Unlock()
		r := c.copy()
		r.Replay, r.Decisions = true, o.res.Decisions
		o2 := runChild(r)
		mu.Lock()
		if o2.res == nil || o2.res.Hash != h {
			errs = append(errs, fmt.Sprintf("seed %d: replaying the recorded schedule gives another execution", c.Seed))
			return true
		}
		det++
		return true
	})
	ev.det = det
	for _, k := range sortedStr(knownSeen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, knownSeen[k])
	}
	ev.write(t0, 0)
	if len(errs) > 0 {
		fmt.Printf("%d errors of the simulation; first: %s\n", len(errs), errs[0])
		return 2
	}
	if ev.evals == 0 || ev.dead*4 > ev.evals {
		fmt.Printf("no verdict: %d of %d runs gave no result: %s\n", ev.dead, ev.evals, ev.deadMsg)
		return 2
	}
	fmt.Printf("%s held in %d simulated runs (%d distinct interleavings, %.0f simulated seconds), %.0f s\n", prop, ev.evals, len(ev.ilv), float64(ev.simNs)/1e9, time.Since(t0).Seconds())
	return 0
}

func sortedStr(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ---- comparisons between runs

type stats struct {
	prints map[uint64]uint64 // fingerprint -> seed
	dup    []crossV
	perms  map[int][]([]int)
	seeds  []uint64
	nprint map[uint64]int
}

type crossV struct {
	v     Violation
	seeds []uint64
}

func newStats() *stats {
	return &stats{prints: map[uint64]uint64{}, perms: map[int][]([]int){}, nprint: map[uint64]int{}}
}

var printProp = map[uint64][2]string{
	1: {"C04", "the secret exponent of a hop"}, 2: {"C04", "the re-randomisation factor of a hop"},
	3: {"C19", "a private key"}, 4: {"C19", "a signature nonce"}, 5: {"C17", "a client's honesty challenge"}, 6: {"C18", "a commitment of the honesty proof"},
}

func (s *stats) add(seed uint64, r *Result) {
	s.seeds = append(s.seeds, seed)
	for _, p := range r.Prints {
		s.nprint[p&15]++
		if o, ok := s.prints[p]; ok && o != seed {
			d := printProp[p&15]
			s.dup = append(s.dup, crossV{Violation{d[0], "repeats." + strconv.Itoa(int(p&15)), fmt.Sprintf("%s repeats between runs with different seeds (%d and %d): it is not random", d[1], o, seed)}, []uint64{o, seed}})
		} else {
			s.prints[p] = seed
		}
	}
	for _, p := range r.Perms {
		s.perms[len(p.P)] = append(s.perms[len(p.P)], p.P)
	}
}

// poissonTail is an upper bound on P(X >= k) for mean m (k > m), or on
// P(X <= k) for k < m (Chernoff).
func tail(k int, m float64) float64 {
	x := float64(k)
	if m <= 0 || x == m {
		return 1
	}
	if x == 0 {
		return math.Exp(-m)
	}
	return math.Exp(x - m + x*math.Log(m/x))
}

// verdict judges the batch.
func (s *stats) verdict(prop string) []crossV {
	var l []crossV
	seen := map[string]bool{}
	for _, d := range s.dup {
		if d.v.Prop == prop && !seen[d.v.Kind] {
			seen[d.v.Kind] = true
			l = append(l, d)
		}
	}
	if prop != "C04" {
		return l
	}
	const tiny = 1e-11
	bad := func(f string, a ...interface{}) {
		seeds := append([]uint64(nil), s.seeds...)
		sort.Slice(seeds, func(i, j int) bool { return seeds[i] < seeds[j] })
		l = append(l, crossV{Violation{"C04", "permutation", fmt.Sprintf(f, a...)}, seeds})
	}
	var ns []int
	for n := range s.perms {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	fixed, total, succ, desc, pairs := 0, 0, 0, 0, 0
	esucc := 0.0
	for _, n := range ns {
		if n < 3 {
			continue
		}
		ps := s.perms[n]
		cell := make([]int, n*n)
		same := map[string]int{}
		for _, p := range ps {
			for i, j := range p {
				cell[i*n+j]++
				if i == j {
					fixed++
				}
				if i > 0 {
					pairs++
					esucc += 1 / float64(n)
					if j == p[i-1]+1 {
						succ++
					}
					if j < p[i-1] {
						desc++
					}
				}
			}
			same[fmt.Sprint(p)]++
		}
		total += len(ps)
		m := float64(len(ps)) / float64(n)
		for i, k := range cell {
			if len(l) == 0 && tail(k, m) < tiny {
				bad("tables of %d entries: entry %d went to place %d in %d of %d shuffles (about %.1f expected)", n, i/n, i%n, k, len(ps), m)
			}
		}
		f := 1.0
		for i := 2; i <= n; i++ {
			f *= float64(i)
		}
		coll := 0
		for _, k := range same {
			coll += k * (k - 1) / 2
		}
		if e := float64(len(ps)) * float64(len(ps)-1) / 2 / f; len(l) == 0 && coll > int(e)+2 && tail(coll, e) < tiny {
			bad("tables of %d entries: the same permutation recurs %d times in %d shuffles (%.2g expected)", n, coll, len(ps), e)
		}
	}
	if len(l) == 0 && total > 0 {
		switch {
		case tail(fixed, float64(total)) < tiny:
			bad("%d entries kept their place in %d shuffles (about %d expected)", fixed, total, total)
		case tail(succ, esucc) < tiny:
			bad("%d neighbours stayed neighbours in %d shuffles (about %.0f expected)", succ, total, esucc)
		case math.Abs(float64(desc)-float64(pairs)/2)/math.Sqrt(float64(total)*1.5) > 12:
			bad("%d of %d neighbouring pairs were put in descending order", desc, pairs)
		}
	}
	return l
}

// ---- evidence

type evidence struct {
	prop, tier string
	seed       int64
	evals      int
	dead       int
	deadMsg    string
	distinct   map[uint64]bool
	ilv        map[uint64]bool
	hash       map[int]uint64
	simNs      int64
	steps, sw  uint64
	pre        uint64
	msgs       int
	decisions  int
	probe      map[string]int
	checks     map[string]int
	samples    []interface{}
	corpus     int
	det        int
	settled    int
}

func newEvidence(prop, tier string, seed int64) *evidence {
	return &evidence{prop: prop, tier: tier, seed: seed, distinct: map[uint64]bool{}, ilv: map[uint64]bool{}, hash: map[int]uint64{}, probe: map[string]int{}, checks: map[string]int{}}
}

func (e *evidence) add(i int, o *outcome) {
	e.evals++
	if o.res == nil {
		e.dead++
		e.deadMsg = o.dead
		return
	}
	r := o.res
	e.hash[i] = r.Hash
	if r.NonTrivial {
		e.distinct[r.Hash] = true
	}
	e.ilv[r.Ilv] = true
	e.simNs += r.SimNs
	e.steps += r.Steps
	e.sw += r.Switches
	e.pre += r.Preempts
	e.msgs += r.Msgs
	e.decisions += len(r.Decisions)
	for k, v := range r.Probe {
		e.probe[k] += v
	}
	for k, v := range r.Checks {
		e.checks[k] += v
	}
	if o.c.Plan.Settled {
		e.settled++
	}
	if len(e.samples) < 3 && r.NonTrivial {
		var ops []string
		for _, s := range o.c.Plan.Steps {
			ops = append(ops, s.String())
		}
		e.samples = append(e.samples, map[string]interface{}{"seed": o.c.Seed, "net": o.c.Plan.Net, "operations": ops, "tampers": o.c.Plan.Tampers, "messages": r.Msgs, "preemptions": r.Preempts, "recorded_decisions": len(r.Decisions), "simulated_s": float64(r.SimNs) / 1e9, "execution_hash": fmt.Sprintf("%016x", r.Hash)})
	}
}

func (e *evidence) write(t0 time.Time, violations int) {
	wall := time.Since(t0).Seconds()
	faults := map[string]int{}
	other := map[string]int{}
	for k, v := range e.probe {
		if strings.HasPrefix(k, "fault.") || strings.HasPrefix(k, "inject.") || strings.HasPrefix(k, "net.") {
			faults[k] = v
		} else {
			other[k] = v
		}
	}
	faults["preemptions"] = int(e.pre)
	cov := map[string]interface{}{
		"evaluations":         e.evals,
		"distinct_nontrivial": len(e.distinct),
		"rule":                "one evaluation = one seeded simulated run of the whole system (coordinator, servers, clients, adversaries) in a process of its own; non-trivial = at least one round was announced and opened and more than 20 messages were exchanged; distinct = different hash over the complete execution (every scheduling decision, message and output)",
		"samples":             e.samples,
		"runs_without_result": e.dead,
		"runs_per_hour":       int(float64(e.evals) / wall * 3600),
		"seeds":               fmt.Sprintf("%d case seeds derived from VERIF_SEED=%d", e.evals, e.seed),
		"simulated_seconds":   float64(e.simNs) / 1e9,
		"simulated_per_wall":  float64(e.simNs) / 1e9 / wall,
		"distinct_interleavings": map[string]interface{}{
			"measure": "hash of the order of task switches and message deliveries",
			"count":   len(e.ilv),
		},
		"scheduler_steps":       e.steps,
		"task_switches":         e.sw,
		"messages":              e.msgs,
		"nondefault_decisions":  e.decisions,
		"settled_runs":          e.settled,
		"faults_injected":       faults,
		"other_probes":          other,
		"oracle_checks":         e.checks,
		"determinism_rechecked": e.det,
		"real_components":       "all of /repo's cmd, primitive, proto and util packages and dedis/crypto's group, proof, shuffle and cipher code, compiled from the current tree",
		"stubbed_components":    "TCP (net), clocks and timers (time), goroutine scheduling, terminals (os.Stdin/Stdout, fmt, log), entropy (crypto/rand), the external safe-prime generator (os/exec; a pool of precomputed safe primes)",
	}
	out := map[string]interface{}{
		"property": e.prop, "tier": e.tier, "seed": e.seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{"TCP streams are delivered in order or break; no byte corruption inside a stream except where injected", "one virtual CPU: memory accesses interleave only at instrumented points (before statements of cmd/, at channel, lock, network, time and terminal operations)", "the safe-prime generator program returns safe primes"},
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(filepath.Join(dir, e.prop+".json"), append(b, '\n'), 0644)
}
