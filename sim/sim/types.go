// Package sim drives simulated runs of the whole system: it generates cases
// from seeds, executes them, judges the recorded history and minimises
// failures.
package sim

import (
	"fmt"
	"verifsim/rt"
)

// Filled in by the generated glue (package main of the simulator build).
var AppMain func()

// SetMapUser says whose uses of maps are followed.
func SetMapUser(prefix string) { rt.MapUser = prefix }
var Ev = map[string]int{}
var MessageOf = map[string]func(map[string]interface{}) []byte{}

type Step struct {
	Op string `json:"op"`
	I  int    `json:"i,omitempty"`
	N  int64  `json:"n,omitempty"`
	M  int64  `json:"m,omitempty"`
	S  string `json:"s,omitempty"`
}

func (s Step) String() string {
	o := s.Op
	if s.I != 0 {
		o += fmt.Sprintf(" #%d", s.I)
	}
	if s.S != "" {
		o += fmt.Sprintf(" %q", s.S)
	}
	if s.N != 0 || s.M != 0 {
		o += fmt.Sprintf(" n=%d m=%d", s.N, s.M)
	}
	return o
}

// Tamper alters the Nth message of a type between two roles.
type Tamper struct {
	Type  string `json:"type"`
	Src   string `json:"src"` // role or process name
	Dst   string `json:"dst"`
	Nth   int    `json:"nth"` // 1-based among matching messages; 0 = every one
	Field string `json:"field,omitempty"`
	Mut   string `json:"mut"`
	Arg   int64  `json:"arg,omitempty"`
	// Restore sends the genuine message on after the altered one.
	Restore bool `json:"restore,omitempty"`
}

type NetCfg struct {
	JitMs   int64            `json:"jit_ms,omitempty"`
	Chunk   int              `json:"chunk_pct,omitempty"`
	Preempt int64            `json:"preempt_ppm,omitempty"`
	Slow    map[string]int64 `json:"slow_ms,omitempty"` // process -> extra ms per connection taken
	Busy    []int            `json:"busy_ports,omitempty"`
}

type Plan struct {
	Settled bool     `json:"settled"`
	Bits    int      `json:"prime_bits,omitempty"`
	Net     NetCfg   `json:"net"`
	Steps   []Step   `json:"steps"`
	Tampers []Tamper `json:"tampers,omitempty"`
	// Relax names guarantees this plan's faults legitimately void.
	Relax []string `json:"relax,omitempty"`
}

func (p *Plan) relaxed(s string) bool {
	for _, r := range p.Relax {
		if r == s {
			return true
		}
	}
	return false
}

type Case struct {
	Prop      string           `json:"property"`
	Seed      uint64           `json:"seed"`
	Plan      Plan             `json:"plan"`
	Replay    bool             `json:"replay,omitempty"`
	Decisions map[string]int64 `json:"decisions,omitempty"`
	Trace     bool             `json:"trace,omitempty"`
}

type Violation struct {
	Prop string `json:"property"`
	Kind string `json:"kind"` // stable class, used by minimisation and known findings
	Msg  string `json:"msg"`
}

type Result struct {
	Violations []Violation      `json:"violations,omitempty"`
	Hash       uint64           `json:"hash"`
	Ilv        uint64           `json:"ilv"`
	SimNs      int64            `json:"sim_ns"`
	Steps      uint64           `json:"steps"`
	Switches   uint64           `json:"switches"`
	Msgs       int              `json:"msgs"`
	Preempts   uint64           `json:"preempts"`
	Decisions  map[string]int64 `json:"decisions,omitempty"`
	Order      []string         `json:"order,omitempty"`
	Probe      map[string]int   `json:"probe,omitempty"`
	Checks     map[string]int   `json:"checks,omitempty"`
	NonTrivial bool             `json:"non_trivial"`
	Prints     []uint64         `json:"prints,omitempty"`
	Perms      []Perm           `json:"perms,omitempty"`
	End        string           `json:"end"`
	Error      string           `json:"error,omitempty"`
	Trace      string           `json:"trace,omitempty"`
}

// Perm is one observed permutation of a table: Perm[i] is where entry i went.
type Perm struct {
	Srv string `json:"srv"`
	Dir string `json:"dir"`
	Rnd int    `json:"rnd"`
	P   []int  `json:"p"`
}

type rng struct{ s uint64 }

func (r *rng) u() uint64 { r.s += 0x9e3779b97f4a7c15; return rt.Mix(r.s) }
func (r *rng) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.u() % uint64(k))
}
func (r *rng) rangei(a, b int) int     { return a + r.n(b-a+1) }
func (r *rng) p(pct int) bool          { return r.n(100) < pct }
func (r *rng) pick(l ...string) string { return l[r.n(len(l))] }
