package sim

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/ref"
	"verifsim/rt"
)

type Int = ref.Int

const never = ^uint64(0)

// party is anyone with an entry in the table: client, byzantine client, decoy.
type party struct {
	name     string
	kind     string // client, evil, decoy
	proc     *rt.Proc
	evil     *Evil
	pk, sk   *Int
	addr     string
	reg      []*rt.Msg // CLIENT_REGISTER_CONTROLLERSIDE that reached the coordinator
	initR    []*rt.Msg
	conf     []*rt.Msg
	affected string // why guarantees towards it are void ("" = none)
	first    int    // first round whose table has it, -1
	// ledger
	lo, hi int // model value range
	R      *Int
	Rok    bool
}

type server struct {
	proc *rt.Proc
	pk   *Int
	sk   *Int
	addr string
	reg  *rt.Msg
	late bool
	rks  []*Int
}

type round struct {
	k              int
	from           uint64 // DialSeq of the coordinator's announcement
	to             uint64 // DialSeq of the next one
	ann            *rt.Msg
	hops           []*rt.Msg // ANNOUNCEMENT sent by servers
	final          *rt.Msg   // the one delivered to the coordinator
	fin            []*rt.Msg // ANNOUNCEMENT_FINALIZE
	g, GT, HT      *Int
	keys, vals     []*Int
	idx            map[string]int
	owner          map[string]*party
	open           uint64
	enter1, enter2 uint64
	vote           []*rt.Msg
	start          *rt.Msg
	ehops          []*rt.Msg
	efinal         *rt.Msg
	rdiff          []*rt.Msg
	ends           []*rt.Msg
	closed         uint64 // round end begins (start's DialSeq)
	diffs          map[string]int
	expLo, expHi   map[string]int // vote model per provider nym
	tableOK        bool
	issued         map[string]*issue // by bridge address
	assignedAmbig  bool
}

type issue struct {
	a    ref.Assignment
	req  *request
	sign []*rt.Msg
	n    int
}

type Hist struct {
	r        *Run
	w        *rt.World
	plan     *Plan
	prop     string
	servers  []*server
	chain    []*server
	parties  []*party
	byPK     map[string]*party
	byProc   map[*rt.Proc]*party
	rounds   []*round
	toC      []*rt.Msg // handled by the coordinator, in order
	fromC    []*rt.Msg // sent by the coordinator, in order
	coordPK  *Int
	fo       *ref.FO
	powC     map[string]*Int
	viol     map[string]bool
	benign   bool // nothing in the plan but honest parties
	cfgDone  uint64
	authored map[string]*auth
	fp       []uint64
	served   []*request
	values   map[string]int // what each pseudonym's commitment holds
}

// auth is a message somebody made: what it is worth is known from its origin.
type auth struct {
	p    *party
	good bool // validly made by p's owner of the key
	kind string
}

func key(x *Int) string { return string(ref.Bytes(x)) }

func (h *Hist) fail(prop, kind, f string, a ...interface{}) {
	id := prop + "/" + kind
	if h.viol[id] {
		return
	}
	h.viol[id] = true
	h.r.res.Violations = append(h.r.res.Violations, Violation{prop, kind, fmt.Sprintf(f, a...)})
}

func (h *Hist) check(name string)         { h.r.res.Checks[name]++ }
func (h *Hist) checkN(name string, n int) { h.r.res.Checks[name] += n }

// exp is a cached modular power.
func (h *Hist) exp(b, e *Int) *Int {
	k := key(b) + key(e)
	if v, ok := h.powC[k]; ok {
		return v
	}
	v := ref.Exp(b, e)
	h.powC[k] = v
	return v
}

// findSecret is the exponent x with base^x == val that p computed with.
func (h *Hist) findSecret(p *rt.Proc, base, val *Int) *Int {
	if p == nil || base == nil || val == nil {
		return nil
	}
	if x, ok := h.r.mul[p][string(base.Bytes())+"|"+string(val.Bytes())]; ok {
		return new(Int).SetBytes(x)
	}
	return nil
}

func handled(m *rt.Msg) bool {
	return m.AccSeq > 0 && m.EOFSeq > 0 && (m.Fate == "" || m.Fate == "stalled")
}

// doneBy says whether m was completely handled before seq.
func doneBy(m *rt.Msg, seq uint64) bool { return handled(m) && m.DoneSeq > 0 && m.DoneSeq < seq }

func fields(e *ref.Event) string {
	var ks []string
	for k := range e.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|", e.EventType)
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%T:%v|", k, e.Params[k], e.Params[k])
	}
	return sb.String()
}

func hex(x *Int) string {
	if x == nil {
		return "nil"
	}
	s := x.Text(16)
	if len(s) > 10 {
		s = s[:10]
	}
	return s
}

func newHist(r *Run) *Hist {
	h := &Hist{r: r, w: r.W, plan: &r.C.Plan, prop: r.C.Prop, byPK: map[string]*party{}, byProc: map[*rt.Proc]*party{}, powC: map[string]*Int{}, viol: map[string]bool{}, authored: map[string]*auth{}, values: map[string]int{}}
	h.benign = len(h.plan.Tampers) == 0
	for _, s := range h.plan.Steps {
		switch s.Op {
		case "evil", "raw", "replay", "conf":
			h.benign = false
		}
	}
	w := h.w
	for _, m := range w.Msgs {
		view(m)
		if m.Dst == r.Coord && handled(m) {
			h.toC = append(h.toC, m)
		}
		if m.Src == r.Coord {
			h.fromC = append(h.fromC, m)
		}
	}
	sort.SliceStable(h.toC, func(i, j int) bool { return h.toC[i].AccSeq < h.toC[j].AccSeq })
	sort.SliceStable(h.fromC, func(i, j int) bool { return h.fromC[i].DialSeq < h.fromC[j].DialSeq })

	// operator
	var enters []uint64
	for _, s := range w.Stdin {
		if s.Proc == r.Coord && !s.Wait {
			enters = append(enters, s.Seq)
		}
	}
	h.cfgDone = never
	if len(enters) > 0 {
		h.cfgDone = enters[0]
	}
	enter := func(i int) uint64 {
		if i < len(enters) {
			return enters[i]
		}
		return never
	}

	// servers
	seen := map[string]bool{}
	for _, m := range h.toC {
		e := view(m).Ev
		if !is(e, "SERVER_REGISTER") || m.Inject != "" || m.Src == nil || m.Src.Role != "server" {
			continue
		}
		pk := e.Int("public_key")
		if seen[key(pk)] {
			continue
		}
		seen[key(pk)] = true
		s := &server{proc: m.Src, pk: pk, addr: e.SrcAddr, reg: m}
		s.sk = h.findSecret(m.Src, ref.G, pk)
		h.servers = append(h.servers, s)
	}

	// clients
	h.collectParties()

	// coordinator's key and FO parameters
	for _, m := range h.fromC {
		e := view(m).Sent
		if is(e, "CLIENT_REGISTER_CONFIRMATION") {
			h.coordPK = e.Int("public_key")
			h.fo = foOf(e)
			break
		}
	}

	// rounds
	var cur *round
	for _, m := range h.fromC {
		e := view(m).Sent
		if is(e, "ANNOUNCEMENT") {
			if cur != nil {
				cur.to = m.DialSeq
			}
			k := len(h.rounds)
			cur = &round{k: k, from: m.DialSeq, to: never, ann: m, open: never, closed: never, enter1: enter(1 + 2*k), enter2: enter(2 + 2*k), owner: map[string]*party{}, idx: map[string]int{}, issued: map[string]*issue{}, expLo: map[string]int{}, expHi: map[string]int{}}
			h.rounds = append(h.rounds, cur)
			continue
		}
		if cur == nil {
			continue
		}
		switch {
		case is(e, "ANNOUNCEMENT_FINALIZE"):
			cur.fin = append(cur.fin, m)
		case is(e, "VOTE"):
			cur.vote = append(cur.vote, m)
		case is(e, "BCAST_PEDERSEN_RDIFF"):
			cur.rdiff = append(cur.rdiff, m)
		case is(e, "ROUND_END"):
			if e.Has("is_start") {
				if cur.start == nil {
					cur.start = m
					cur.closed = m.DialSeq
				}
			} else {
				cur.ends = append(cur.ends, m)
			}
		}
	}
	for _, m := range w.Msgs {
		if m.Src == nil || m.Src.Role != "server" || m.Inject != "" {
			continue
		}
		e := view(m).Sent
		rd := h.roundAt(m.DialSeq)
		if rd == nil {
			continue
		}
		if is(e, "ANNOUNCEMENT") {
			rd.hops = append(rd.hops, m)
			if m.Dst == r.Coord && handled(m) && rd.final == nil {
				rd.final = m
				if m.DoneSeq > 0 {
					rd.open = m.DoneSeq
				}
			}
		}
		if is(e, "ROUND_END") {
			rd.ehops = append(rd.ehops, m)
			if m.Dst == r.Coord && handled(m) && rd.efinal == nil {
				rd.efinal = m
			}
		}
	}
	if len(h.rounds) > 0 {
		h.collectDecoys(h.rounds[0])
	}
	for _, rd := range h.rounds {
		sort.SliceStable(rd.hops, func(i, j int) bool { return rd.hops[i].DialSeq < rd.hops[j].DialSeq })
		sort.SliceStable(rd.ehops, func(i, j int) bool { return rd.ehops[i].DialSeq < rd.ehops[j].DialSeq })
		h.table(rd)
	}
	for _, m := range w.Msgs {
		e := view(m).Sent
		if e == nil {
			continue
		}
		if m.Src != nil && m.Src.Role == "client" && m.Inject == "" {
			h.authored[fields(e)] = &auth{p: h.byProc[m.Src], good: true, kind: "honest"}
		}
		if l := strings.SplitN(m.Inject, ":", 2); strings.HasPrefix(m.Inject, "evil") && len(l) == 2 {
			for _, p := range h.parties {
				if p.evil != nil && p.name == l[0] {
					if h.authored[fields(e)] == nil {
						h.authored[fields(e)] = &auth{p: p, good: strings.HasSuffix(m.Inject, ":good"), kind: strings.TrimSuffix(strings.TrimSuffix(l[1], ":good"), ":bad")}
					}
				}
			}
		}
	}
	return h
}

func foOf(e *ref.Event) *ref.FO {
	f := &ref.FO{N: e.Int("n"), H1: e.Int("h1")}
	for i := 1; i <= 6; i++ {
		f.G[i] = e.Int(fmt.Sprintf("g%d", i))
	}
	return f
}

func (h *Hist) roundAt(seq uint64) *round {
	for _, rd := range h.rounds {
		if seq > rd.from && seq < rd.to {
			return rd
		}
	}
	return nil
}

func (h *Hist) collectParties() {
	r := h.r
	add := func(p *party) *party {
		if q := h.byPK[key(p.pk)]; q != nil {
			return q
		}
		p.first = -1
		h.parties = append(h.parties, p)
		h.byPK[key(p.pk)] = p
		if p.proc != nil {
			h.byProc[p.proc] = p
		}
		return p
	}
	for _, m := range h.w.Msgs {
		e := view(m).Sent
		if !is(e, "CLIENT_REGISTER_CONTROLLERSIDE") || m.Src == nil {
			continue
		}
		if m.Src.Role == "client" && m.Inject == "" {
			p := add(&party{name: m.Src.Name, kind: "client", proc: m.Src, pk: e.Int("public_key"), addr: e.SrcAddr})
			p.affected = h.affected(m.Src)
			if p.sk == nil {
				p.sk = h.findSecret(m.Src, ref.G, p.pk)
			}
		}
	}
	var ids []int
	for i := range r.Evils {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	for _, i := range ids {
		ev := r.Evils[i]
		if ev != nil && ev.pk != nil {
			add(&party{name: ev.name, kind: "evil", proc: ev.p, evil: ev, pk: ev.pk, sk: ev.sk, addr: ev.addr})
		}
	}
	for _, m := range h.w.Msgs {
		if m.Dst == r.Coord && handled(m) {
			if e := view(m).Ev; is(e, "CLIENT_REGISTER_CONTROLLERSIDE") {
				if p := h.byPK[key(e.Int("public_key"))]; p != nil {
					p.reg = append(p.reg, m)
				}
			}
		}
		if m.Src == r.Coord {
			e := view(m).Sent
			if is(e, "INIT_PEDERSEN_R") || is(e, "CLIENT_REGISTER_CONFIRMATION") {
				if p := h.partyAt(m); p != nil {
					if is(e, "INIT_PEDERSEN_R") {
						p.initR = append(p.initR, m)
					} else {
						p.conf = append(p.conf, m)
					}
				}
			}
		}
	}
}

// partyAt is the party a message to a client was addressed to.
func (h *Hist) partyAt(m *rt.Msg) *party {
	if m.Dst != nil {
		if p := h.byProc[m.Dst]; p != nil {
			return p
		}
	}
	for _, p := range h.parties {
		if p.addr != "" && p.addr == m.DstAddr {
			return p
		}
	}
	return nil
}

func (h *Hist) collectDecoys(rd *round) {
	e := view(rd.ann).Sent
	keys, _ := ref.List(e.B("keys"))
	n := 0
	for _, k := range keys {
		if h.byPK[key(k)] != nil {
			continue
		}
		n++
		p := &party{name: fmt.Sprintf("decoy%d", n), kind: "decoy", pk: k, first: -1}
		p.sk = h.findSecret(h.r.Coord, ref.G, k)
		h.parties = append(h.parties, p)
		h.byPK[key(k)] = p
	}
}

// affected says which injected fault voids guarantees towards a client.
func (h *Hist) affected(p *rt.Proc) string {
	for _, s := range h.plan.Steps {
		if (s.Op == "kill" || s.Op == "cut" || s.Op == "vanish") && s.S == p.Name {
			return s.Op
		}
		if s.Op == "cmd" && s.I == p.Index && p.Role == "client" && s.S == "exit" {
			return "exit"
		}
	}
	for _, m := range h.w.Msgs {
		if m.Dst == p && (m.Altered != "" || m.Fate == "dropped" || m.Fate == "reset") {
			return "tamper"
		}
		if m.Dst == p && (strings.HasPrefix(m.Inject, "dup:") || strings.HasPrefix(m.Inject, "raw:")) {
			return "spoofed"
		}
		if m.Src == p && m.Inject == "" && (m.Altered != "" || m.Fate == "dropped" || m.Fate == "reset") {
			if e := view(m).Sent; is(e, "CLIENT_REGISTER_CONTROLLERSIDE") || is(e, "GN_HONESTY_CHALLENGE") {
				return "tamper"
			}
		}
	}
	return ""
}

// table reads the published table of a round.
func (h *Hist) table(rd *round) {
	var e *ref.Event
	if len(rd.fin) > 0 {
		e = view(rd.fin[0]).Sent
	} else if rd.final != nil {
		e = view(rd.final).Ev
	}
	if e == nil {
		return
	}
	var err1, err2 error
	rd.g, rd.GT, rd.HT = e.Int("g"), e.Int("GT"), e.Int("HT")
	rd.keys, err1 = ref.List(e.B("keys"))
	rd.vals, err2 = ref.List(e.B("vals"))
	if err1 != nil || err2 != nil || len(rd.keys) != len(rd.vals) {
		rd.keys, rd.vals = nil, nil
		return
	}
	rd.tableOK = true
	for i, k := range rd.keys {
		rd.idx[key(k)] = i
	}
	for _, p := range h.parties {
		if p.sk == nil {
			continue
		}
		nym := h.exp(rd.g, p.sk)
		if _, ok := rd.idx[key(nym)]; ok {
			rd.owner[key(nym)] = p
			if p.first < 0 {
				p.first = rd.k
			}
		}
	}
	// differences sent to clients at the end
	if len(rd.ends) > 0 {
		rd.diffs = diffsOf(view(rd.ends[0]).Sent)
	}
}

func diffsOf(e *ref.Event) map[string]int {
	keys, err := ref.List(e.B("keys"))
	var ds []int
	if err != nil || ref.GobDec(e.B("diffs"), &ds) != nil || len(ds) != len(keys) {
		return nil
	}
	m := map[string]int{}
	for i, k := range keys {
		m[key(k)] += ds[i]
	}
	return m
}

// nymOf is p's pseudonym in rd.
func (h *Hist) nymOf(p *party, rd *round) *Int {
	if p.sk == nil || rd.g == nil {
		return nil
	}
	return h.exp(rd.g, p.sk)
}

// processed lists what a process handled, in order.
func (h *Hist) processed(p *rt.Proc) []*rt.Msg {
	var l []*rt.Msg
	for _, m := range h.w.Msgs {
		if m.Dst == p && handled(m) {
			l = append(l, m)
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].AccSeq < l[j].AccSeq })
	return l
}

func (h *Hist) outLines(p *rt.Proc, prefix string) []rt.OutLine {
	var l []rt.OutLine
	for _, o := range h.w.Out {
		t := strings.TrimPrefix(o.Text, "cmd >> ")
		for strings.HasPrefix(t, "cmd >> ") {
			t = strings.TrimPrefix(t, "cmd >> ")
		}
		if o.Proc == p && strings.HasPrefix(t, prefix) {
			o.Text = t
			l = append(l, o)
		}
	}
	return l
}
