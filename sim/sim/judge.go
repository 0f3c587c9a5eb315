package sim

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/ref"
	"verifsim/rt"
)

// judge runs every oracle over the recorded run.
func judge(r *Run) {
	h := newHist(r)
	h.processes()
	h.chainOracle()   // C15
	h.tableOracle()   // C03
	h.freshOracle()   // C04
	h.bridgeOracle()  // C05, C06, C08
	h.signOracle()    // C07
	h.deliverOracle() // C09
	h.voteOracle()    // C10
	h.ledgerOracle()  // C01, C02
	h.phaseOracle()   // C11
	h.joinOracle()    // C14
	h.shuffleOracle() // C16
	h.honestyOracle() // C17, C18
	h.signerOracle()  // C19
	h.collateral()
	r.res.NonTrivial = h.nonTrivial()
	r.res.Prints = h.prints()
	sort.SliceStable(r.res.Violations, func(i, j int) bool { return r.res.Violations[i].Prop < r.res.Violations[j].Prop })
}

// collateral adds what a violation of a basic guarantee means for the
// properties that promise it under particular circumstances.
func (h *Hist) collateral() {
	base := map[string]bool{"C01": true, "C02": true, "C03": true, "C05": true, "C06": true, "C08": true, "C09": true, "C10": true, "C11": true, "C14": true, "C15": true, "C16": true, "C17": true, "C18": true}
	switch h.prop {
	case "C12", "C13", "C14":
	default:
		return
	}
	vs := h.r.res.Violations
	for _, v := range vs {
		if v.Prop != h.prop && base[v.Prop] {
			h.fail(h.prop, v.Prop+"."+v.Kind, "%s (%s)", v.Msg, v.Prop)
		}
	}
}

func (h *Hist) nonTrivial() bool {
	n := 0
	for _, rd := range h.rounds {
		if rd.open != never {
			n++
		}
	}
	return n >= 1 && len(h.w.Msgs) > 20
}

// during lists what p sent while it handled m.
func (h *Hist) during(p *rt.Proc, m *rt.Msg) []*rt.Msg {
	end := m.DoneSeq
	if end == 0 {
		end = never
	}
	var l []*rt.Msg
	for _, x := range h.w.Msgs {
		if x.Src == p && x.DialSeq > m.AccSeq && x.DialSeq < end {
			l = append(l, x)
		}
	}
	return l
}

// crashedIn is the message p was handling when it died (nil: none).
func (h *Hist) crashedIn(p *rt.Proc, seq uint64) *rt.Msg {
	var last *rt.Msg
	for _, m := range h.w.Msgs {
		if m.Dst == p && m.AccSeq > 0 && m.AccSeq < seq && (last == nil || m.AccSeq > last.AccSeq) {
			last = m
		}
	}
	if last != nil && (last.DoneSeq == 0 || last.DoneSeq > seq) {
		return last
	}
	return nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

// about says which properties promise that a message is dealt with.
var about = map[string][]string{
	"POST_BRIDGE": {"C05"}, "REQUEST_BRIDGES": {"C06", "C08"}, "SIGN_ASSIGNMENTS": {"C07"}, "GOT_SIGNS": {"C09"}, "VOTE": {"C10"},
	"GN_HONESTY_CHALLENGE": {"C18"}, "GN_HONESTY_ANSWER": {"C17"}, "CLIENT_REGISTER_CONFIRMATION": {"C17"},
	"CLIENT_REGISTER_CONTROLLERSIDE": {"C14"}, "CLIENT_REGISTER_SERVERSIDE": {"C14"}, "INIT_PEDERSEN_R": {"C14"},
	"SERVER_REGISTER": {"C15"}, "SERVER_REGISTER_REPLY": {"C15"}, "UPDATE_NEXT_HOP": {"C15"}, "UPDATE_PEDERSEN_H": {"C15"}, "BCAST_PEDERSEN_H": {"C15"},
	"ANNOUNCEMENT": {"C16"}, "ROUND_END": {"C16"}, "ANNOUNCEMENT_FINALIZE": {"C03"}, "BCAST_PEDERSEN_RDIFF": {"C02"},
}

// liveProps are the properties a crash or a hang violates in this run.
func (h *Hist) liveProps() []string {
	switch h.prop {
	case "C12", "C13", "C14":
		return []string{h.prop}
	}
	if h.benign {
		return []string{"C11"}
	}
	return nil
}

// processes checks that nobody crashed or hung who must not.
func (h *Hist) processes() {
	w := h.w
	for _, r := range w.Races {
		h.fail("C11", "race", "%s: %s and %s use the same map with nothing between them: when they coincide the process dies", r.Proc.Name, r.Old, r.New)
	}
	for _, e := range w.Exits {
		p := e.Proc
		if e.Kind == "killed" || p.Role == "harness" {
			continue
		}
		h.check("exit")
		m := h.crashedIn(p, e.Seq)
		what := "outside any message"
		typ := ""
		if m != nil {
			if ev := view(m).Ev; ev != nil {
				typ = evName(ev.EventType)
			}
			what = fmt.Sprintf("while handling %s from %s", typ, m.SrcName)
			if m.Inject != "" {
				what += " (" + m.Inject + ")"
			}
		}
		switch p.Role {
		case "coordinator", "server":
			if h.plan.relaxed("crash") && p.Role == "server" {
				continue
			}
			for _, q := range h.liveProps() {
				h.fail(q, "crash."+p.Role, "%s stopped (%s %q) %s", p.Name, e.Kind, firstLine(e.Reason), what)
			}
			if m != nil && m.Altered == "" && m.Inject == "" {
				for _, q := range about[typ] {
					h.fail(q, "crash."+p.Role+"."+typ, "%s stopped (%s %q) %s", p.Name, e.Kind, firstLine(e.Reason), what)
				}
			} else if m != nil {
				for _, q := range about[typ] {
					if q != "C16" && q != "C17" {
						h.fail(q, "crash."+p.Role+"."+typ, "%s stopped (%s %q) %s", p.Name, e.Kind, firstLine(e.Reason), what)
					}
				}
			}
		case "client":
			if h.affected(p) != "" {
				continue
			}
			for _, q := range h.liveProps() {
				h.fail(q, "crash.client", "%s stopped (%s %q) %s", p.Name, e.Kind, firstLine(e.Reason), what)
			}
			for _, q := range about[typ] {
				h.fail(q, "crash.client."+typ, "%s stopped (%s %q) %s", p.Name, e.Kind, firstLine(e.Reason), what)
			}
		}
	}
	if h.plan.relaxed("rounds") {
		return
	}
	lp := h.liveProps()
	for _, s := range h.r.stall {
		for _, q := range lp {
			h.fail(q, "unrest", "%s", s)
		}
	}
	if len(h.servers) == 0 {
		return
	}
	c := h.r.Coord
	if !c.Dead {
		h.check("progress")
		if n := c.StdinPending(); n > 0 || !c.WaitingStdin() {
			for _, q := range lp {
				h.fail(q, "stuck", "the coordinator does not get to its next prompt although everything has come to rest (%d of %d operator inputs unread, %d announcements)", n, h.r.enters, len(h.rounds))
			}
			switch {
			case h.prop == "C15" && len(h.plan.Tampers) == 0:
				h.fail("C15", "stuck", "the chain of servers does not complete a round (%d of %d operator inputs unread, %d announcements)", n, h.r.enters, len(h.rounds))
			}
		}
	}
	for _, p := range h.parties {
		if p.kind == "client" && p.affected == "" && !p.proc.Dead && p.first >= 0 {
			if p.proc.StdinPending() > 0 || !p.proc.WaitingStdin() {
				for _, q := range lp {
					h.fail(q, "stuck.client", "%s does not read its commands although everything has come to rest", p.name)
				}
			}
		}
	}
}

// rangeOf is the round in which the coordinator took m.
func (h *Hist) roundOf(m *rt.Msg) *round { return h.roundAt(m.AccSeq) }

// may says whether m reached the coordinator while rd was open for posting or
// voting; must whether it certainly was handled before limit.
func (rd *round) may(m *rt.Msg) bool {
	return m.AccSeq > rd.from && m.AccSeq < rd.closed
}

func (rd *round) must(m *rt.Msg, limit uint64) bool {
	return rd.open != never && m.AccSeq > rd.open && handled(m) && m.DoneSeq > 0 && m.DoneSeq < limit && m.DoneSeq < rd.closed
}

var _ = ref.One
