package sim

import (
	"verifsim/ref"
	"verifsim/rt"
)

// ---- C15: the chain of servers ----

func (h *Hist) chainOracle() {
	if len(h.rounds) == 0 && h.cfgDone == never {
		return
	}
	r := h.r
	var bc []*rt.Msg
	for _, m := range h.fromC {
		if is(view(m).Sent, "BCAST_PEDERSEN_H") {
			bc = append(bc, m)
		}
	}
	outFrom := never
	if len(bc) > 0 {
		outFrom = bc[0].DialSeq
	}
	if len(h.rounds) > 0 && h.rounds[0].from < outFrom {
		outFrom = h.rounds[0].from
	}
	// who is in
	visited := map[*rt.Proc]bool{}
	for _, rd := range h.rounds {
		for _, m := range rd.hops {
			visited[m.Src] = true
		}
	}
	for _, m := range bc {
		if m.Dst != nil {
			visited[m.Dst] = true
		}
	}
	for _, s := range h.servers {
		switch {
		case s.reg.AccSeq > outFrom:
			s.late = true
			h.check("late-server")
		case s.reg.DoneSeq > 0 && s.reg.DoneSeq < h.cfgDone:
			h.chain = append(h.chain, s)
		case visited[s.proc]:
			h.chain = append(h.chain, s)
		default:
			s.late = true
		}
	}
	if h.plan.relaxed("rounds") {
		return
	}
	if len(h.chain) == 0 {
		return
	}
	h.check("chain")
	name := func(p *rt.Proc) string {
		if p == nil {
			return "?"
		}
		return p.Name
	}
	for _, rd := range h.rounds {
		if rd.final == nil && rd.k < len(h.rounds)-1 || rd.final != nil {
			prev := rd.ann
			for i, s := range h.chain {
				if prev == nil || prev.Dst != s.proc {
					h.fail("C15", "announce.order", "announcement %d went to %s where server %d of the chain, %s, was due", rd.k, name(dstOf(prev)), i+1, s.proc.Name)
					break
				}
				prev = nil
				n := 0
				for _, m := range rd.hops {
					if m.Src == s.proc {
						n++
						prev = m
					}
				}
				if n != 1 {
					h.fail("C15", "announce.visits", "%s passed announcement %d on %d times", s.proc.Name, rd.k, n)
					break
				}
				if i == len(h.chain)-1 && prev.Dst != r.Coord {
					h.fail("C15", "announce.order", "the last server %s sent announcement %d to %s", s.proc.Name, rd.k, name(prev.Dst))
				}
			}
			for _, m := range rd.hops {
				if !h.inChain(m.Src) {
					h.fail("C15", "announce.foreign", "%s, not in the chain, took part in announcement %d", m.SrcName, rd.k)
				}
			}
		}
		if rd.start != nil && (rd.efinal != nil || rd.k < len(h.rounds)-1) {
			prev := rd.start
			for i := len(h.chain) - 1; i >= 0; i-- {
				s := h.chain[i]
				if prev == nil || prev.Dst != s.proc {
					h.fail("C15", "end.order", "round end %d went to %s where %s was due", rd.k, name(dstOf(prev)), s.proc.Name)
					break
				}
				prev = nil
				n := 0
				for _, m := range rd.ehops {
					if m.Src == s.proc {
						n++
						prev = m
					}
				}
				if n != 1 {
					h.fail("C15", "end.visits", "%s passed round end %d on %d times", s.proc.Name, rd.k, n)
					break
				}
				if i == 0 && prev.Dst != r.Coord {
					h.fail("C15", "end.order", "the first server %s sent round end %d to %s", s.proc.Name, rd.k, name(prev.Dst))
				}
			}
		}
	}
	// the commitment base
	if h.cfgDone == never || len(h.rounds) == 0 {
		return
	}
	h.check("base")
	prod := ref.I(1)
	known := true
	exps := map[string]string{}
	for _, s := range h.chain {
		var rep, upd *rt.Msg
		for _, m := range h.w.Msgs {
			if m.Src == r.Coord && m.Dst == s.proc && is(view(m).Sent, "SERVER_REGISTER_REPLY") && m.Inject == "" {
				rep = m
			}
			if m.Src == s.proc && is(view(m).Sent, "UPDATE_PEDERSEN_H") && m.Inject == "" && upd == nil {
				upd = m
			}
		}
		if rep == nil || upd == nil {
			h.fail("C15", "base.silent", "%s is in the chain but contributed nothing to the commitment base", s.proc.Name)
			known = false
			continue
		}
		hin, hout := view(rep).Ev.Int("h"), view(upd).Sent.Int("h")
		x := h.findSecret(s.proc, hin, hout)
		if x == nil {
			if hin.Cmp(hout) == 0 {
				h.fail("C15", "base.trivial", "%s left the commitment base unchanged", s.proc.Name)
			}
			known = false
			continue
		}
		if x.BitLen() < 64 || x.Cmp(s.skOr()) == 0 {
			h.fail("C15", "base.trivial", "%s contributed a predictable exponent (%d bits) to the commitment base", s.proc.Name, x.BitLen())
		}
		if o := exps[key(x)]; o != "" {
			h.fail("C15", "base.same", "%s and %s contributed the same exponent to the commitment base", o, s.proc.Name)
		}
		exps[key(x)] = s.proc.Name
		prod.Mul(prod, x)
		prod.Mod(prod, ref.Q)
	}
	told := map[*rt.Proc]*Int{}
	for _, m := range bc {
		told[m.Dst] = view(m).Sent.Int("h")
	}
	var H *Int
	for _, s := range h.chain {
		t := told[s.proc]
		if t == nil {
			h.fail("C15", "base.untold", "%s was never told the final commitment base", s.proc.Name)
			continue
		}
		if H == nil {
			H = t
		}
		if H.Cmp(t) != 0 {
			h.fail("C15", "base.differ", "servers were told different commitment bases")
		}
	}
	ann := view(h.rounds[0].ann).Sent
	if H != nil && ann.Int("HT").Cmp(H) != 0 {
		h.fail("C15", "base.used", "the first announcement uses another commitment base than the servers were told")
	}
	if known && H != nil && h.exp(ann.Int("GT"), prod).Cmp(H) != 0 {
		h.fail("C15", "base.lost", "the final commitment base does not contain every server's exponent (%d servers)", len(h.chain))
	}
	for _, rd := range h.rounds {
		e := view(rd.ann).Sent
		if gt, ht := e.Int("GT"), e.Int("HT"); known && H != nil && gt != nil && ht != nil && h.exp(gt, prod).Cmp(ht) != 0 && rd != h.rounds[0] {
			h.fail("C15", "base.changed", "announcement %d uses a commitment base that is not made of every server's exponent (%d servers)", rd.k, len(h.chain))
			break
		}
	}
	for _, s := range h.servers {
		if s.late && (told[s.proc] != nil) && s.reg.AccSeq > outFrom {
			h.fail("C15", "late.told", "%s registered after configuration ended but was treated as a member of the chain", s.proc.Name)
		}
	}
}

func (s *server) skOr() *Int {
	if s.sk != nil {
		return s.sk
	}
	return new(Int)
}

func dstOf(m *rt.Msg) *rt.Proc {
	if m == nil {
		return nil
	}
	return m.Dst
}

func (h *Hist) inChain(p *rt.Proc) bool {
	for _, s := range h.chain {
		if s.proc == p {
			return true
		}
	}
	return false
}

// ---- C03: the published table ----

func (h *Hist) closedSeq(k int) uint64 {
	if k < 0 {
		return 0
	}
	if k < len(h.rounds) {
		return h.rounds[k].closed
	}
	return never
}

// mustBeIn says whether p has to be in rd's table; mayBeIn whether it can be.
func (h *Hist) mustBeIn(p *party, rd *round) bool {
	if p.kind == "decoy" {
		return true
	}
	if len(p.conf) == 0 {
		return false
	}
	c := p.conf[0].DialSeq
	if rd.k == 0 {
		return c < rd.from && false
	}
	// confirmed, that is accepted into the buffer, before the previous round
	// began to end
	return c < h.rounds[rd.k-1].closed && h.rounds[rd.k-1].closed != never
}

func (h *Hist) mayBeIn(p *party, rd *round) bool {
	if p.kind == "decoy" {
		return true
	}
	for _, m := range p.reg {
		if m.AccSeq < rd.from {
			return true
		}
	}
	return false
}

func (h *Hist) tableOracle() {
	for _, rd := range h.rounds {
		if len(rd.fin) == 0 && rd.final == nil {
			continue
		}
		if !rd.tableOK {
			h.fail("C03", "unreadable", "table of round %d cannot be decoded", rd.k)
			continue
		}
		h.check("table")
		seen := map[string]int{}
		for _, k := range rd.keys {
			seen[key(k)]++
			if seen[key(k)] == 2 {
				h.fail("C03", "duplicate", "round %d: a pseudonym appears twice in the table", rd.k)
			}
			if rd.owner[key(k)] == nil {
				h.fail("C03", "foreign", "round %d: the table has an entry that belongs to no registered client or decoy (%d entries, generator %s)", rd.k, len(rd.keys), hex(rd.g))
			}
		}
		for _, p := range h.parties {
			in := false
			if nym := h.nymOf(p, rd); nym != nil {
				_, in = rd.idx[key(nym)]
			} else {
				continue
			}
			if h.mustBeIn(p, rd) && !in {
				h.fail("C03", "missing."+p.kind, "round %d: %s is registered but not in the table (%d entries)", rd.k, p.name, len(rd.keys))
			}
			if in && !h.mayBeIn(p, rd) {
				h.fail("C03", "early", "round %d: %s is in the table before it registered", rd.k, p.name)
			}
		}
		// everybody is told the same
		if rd.final != nil {
			fe := view(rd.final).Ev
			for _, m := range rd.fin {
				e := view(m).Sent
				h.check("finalize")
				for _, f := range []string{"g", "keys", "vals", "GT", "HT"} {
					if string(e.B(f)) != string(fe.B(f)) {
						h.fail("C03", "differs", "round %d: %s was sent another %s than the servers produced", rd.k, m.DstName, f)
					}
				}
			}
		}
		complete := rd.k < len(h.rounds)-1 || rd.open != never
		if complete && rd.final != nil {
			got := map[*rt.Proc]int{}
			addrs := map[string]int{}
			for _, m := range rd.fin {
				if m.Dst != nil {
					got[m.Dst]++
				}
				addrs[m.DstAddr]++
			}
			for _, s := range h.chain {
				if got[s.proc] != 1 && !s.proc.Dead {
					h.fail("C03", "untold.server", "round %d: %s was sent the table %d times", rd.k, s.proc.Name, got[s.proc])
				}
			}
			for _, p := range h.parties {
				if p.kind == "decoy" || !h.mustBeIn(p, rd) || p.affected != "" {
					continue
				}
				n := addrs[p.addr]
				if p.proc != nil && got[p.proc] > n {
					n = got[p.proc]
				}
				if n != 1 {
					h.fail("C03", "untold.client", "round %d: %s was sent the table %d times", rd.k, p.name, n)
				}
			}
		}
		// the long-term keys handed back
		if rd.efinal != nil && rd.start != nil {
			h.check("handback")
			ks, err := ref.List(view(rd.efinal).Sent.B("keys"))
			if err != nil {
				h.fail("C03", "handback", "round %d: keys handed back cannot be decoded", rd.k)
				continue
			}
			ss, _ := ref.List(view(rd.start).Sent.B("keys"))
			want := map[string]*party{}
			for _, k := range ss {
				for _, p := range h.parties {
					if nym := h.nymOf(p, rd); nym != nil && nym.Cmp(k) == 0 {
						want[key(p.pk)] = p
					}
				}
			}
			for _, p := range rd.owner {
				want[key(p.pk)] = p
			}
			have := map[string]bool{}
			for _, k := range ks {
				if have[key(k)] {
					h.fail("C03", "handback.dup", "round %d: a long-term key was handed back twice", rd.k)
				}
				have[key(k)] = true
				if want[key(k)] == nil {
					h.fail("C03", "handback.foreign", "round %d: a key was handed back that is no long-term key of the table", rd.k)
				}
			}
			for k, p := range want {
				if !have[k] {
					h.fail("C03", "handback.lost", "round %d: the long-term key of %s was not handed back", rd.k, p.name)
				}
			}
		}
	}
}
