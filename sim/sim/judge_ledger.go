package sim

import (
	"fmt"
	"strconv"
	"strings"

	"verifsim/ref"
	"verifsim/rt"
)

const openRange = 60

// open finds x with val = GT^x HT^R.
func openVal(GT, HT, val, R *Int) (int, bool) {
	if R == nil || val == nil {
		return 0, false
	}
	hr := ref.Exp(HT, R)
	if hr.Sign() == 0 {
		return 0, false
	}
	t := ref.Div(val, hr)
	up, down := ref.I(1), ref.I(1)
	ginv := ref.Inv(GT)
	for i := 0; i <= openRange; i++ {
		if t.Cmp(up) == 0 {
			return i, true
		}
		if t.Cmp(down) == 0 {
			return -i, true
		}
		up = ref.Mul(up, GT)
		down = ref.Mul(down, ginv)
	}
	return 0, false
}

type ledger struct {
	R      *Int // opening as the client was told
	T      *Int // opening as the coordinator computed it
	lo, hi int  // by the vote model
	sum    int  // starting credit and announced differences
	x      int  // last value found
	xok    bool
	d      int // announced difference of the last round
	dok    bool
	last   int
}

func listMap(e *ref.Event, kf, vf string) map[string]*Int {
	ks, err1 := ref.List(e.B(kf))
	vs, err2 := ref.List(e.B(vf))
	if err1 != nil || err2 != nil || len(ks) != len(vs) {
		return nil
	}
	m := map[string]*Int{}
	for i, k := range ks {
		m[key(k)] = vs[i]
	}
	return m
}

// told is the first message of a list whose content is known.
func told(l []*rt.Msg) *ref.Event {
	for _, m := range l {
		if e := view(m).Sent; e != nil {
			return e
		}
	}
	return nil
}

func (h *Hist) ledgerOracle() {
	led := map[*party]*ledger{}
	for _, p := range h.parties {
		if p.kind == "decoy" {
			continue
		}
		l := &ledger{lo: 5, hi: 5, sum: 5, last: -1}
		if e := told(p.initR); e != nil {
			l.R = e.Int("r")
		}
		led[p] = l
		// the coordinator's own opening, from the commitment it registered
		for _, m := range h.fromC {
			e := view(m).Sent
			if is(e, "CLIENT_REGISTER_SERVERSIDE") && e.Int("public_key").Cmp(p.pk) == 0 {
				GT, HT := h.basesAt(m.DialSeq)
				if GT != nil {
					if t := h.findSecret(h.r.Coord, HT, ref.Div(e.Int("pcomm"), ref.Exp(GT, ref.I(5)))); t != nil {
						l.T = t
					}
				}
				break
			}
		}
		if l.R == nil {
			l.R = l.T
		}
	}
	for _, rd := range h.rounds {
		if !rd.tableOK {
			break
		}
		for _, p := range h.parties {
			l := led[p]
			nym := h.nymOf(p, rd)
			if l == nil || nym == nil {
				continue
			}
			i, ok := rd.idx[key(nym)]
			if !ok {
				continue
			}
			if l.R == nil && l.T == nil {
				continue
			}
			h.check("opening")
			x, ok := openVal(rd.GT, rd.HT, rd.vals[i], l.R)
			wireOK := ok
			if !ok && l.T != nil {
				x, ok = openVal(rd.GT, rd.HT, rd.vals[i], l.T)
			}
			if !ok {
				h.fail("C01", "unopenable", "round %d: the commitment published for %s does not open to any plausible value (expected %s)", rd.k, p.name, rng2(l.lo, l.hi))
				h.fail("C02", "opening", "round %d: %s cannot open the commitment published for its pseudonym with what it was sent", rd.k, p.name)
				l.xok = false
				l.last = rd.k
				continue
			}
			if !wireOK && p.affected == "" && len(p.initR) > 0 {
				h.fail("C02", "opening", "round %d: %s cannot open the commitment published for its pseudonym with what it was sent (it holds %d)", rd.k, p.name, x)
			}
			if !(x >= l.lo && x <= l.hi) && x != l.sum {
				h.fail("C01", "value", "round %d: the commitment of %s holds %d, expected %s", rd.k, p.name, x, rng2(l.lo, l.hi))
			}
			if l.xok && l.dok && l.last == rd.k-1 {
				h.check("difference")
				if x-l.x != l.d {
					h.fail("C02", "difference", "round %d: %s was told a change of %d but its committed reputation changed by %d", rd.k-1, p.name, l.d, x-l.x)
					h.fail("C01", "votes", "round %d: votes worth %d were accepted for %s but its committed reputation changed by %d", rd.k-1, l.d, p.name, x-l.x)
				}
			}
			h.values[key(nym)] = x
			l.x, l.xok, l.last = x, true, rd.k
			l.lo, l.hi, l.sum = x, x, x
			h.displayed(p, rd, x)
		}
		// what this round changes
		var keys string
		for _, m := range rd.rdiff {
			if e := view(m).Sent; e != nil {
				k := string(e.B("keys")) + string(e.B("rDiffs"))
				if keys != "" && k != keys {
					h.fail("C02", "rdiff.differs", "round %d: clients were sent different opening changes", rd.k)
				}
				keys = k
			}
		}
		ends := ""
		for _, m := range rd.ends {
			if e := view(m).Sent; e != nil {
				k := string(e.B("keys")) + string(e.B("diffs"))
				if ends != "" && k != ends {
					h.fail("C02", "diff.differs", "round %d: clients were sent different reputation changes", rd.k)
				}
				ends = k
			}
		}
		re := told(rd.rdiff)
		var rm map[string]*Int
		if re != nil {
			rm = listMap(re, "keys", "rDiffs")
		}
		var sm, fm map[string]*Int
		if rd.start != nil {
			sm = listMap(view(rd.start).Sent, "keys", "vals")
			fm = map[string]*Int{}
			for i, k := range rd.keys {
				fm[key(k)] = rd.vals[i]
			}
		}
		for _, p := range h.parties {
			l := led[p]
			nym := h.nymOf(p, rd)
			if l == nil || nym == nil {
				continue
			}
			k := key(nym)
			if l.R != nil && rd.start != nil && (sm == nil || sm[k] != nil) { // it has joined
				if d := rm[k]; d != nil {
					l.R = ref.AddQ(l.R, d)
				} else if rm == nil {
					l.R = nil
				}
			}
			if l.T != nil && sm != nil {
				if sv := sm[k]; sv != nil {
					ov := fm[k]
					if ov != nil {
						l.T = h.addDiff(l.T, rd, sv, ov)
					} else { // joined in this round: the starting commitment plus nothing
						l.T = h.addDiff(l.T, rd, sv, ref.Commit(rd.GT, rd.HT, ref.I(5), l.T))
					}
				}
			}
			l.lo += rd.expLo[k]
			l.hi += rd.expHi[k]
			if rd.diffs != nil {
				l.d, l.dok = rd.diffs[k], true
				l.sum += l.d
			} else {
				l.dok = false
			}
		}
	}
	h.proofs()
	h.exceedOracle()
}

// addDiff follows the coordinator's opening through one update.
func (h *Hist) addDiff(T *Int, rd *round, sv, ov *Int) *Int {
	q := ref.Div(sv, ov)
	for _, d := range []int64{0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6} {
		if x := h.findSecret(h.r.Coord, rd.HT, ref.Div(q, ref.Exp(rd.GT, ref.ModQ(ref.I(d))))); x != nil {
			return ref.AddQ(T, x)
		}
	}
	return nil
}

// basesAt are the coordinator's commitment bases at a point in time.
func (h *Hist) basesAt(seq uint64) (GT, HT *Int) {
	for _, rd := range h.rounds {
		if rd.from < seq && rd.final != nil && rd.final.AccSeq < seq {
			e := view(rd.final).Ev
			GT, HT = e.Int("GT"), e.Int("HT")
		}
		if rd.efinal != nil && rd.efinal.AccSeq < seq {
			e := view(rd.efinal).Ev
			GT, HT = e.Int("GT"), e.Int("HT")
		}
	}
	return
}

func rng2(a, b int) string {
	if a == b {
		return strconv.Itoa(a)
	}
	return fmt.Sprintf("%d..%d", a, b)
}

// displayed compares what a client shows with the ledger.
func (h *Hist) displayed(p *party, rd *round, x int) {
	if p.kind != "client" || p.affected != "" {
		return
	}
	for _, m := range rd.fin {
		if m.Dst != p.proc || !handled(m) {
			continue
		}
		end := m.DoneSeq
		if end == 0 {
			end = never
		}
		for _, o := range h.outLines(p.proc, "[client] My reputation is") {
			if o.Seq < m.AccSeq || o.Seq > end {
				continue
			}
			n, err := strconv.Atoi(strings.TrimSpace(strings.TrimPrefix(o.Text, "[client] My reputation is")))
			if err != nil {
				continue
			}
			h.check("display")
			if n != x {
				h.fail("C02", "display", "round %d: %s displays reputation %d but its commitment holds %d", rd.k, p.name, n, x)
			}
		}
	}
}

// proofs checks that honest clients' requests prove what they claim.
func (h *Hist) proofs() {
	for _, m := range h.w.Msgs {
		if m.Src == nil || m.Src.Role != "client" || m.Inject != "" {
			continue
		}
		e := view(m).Sent
		if !is(e, "REQUEST_BRIDGES") {
			continue
		}
		p := h.byProc[m.Src]
		if p == nil || p.affected != "" {
			continue
		}
		for _, rd := range h.rounds {
			nym := h.nymOf(p, rd)
			if nym == nil || !rd.tableOK || nym.Cmp(e.Int("nym")) != 0 {
				continue
			}
			i, ok := rd.idx[key(nym)]
			if !ok || h.fo == nil {
				continue
			}
			if rdiffBefore(p, rd, m) { // the round is over and its new opening is known
				continue
			}
			h.check("own-proof")
			if ind, _ := e.N("ind"); ind < 1 {
				continue
			}
			if why := h.proofErr(e, rd.vals[i], rd.GT, rd.HT, h.fo); why != "" && !h.midJoin(p, rd, m) {
				h.fail("C02", "proof", "round %d: %s cannot prove the reputation it displays: %s", rd.k, p.name, why)
			}
		}
	}
}

// rdiffBefore says whether p had its opening updated by rd's end when it made m.
func rdiffBefore(p *party, rd *round, m *rt.Msg) bool {
	for _, x := range rd.rdiff {
		if x.Dst == p.proc && x.EOFSeq > 0 && x.EOFSeq < m.DialSeq {
			return true
		}
	}
	return false
}

// midJoin says whether p was not in rd's table when it made m.
func (h *Hist) midJoin(p *party, rd *round, m *rt.Msg) bool {
	for _, f := range rd.fin {
		if f.Dst == p.proc && f.DoneSeq > 0 && f.DoneSeq < m.DialSeq {
			return false
		}
	}
	return true
}

// proofErr is the reference verification of a reputation proof ("" = valid).
func (h *Hist) proofErr(e *ref.Event, val, GT, HT *Int, fo *ref.FO) string {
	ind, ok := e.N("ind")
	if !ok {
		return "no indicator"
	}
	if fo == nil {
		return "no parameters"
	}
	pci, pcd, rind := e.Int("PCommind"), e.Int("PCommd"), e.Int("rind")
	if !ref.Valid(pci) || !ref.Valid(pcd) || rind.Cmp(ref.Q) >= 0 {
		return "invalid element"
	}
	if ref.Commit(GT, HT, ref.I(int64(ind)), rind).Cmp(pci) != 0 {
		return "indicator commitment"
	}
	if ref.Div(val, pci).Cmp(pcd) != 0 {
		return "difference commitment"
	}
	var nn ref.Nonneg
	var eq ref.Equal
	if ref.GobDec(e.B("arg_nonneg"), &nn) != nil || ref.GobDec(e.B("arg_equal"), &eq) != nil {
		return "argument encoding"
	}
	fc := e.Int("FOCommd")
	if !fo.VerifyNonneg(fc, &nn, true) && !fo.VerifyNonneg(fc, &nn, false) {
		return "non-negativity argument"
	}
	if !fo.VerifyEqual(GT, HT, pcd, fc, &eq) {
		return "equality argument"
	}
	return ""
}
