package sim

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/ref"
	"verifsim/rt"
)

// request is one content of a bridge request, however often it was sent.
type request struct {
	key  string
	e    *ref.Event
	nym  *Int
	ind  int
	p    *party
	good bool // made by the owner of the pseudonym, within its reputation
	kind string
	must bool
	evil bool
	rd   *round
	msg  *rt.Msg // the first authentic one handled
	src  string  // where its sender wants the answer
	n    int     // lists issued for it
}

// post is a valid announcement of a bridge.
type post struct {
	addr string
	nym  *Int
	msg  *rt.Msg
	must bool
}

// signKinds are adversarial actions that succeed only if a signature made
// without the private key is accepted.
var signKinds = map[string]bool{
	"post:unsigned": true, "post:emptysig": true, "post:badkey": true, "post:badbase": true, "post:foreign": true, "post:alter": true, "post:swapnym": true, "post:zero": true, "post:one": true,
	"req:unsigned": true, "req:badkey": true, "req:bump": true,
	"vote:unsigned": true, "vote:flip": true, "vote:swapnym": true, "vote:fabricate": true, "vote:fabzero": true, "vote:fabsigned": true, "vote:fabmix": true, "vote:retarget": true, "vote:dropsig": true, "vote:swapsig": true, "vote:repsig": true,
	"spoof:coord": true, "spoof:client": true, "spoof:clientzero": true,
}

// forged reports a violation by an adversary's message, and as a matter of
// signatures too when that is what failed.
func (h *Hist) forged(prop, kind, how, f string, a ...interface{}) {
	h.fail(prop, kind, f, a...)
	if signKinds[how] || strings.HasPrefix(how, "altered") {
		h.fail("C19", "accepted."+strings.SplitN(how, ":", 2)[0], f, a...)
	}
}

// origin says who made a message as it was received, and how.
func (h *Hist) origin(m *rt.Msg, e *ref.Event) (a *auth, how string) {
	a = h.authored[fields(e)]
	switch {
	case a != nil && a.good:
		how = a.kind
	case a != nil:
		how = a.kind
	case m.Altered != "":
		how = "altered " + m.Altered
	default:
		how = m.Inject
	}
	return
}

var proofFields = []string{"nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"}

func reqKey(e *ref.Event) string {
	ind, _ := e.N("ind")
	s := fmt.Sprint(ind)
	for _, f := range proofFields {
		s += "|" + string(e.B(f))
	}
	return s
}

// posts lists the valid posts of a round in the order they were handled, and
// the addresses of invalid ones.
func (h *Hist) posts(rd *round) (l []*post, bad map[string]string) {
	bad = map[string]string{}
	for _, m := range h.toC {
		e := view(m).Ev
		if !is(e, "POST_BRIDGE") {
			continue
		}
		a, how := h.origin(m, e)
		nym := e.Int("nym")
		_, known := rd.idx[key(nym)]
		ok := a != nil && a.good && known && rd.may(m) && rd.owner[key(nym)] == a.p
		if !ok {
			if rd.may(m) {
				bad[e.S("bridge_addr")] = how
			}
			continue
		}
		must := a.p.kind == "client" && rd.must(m, rd.enter1)
		l = append(l, &post{e.S("bridge_addr"), nym, m, must})
	}
	return
}

func (h *Hist) requests(rd *round) map[string]*request {
	rs := map[string]*request{}
	for _, m := range h.toC {
		e := view(m).Ev
		if !is(e, "REQUEST_BRIDGES") || !rd.may(m) {
			continue
		}
		k := reqKey(e)
		r := rs[k]
		if r == nil {
			r = &request{key: k, e: e, nym: e.Int("nym"), rd: rd}
			r.ind, _ = e.N("ind")
			rs[k] = r
		}
		a, how := h.origin(m, e)
		if r.kind == "" {
			r.kind = how
		}
		nk := key(r.nym)
		if _, known := rd.idx[nk]; a == nil || !a.good || !known || rd.owner[nk] != a.p || r.good {
			continue
		}
		r.good, r.msg, r.p, r.kind, r.src = true, m, a.p, how, e.SrcAddr
		r.evil = a.p.kind != "client"
		r.must = !r.evil && a.p.affected == "" && rd.must(m, rd.enter1)
	}
	return rs
}

// list is one assignment list as sent to the servers.
type list struct {
	req   *request
	raw   string
	as    []ref.Assignment
	msgs  []*rt.Msg
	first *rt.Msg
}

func (h *Hist) lists(rd *round) []*list {
	byKey := map[string]*list{}
	var l []*list
	for _, m := range h.fromC {
		e := view(m).Sent
		if !is(e, "SIGN_ASSIGNMENTS") || m.DialSeq < rd.from || m.DialSeq > rd.to {
			continue
		}
		k := reqKey(e) + "#" + string(e.B("assignments"))
		x := byKey[k]
		if x == nil {
			as, err := ref.DecAssignments(e.B("assignments"))
			if err != nil {
				h.fail("C08", "list", "round %d: the coordinator sent out an unreadable assignment list: %v", rd.k, err)
				continue
			}
			x = &list{raw: string(e.B("assignments")), as: as, first: m}
			byKey[k] = x
			l = append(l, x)
		}
		x.msgs = append(x.msgs, m)
	}
	return l
}

func (h *Hist) bridgeOracle() {
	for _, rd := range h.rounds {
		if !rd.tableOK || rd.open == never {
			continue
		}
		posts, badPosts := h.posts(rd)
		reqs := h.requests(rd)
		lists := h.lists(rd)
		for _, x := range lists {
			x.req = reqs[reqKey(view(x.first).Sent)]
		}
		h.checkN("posts", len(posts))
		h.checkN("requests", len(reqs))
		h.checkN("assignment-lists", len(lists))

		assigned := map[string]bool{}
		// providers of an address as of seq; sure: it certainly is there
		avail := func(seq uint64) (may, must map[string]bool, prov map[string]map[string]bool) {
			may, must, prov = map[string]bool{}, map[string]bool{}, map[string]map[string]bool{}
			for _, p := range posts {
				if p.msg.AccSeq > seq {
					continue
				}
				if prov[p.addr] == nil {
					prov[p.addr] = map[string]bool{}
				}
				if !must[p.addr] {
					prov[p.addr][key(p.nym)] = true
				}
				may[p.addr] = true
				if p.must && p.msg.DoneSeq < seq {
					must[p.addr] = true
				}
			}
			return
		}
		count := func(m map[string]bool) (n int) {
			for a := range m {
				if !assigned[a] {
					n++
				}
			}
			return
		}
		// in the order the coordinator handled things
		type item struct {
			seq uint64
			l   *list
			r   *request
		}
		var items []item
		for _, x := range lists {
			items = append(items, item{x.first.DialSeq, x, nil})
		}
		for _, r := range reqs {
			if r.good {
				served := false
				for _, x := range lists {
					if x.req == r {
						served = true
					}
				}
				if !served {
					it := item{r.msg.AccSeq, nil, r}
					for _, x := range lists { // requests are handled in the order they came
						if x.req != nil && x.req.msg != nil && x.req.msg.AccSeq < it.seq && x.first.DialSeq >= it.seq {
							it.seq = x.first.DialSeq + 1
						}
					}
					items = append(items, it)
				}
			}
		}
		sort.SliceStable(items, func(i, j int) bool { return items[i].seq < items[j].seq })
		for _, it := range items {
			if it.l == nil {
				r := it.r
				_, must, _ := avail(r.msg.AccSeq)
				n := count(must)
				if r.must && r.ind >= 1 && n > 0 {
					h.fail("C06", "refused", "round %d: %s's genuine request for %d was not served although %d bridges were available", rd.k, r.p.name, r.ind, n)
					h.fail("C05", "unavailable", "round %d: %d bridges were posted but a genuine request got none of them", rd.k, n)
				}
				continue
			}
			x := it.l
			r := x.req
			if r == nil {
				h.fail("C06", "unrequested", "round %d: bridges were assigned without any request for them in this round", rd.k)
				h.fail("C08", "unrequested", "round %d: bridges were assigned without any request for them in this round", rd.k)
			} else {
				r.n++
				if !r.good {
					h.forged("C06", "accepted", r.kind, "round %d: the coordinator assigned %d bridges for a request that is not genuine (%s)", rd.k, len(x.as), r.kind)
				}
				if r.n > 1 {
					h.fail("C08", "replay", "round %d: one request was honoured %d times", rd.k, r.n)
				}
				if len(x.as) > r.ind {
					h.fail("C08", "indicator", "round %d: a request for %d got %d bridges", rd.k, r.ind, len(x.as))
				}
			}
			if r != nil {
				h.served = append(h.served, r)
			}
			may, _, prov := avail(x.first.DialSeq)
			lo := 0
			if r != nil && r.msg != nil {
				_, m2, _ := avail(r.msg.AccSeq)
				lo = count(m2)
			}
			for i := range x.as {
				a := x.as[i]
				if r != nil && a.NymR.Cmp(r.nym) != 0 {
					h.fail("C08", "requester", "round %d: the assignment of %q names another requester", rd.k, a.Addr)
				}
				if !may[a.Addr] {
					if how, ok := badPosts[a.Addr]; ok {
						h.forged("C05", "forged", how, "round %d: bridge %q was assigned although its only post is not genuine (%s)", rd.k, a.Addr, how)
					} else {
						h.fail("C05", "unposted", "round %d: bridge %q was assigned although nobody posted it in this round", rd.k, a.Addr)
						h.fail("C08", "carried", "round %d: bridge %q was assigned although nobody posted it in this round", rd.k, a.Addr)
					}
				} else if !prov[a.Addr][key(a.Nym)] {
					h.forged("C05", "provider", badPosts[a.Addr], "round %d: bridge %q was assigned as somebody else's than its poster's", rd.k, a.Addr)
					h.fail("C08", "provider", "round %d: bridge %q was assigned as somebody else's than its poster's", rd.k, a.Addr)
				}
				if assigned[a.Addr] {
					h.fail("C08", "twice", "round %d: bridge %q was assigned twice", rd.k, a.Addr)
				}
				assigned[a.Addr] = true
				if rd.issued[a.Addr] == nil {
					rd.issued[a.Addr] = &issue{a: a, req: r, sign: x.msgs, n: len(x.as)}
				}
			}
			if r != nil && r.good && r.n == 1 {
				want := lo
				if r.ind < want {
					want = r.ind
				}
				if len(x.as) < want {
					h.fail("C08", "short", "round %d: a request for %d got %d bridges although %d were available", rd.k, r.ind, len(x.as), lo)
					h.fail("C05", "unavailable", "round %d: a request for %d got %d bridges although %d were posted and unassigned", rd.k, r.ind, len(x.as), lo)
				}
			}
			// every server is asked once
			if !h.r.Coord.Dead {
				to := map[*rt.Proc]int{}
				for _, m := range x.msgs {
					to[m.Dst]++
				}
				for _, s := range h.chain {
					if s.proc.Dead {
						continue
					}
					switch n := to[s.proc]; {
					case n == 0:
						h.fail("C06", "unsent", "round %d: %s was not asked to sign a request's assignments", rd.k, s.proc.Name)
						h.fail("C09", "unsent", "round %d: %s was not asked to sign a request's assignments", rd.k, s.proc.Name)
					case n > 1:
						h.fail("C08", "resent", "round %d: %s was asked %d times to sign the same assignments", rd.k, s.proc.Name, n)
					}
				}
			}
		}
	}
}

// exceedOracle compares honoured indicators with the ledger (C06).
func (h *Hist) exceedOracle() {
	for _, r := range h.served {
		v, ok := h.values[key(r.nym)]
		if !ok {
			continue
		}
		h.check("indicators")
		if r.ind > v {
			who := "somebody"
			if p := r.rd.owner[key(r.nym)]; p != nil {
				who = p.name
			}
			h.fail("C06", "exceeds", "round %d: %s was honoured with indicator %d although its committed reputation is %d (%s)", r.rd.k, who, r.ind, v, r.kind)
		}
	}
}

// signOracle: C07.
func (h *Hist) signOracle() {
	for _, s := range h.servers {
		var fo *ref.FO
		var GT, HT *Int
		var table map[string]*Int
		for _, m := range h.processed(s.proc) {
			e := view(m).Ev
			switch {
			case is(e, "SERVER_REGISTER_REPLY"):
				if fo == nil {
					fo = foOf(e)
				}
			case is(e, "ANNOUNCEMENT_FINALIZE"):
				if t := listMap(e, "keys", "vals"); t != nil && m.Inject == "" {
					table, GT, HT = t, e.Int("GT"), e.Int("HT")
				}
			case is(e, "SIGN_ASSIGNMENTS"):
				h.signed(s, m, e, table, GT, HT, fo)
			}
		}
	}
}

// reportKinds are well-formed but wrong requests: failure has to be reported.
var reportKinds = map[string]bool{"plain": true, "diff": true, "recom": true, "junkeq": true, "junkeq2": true, "t1": true, "t2": true, "bump": true, "bumpsigned": true, "nonnegof": true, "unreg": true, "stale": true, "borrow": true}

func (h *Hist) signed(s *server, m *rt.Msg, e *ref.Event, table map[string]*Int, GT, HT *Int, fo *ref.FO) {
	if strings.HasPrefix(m.Inject, "raw:") {
		return
	}
	h.check("sign-requests")
	why := ""
	if table == nil {
		why = "no table yet"
	} else if val := table[key(e.Int("nym"))]; val == nil {
		why = "unknown pseudonym"
	} else {
		why = h.proofErr(e, val, GT, HT, fo)
	}
	kind, bad := "", false
	if i := strings.Index(m.Inject, ":reqS:"); i >= 0 {
		kind = strings.TrimSuffix(strings.TrimSuffix(m.Inject[i+6:], ":bad"), ":good")
		bad = strings.HasSuffix(m.Inject, ":bad")
	}
	as, err := ref.DecAssignments(e.B("assignments"))
	raws := map[string]bool{}
	if err == nil {
		for _, a := range as {
			raws[string(a.Raw)] = true
		}
	}
	yes, no := 0, 0
	var rep *rt.Msg
	for _, x := range h.during(s.proc, m) {
		f := view(x).Sent
		if !is(f, "GOT_SIGNS") {
			continue
		}
		if ok, _ := f.Params["success"].(bool); ok || len(f.B("signatures")) > 0 {
			yes++
			rep = x
		} else {
			no++
		}
	}
	where := fmt.Sprintf("%s, request from %s", s.proc.Name, m.SrcName)
	if m.Altered != "" {
		where += " altered (" + m.Altered + ")"
	}
	if why != "" || bad {
		if why == "" {
			why = "forged " + kind
		}
		h.check("sign-refusals")
		if yes > 0 {
			h.fail("C07", "signed", "%s: signed assignments although the proof is not valid (%s)", where, why)
		}
		// without an indicator, a pseudonym or a return address it is no request
		well := reportKinds[kind] || m.Altered != "" && !strings.Contains(m.Altered, "assignments") && !strings.Contains(m.Altered, "."+"SrcAddr")
		if well && yes == 0 && no != 1 && m.DoneSeq > 0 && !s.proc.Dead {
			h.fail("C07", "report", "%s: %d failure reports for an invalid proof (%s)", where, no, why)
		}
		return
	}
	if m.Inject != "" || m.Altered != "" {
		return
	}
	if m.DoneSeq == 0 || s.proc.Dead {
		return
	}
	if yes != 1 {
		h.fail("C07", "unsigned", "%s: %d signed replies and %d failure reports for a valid request", where, yes, no)
		return
	}
	f := view(rep).Sent
	var sg [][]byte
	if ref.GobDec(f.B("signatures"), &sg) != nil || len(sg) != len(as) {
		h.fail("C07", "count", "%s: %d signatures for %d assignments", where, len(sg), len(as))
		return
	}
	bs, err := ref.DecAssignments(f.B("assignments"))
	if err != nil || len(bs) != len(as) {
		h.fail("C07", "count", "%s: answers with %d assignments for %d", where, len(bs), len(as))
		return
	}
	for i := range as {
		h.check("server-signatures")
		if string(bs[i].Raw) != string(as[i].Raw) {
			h.fail("C07", "order", "%s: answers with other assignments than it was sent", where)
		} else if !ref.Verify(as[i].Raw, ref.Bytes(s.pk), sg[i], ref.G) {
			h.fail("C07", "signature", "%s: its signature on an assignment does not verify under its registered key", where)
		}
	}
}

// sigsErr checks the list of signatures on an assignment ("" = complete).
func (h *Hist) sigsErr(raw, enc []byte) string {
	var sg [][]byte
	if ref.GobDec(enc, &sg) != nil {
		return "unreadable signatures"
	}
	if len(sg) != len(h.chain)+1 {
		return fmt.Sprintf("%d signatures from %d servers and the coordinator", len(sg), len(h.chain))
	}
	for i, s := range h.chain {
		if !ref.Verify(raw, ref.Bytes(s.pk), sg[i], ref.G) {
			return fmt.Sprintf("signature %d is not %s's", i, s.proc.Name)
		}
	}
	if h.coordPK == nil || !ref.Verify(raw, ref.Bytes(h.coordPK), sg[len(sg)-1], ref.G) {
		return "the last signature is not the coordinator's"
	}
	return ""
}

func (h *Hist) issueOf(raw []byte) (*round, *issue) {
	for _, rd := range h.rounds {
		for _, x := range rd.issued {
			if string(x.a.Raw) == string(raw) {
				return rd, x
			}
		}
	}
	return nil, nil
}

// deliverOracle: C09.
func (h *Hist) deliverOracle() {
	sent := map[*issue][]*rt.Msg{}
	for _, m := range h.fromC {
		e := view(m).Sent
		if !is(e, "GOT_SIGNS") {
			continue
		}
		h.check("deliveries")
		raw := e.B("assignment")
		a, err := ref.DecAssignment(raw)
		rd, x := h.issueOf(raw)
		if err != nil || x == nil {
			h.fail("C09", "unassigned", "the coordinator delivered an assignment it never made (%q)", a.Addr)
			continue
		}
		sent[x] = append(sent[x], m)
		if len(sent[x]) > 1 {
			h.fail("C09", "repeat", "round %d: bridge %q was delivered %d times", rd.k, x.a.Addr, len(sent[x]))
		}
		if rd.k+1 < len(h.rounds) && h.rounds[rd.k+1].ann != nil && m.DialSeq > h.rounds[rd.k+1].ann.DialSeq {
			h.fail("C08", "carried", "round %d: bridge %q of round %d was delivered", rd.k+1, x.a.Addr, rd.k)
		}
		if x.req != nil && x.req.good && m.DstAddr != x.req.src {
			h.fail("C09", "recipient", "round %d: bridge %q went to %s instead of its requester at %s", rd.k, x.a.Addr, m.DstAddr, x.req.src)
		}
		if why := h.sigsErr(raw, e.B("signatures")); why != "" {
			how := ""
			for _, t := range h.toC {
				if t.AccSeq < m.DialSeq && strings.Contains(t.Inject, "spoof:coord") {
					how = "spoof:coord"
				}
			}
			h.forged("C09", "signatures", how, "round %d: bridge %q was delivered with wrong signatures: %s", rd.k, x.a.Addr, why)
		}
		if h.coordPK != nil && !ref.Verify(messageOf("GotSignatures", e.Params), ref.Bytes(h.coordPK), e.B("signature"), ref.G) {
			h.fail("C09", "outer", "round %d: the delivery of bridge %q is not validly signed by the coordinator", rd.k, x.a.Addr)
		}
	}
	for _, rd := range h.rounds {
		for _, addr := range sortedIssued(rd) {
			x := rd.issued[addr]
			if x.req == nil || !x.req.good || x.req.p.affected != "" || x.req.evil || len(sent[x]) > 0 || h.r.Coord.Dead {
				continue
			}
			h.check("delivery-due")
			if h.repliesIn(rd, x) {
				h.fail("C09", "missing", "round %d: every server signed the assignment of bridge %q but %s was not sent it", rd.k, addr, x.req.p.name)
			}
		}
	}
	// what clients accept
	for _, p := range h.parties {
		if p.kind != "client" {
			continue
		}
		shown := map[string]int{}
		for _, o := range h.outLines(p.proc, "Got bridge ") {
			shown[strings.TrimSpace(strings.TrimPrefix(o.Text, "Got bridge "))]++
		}
		due, opt := map[string]int{}, map[string]int{}
		for _, m := range h.processed(p.proc) {
			e := view(m).Ev
			if !is(e, "GOT_SIGNS") {
				continue
			}
			a, err := ref.DecAssignment(e.B("assignment"))
			if err != nil {
				continue
			}
			real := m.Src == h.r.Coord && m.Altered == ""
			if strings.HasPrefix(m.Inject, "dup:") {
				opt[a.Addr]++
			} else if real && m.DoneSeq > 0 && p.affected == "" && !p.proc.Dead {
				due[a.Addr]++
			} else if real {
				opt[a.Addr]++
			}
		}
		for _, addr := range sortedCounts(shown) {
			if shown[addr] > due[addr]+opt[addr] {
				how := "spoof:client"
				h.forged("C09", "displayed", how, "%s displays bridge %q %d times but was validly sent it %d times", p.name, addr, shown[addr], due[addr]+opt[addr])
			}
		}
		for _, addr := range sortedCounts(due) {
			h.check("display-bridge")
			if shown[addr] < due[addr] {
				h.fail("C09", "undisplayed", "%s was sent bridge %q but displays it %d times", p.name, addr, shown[addr])
			}
		}
	}
}

func sortedCounts(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func sortedIssued(rd *round) []string {
	var l []string
	for k := range rd.issued {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// repliesIn says whether every server's own answer about x certainly was
// handled by the coordinator before the round's end could begin.
func (h *Hist) repliesIn(rd *round, x *issue) bool {
	for _, s := range h.chain {
		ok := false
		for _, sm := range x.sign {
			if sm.Dst != s.proc || sm.Altered != "" || !handled(sm) {
				continue
			}
			for _, m := range h.during(s.proc, sm) {
				e := view(m).Sent
				if m.Dst == h.r.Coord && is(e, "GOT_SIGNS") && m.Altered == "" && doneBy(m, rd.enter2) && m.DoneSeq < rd.closed {
					if y, _ := e.Params["success"].(bool); y {
						ok = true
					}
				}
			}
		}
		if !ok {
			return false
		}
	}
	return len(h.chain) > 0
}

// voteOracle: C10.
func (h *Hist) voteOracle() {
	for _, rd := range h.rounds {
		if !rd.tableOK {
			continue
		}
		type ballot struct {
			fb   int
			must bool
		}
		valid := map[string][]ballot{}
		var hows []string
		for _, m := range h.toC {
			e := view(m).Ev
			if !is(e, "VOTE") || !(m.AccSeq > rd.from && m.AccSeq < rd.to) {
				continue
			}
			h.check("votes")
			a, how := h.origin(m, e)
			nym := e.Int("nym")
			as, err := ref.DecAssignment(e.B("assignment"))
			fb, _ := e.N("feedback")
			ok := a != nil && a.good && err == nil && rd.may(m) && rd.owner[key(nym)] == a.p && (fb == 1 || fb == -1)
			if ok {
				x := rd.issued[as.Addr]
				ok = x != nil && string(x.a.Raw) == string(e.B("assignment")) && x.a.NymR.Cmp(nym) == 0 && h.sigsErr(x.a.Raw, e.B("signatures")) == ""
			}
			if !ok {
				hows = append(hows, how)
				continue
			}
			must := (a.p.kind == "client" || a.p.kind == "evil") && a.p.affected == "" && rd.must(m, rd.enter2)
			valid[as.Addr] = append(valid[as.Addr], ballot{fb, must})
		}
		var addrs []string
		for a := range valid {
			addrs = append(addrs, a)
		}
		sort.Strings(addrs)
		for _, addr := range addrs {
			l := valid[addr]
			k := key(rd.issued[addr].a.Nym)
			var opts []int
			certain := false
			for _, b := range l {
				opts = append(opts, b.fb)
				if b.must {
					certain = true
					break
				}
			}
			if !certain {
				opts = append(opts, 0)
			}
			lo, hi := opts[0], opts[0]
			for _, o := range opts {
				if o < lo {
					lo = o
				}
				if o > hi {
					hi = o
				}
			}
			rd.expLo[k] += lo
			rd.expHi[k] += hi
			h.check("ballots")
		}
		if rd.diffs == nil {
			continue
		}
		seen := map[string]bool{}
		var ks []string
		for k := range rd.diffs {
			ks = append(ks, k)
			seen[k] = true
		}
		for k := range rd.expLo {
			if !seen[k] {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			d := rd.diffs[k]
			who := "somebody unknown"
			if p := rd.owner[k]; p != nil {
				who = p.name
			}
			h.check("differences")
			if d < rd.expLo[k] || d > rd.expHi[k] {
				extra := ""
				if len(hows) > 0 {
					extra = " (invalid votes handled: " + strings.Join(hows, ", ") + ")"
				}
				kind := "uncounted"
				if len(hows) > 0 && (d > rd.expHi[k] && d > 0 || d < rd.expLo[k] && d < 0) {
					kind = "accepted"
				} else if d > rd.expHi[k] && d > 0 || d < rd.expLo[k] && d < 0 {
					kind = "overcounted"
				}
				h.fail("C10", kind, "round %d: %s was given %d, its authentic votes sum to %s%s", rd.k, who, d, rng2(rd.expLo[k], rd.expHi[k]), extra)
				if kind == "accepted" {
					for _, w := range hows {
						if signKinds[w] || strings.HasPrefix(w, "altered") {
							h.fail("C19", "accepted.vote", "round %d: %s was given %d, its authentic votes sum to %s%s", rd.k, who, d, rng2(rd.expLo[k], rd.expHi[k]), extra)
						}
					}
				}
			}
		}
	}
}
