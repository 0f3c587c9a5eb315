package sim

import (
	"fmt"
	"net"

	"verifsim/ref"
	"verifsim/rt"
)

// Evil is a byzantine participant: it registers like a client, follows the
// rounds, and sends genuine and forged messages when the plan says so. Every
// message it sends carries a label telling the oracles what it is.
type Evil struct {
	r    *Run
	i    int
	p    *rt.Proc
	name string
	pk   *Int
	sk   *Int
	addr string
	port int

	R, g, GT, HT *Int
	oldg         *Int
	keys, vals   []*Int
	oldkeys      []*Int
	idx          int
	nym          *Int
	rep          int
	fo           *ref.FO
	coordPK      *Int
	prf          []*Int
	confs        int
	got          []gotMsg // of this round
	old          []gotMsg // of earlier rounds
	signed       []gotMsg // obtained from servers directly
	answers      [][]*Int
	mine         []int // indices into World.Msgs of own coordinator messages
	lastReq      *ref.Event
	seq          int
}

type gotMsg struct {
	raw  []byte
	sigs []byte
	a    ref.Assignment
}

func rnd(m *Int) *Int {
	b := make([]byte, len(m.Bytes())+16)
	rt.Entropy(b)
	return new(Int).Mod(new(Int).SetBytes(b), m)
}

func newEvil(r *Run, i int) *Evil {
	e := &Evil{r: r, i: i, name: fmt.Sprintf("evil%d", i), idx: -1, rep: 5}
	e.p = r.W.HarnessProc(e.name)
	r.W.Start(e.p, 0, e.main)
	sleep(20)
	return e
}

func (e *Evil) main() {
	e.sk = rnd(ref.Q)
	e.pk = ref.Exp(ref.G, e.sk)
	l, err := rt.Listen(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		return
	}
	e.port = l.Addr().Port
	e.addr = addrOf(e.port)
	e.r.W.Spawn(e.p, 0, func() { e.register("good") })
	buf := make([]byte, 65536)
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		var b []byte
		for {
			n, err := c.Read(buf)
			b = append(b, buf[:n]...)
			if err != nil {
				break
			}
		}
		c.Close()
		if ev, err := ref.Dec(b); err == nil {
			e.handle(ev)
		}
	}
}

func (e *Evil) register(lab string) {
	ev := &ref.Event{EventType: Ev["CLIENT_REGISTER_CONTROLLERSIDE"], Params: map[string]interface{}{"public_key": ref.Bytes(e.pk)}, SrcAddr: e.addr}
	e.r.send(coordPort, ref.Enc(ev), e.label("register", lab))
}

func (e *Evil) label(kind, verdict string) string { return e.name + ":" + kind + ":" + verdict }

func (e *Evil) handle(ev *ref.Event) {
	switch {
	case is(ev, "INIT_PEDERSEN_R"):
		if e.R == nil {
			e.R = ev.Int("r")
			if g := ev.Int("g"); g != nil {
				e.nym = ref.Exp(g, e.sk) // the round end of this very round refreshes R already
			}
		}
	case is(ev, "CLIENT_REGISTER_CONFIRMATION"):
		e.confs++
		e.fo = foOf(ev)
		e.coordPK = ev.Int("public_key")
		var l []*Int
		if ref.GobDec(ev.B("honesty_prf"), &l) == nil {
			e.prf = l
		}
	case is(ev, "GN_HONESTY_ANSWER"):
		var l []*Int
		if ref.GobDec(ev.B("honesty_ans"), &l) == nil {
			e.answers = append(e.answers, l)
		}
	case is(ev, "ANNOUNCEMENT_FINALIZE"):
		ks, err1 := ref.List(ev.B("keys"))
		vs, err2 := ref.List(ev.B("vals"))
		if err1 != nil || err2 != nil || len(ks) != len(vs) {
			return
		}
		e.oldg, e.oldkeys = e.g, e.keys
		e.g, e.GT, e.HT = ev.Int("g"), ev.Int("GT"), ev.Int("HT")
		e.keys, e.vals = ks, vs
		e.nym = ref.Exp(e.g, e.sk)
		e.idx = -1
		for i, k := range ks {
			if k.Cmp(e.nym) == 0 {
				e.idx = i
			}
		}
		e.old = append(e.old, e.got...)
		e.got, e.signed = nil, nil
		e.lastReq = nil
	case is(ev, "BCAST_PEDERSEN_RDIFF"):
		ks, err1 := ref.List(ev.B("keys"))
		ds, err2 := ref.List(ev.B("rDiffs"))
		if err1 != nil || err2 != nil || e.nym == nil || e.R == nil {
			return
		}
		for i, k := range ks {
			if k.Cmp(e.nym) == 0 && i < len(ds) {
				e.R = ref.AddQ(e.R, ds[i])
				break
			}
		}
	case is(ev, "ROUND_END"):
		if e.nym != nil {
			e.rep += diffsOf(ev)[key(e.nym)]
		}
	case is(ev, "GOT_SIGNS"):
		if ev.Has("success") { // a server answering a direct request
			as, err := ref.DecAssignments(ev.B("assignments"))
			var sg [][]byte
			if err == nil && ref.GobDec(ev.B("signatures"), &sg) == nil && len(sg) == len(as) {
				for i, a := range as {
					e.signed = append(e.signed, gotMsg{a.Raw, sg[i], a})
				}
			}
			return
		}
		a, err := ref.DecAssignment(ev.B("assignment"))
		if err == nil {
			e.got = append(e.got, gotMsg{ev.B("assignment"), ev.B("signatures"), a})
		}
	}
}

func (e *Evil) ready() bool { return e.idx >= 0 && e.g != nil }

func (e *Evil) toCoord(typ string, pm map[string]interface{}, kind, verdict string) {
	ev := &ref.Event{EventType: Ev[typ], Params: pm, SrcAddr: e.addr}
	e.r.send(coordPort, ref.Enc(ev), e.label(kind, verdict))
}

func clonePm(pm map[string]interface{}) map[string]interface{} {
	n := map[string]interface{}{}
	for k, v := range pm {
		n[k] = v
	}
	return n
}

// sign fills in pm's signature with key x over base g.
func sign(what string, pm map[string]interface{}, x, g *Int) {
	pm["signature"] = ref.Sign(messageOf(what, pm), x, g, rnd(ref.Q))
}

// messageOf is what a signature covers: the system's own serialisation where
// it has one, so that adversaries keep up with changes of format.
func messageOf(what string, pm map[string]interface{}) []byte {
	c := clonePm(pm)
	delete(c, "signature")
	if f := MessageOf[what]; f != nil {
		return f(c)
	}
	e := &ref.Event{Params: c}
	switch what {
	case "PostBridge":
		return ref.MsgPost(e)
	case "RequestBridges":
		return ref.MsgRequest(e)
	case "GotSignatures":
		return ref.MsgGot(e)
	}
	fb, _ := e.N("feedback")
	m := append(append(append([]byte(nil), e.B("nym")...), e.B("assignment")...), e.B("signatures")...)
	return append(m, ref.I(int64(fb)).Bytes()...)
}

func signZero(what string, pm map[string]interface{}) {
	pm["signature"] = ref.SignZero(messageOf(what, pm), rnd(ref.Q))
}

func junkSig() []byte {
	return append(ref.Bytes(rnd(ref.Q)), ref.Bytes(rnd(ref.Q))...)
}

func (e *Evil) act(s Step) {
	if len(s.S) > 4 && s.S[:4] == "post" {
		e.post(s)
		return
	}
	if len(s.S) > 3 && s.S[:3] == "req" {
		e.request(s)
		return
	}
	if len(s.S) > 4 && s.S[:4] == "vote" {
		e.vote(s)
		return
	}
	if len(s.S) > 5 && s.S[:5] == "spoof" {
		e.spoof(s)
		return
	}
	if len(s.S) > 4 && s.S[:4] == "chal" {
		e.challenge(s)
		return
	}
	switch s.S {
	case "register":
		e.register("dup")
	case "regserver": // a registration that the coordinator knows nothing about
		if sp := e.r.Servers[int(s.N)]; sp != nil && !sp.Dead {
			k := ref.Exp(ref.G, rnd(ref.Q))
			a := addrOf(20000 + int(s.N)*10 + int(s.M))
			ev := &ref.Event{EventType: Ev["CLIENT_REGISTER_SERVERSIDE"], SrcAddr: e.addr, Params: map[string]interface{}{
				"public_key": ref.Bytes(k), "addr": a, "pcomm": ref.Bytes(k)}}
			e.r.send(e.r.W.Net.PortOf(sp), ref.Enc(ev), e.label("regserver", "bad"))
		}
	case "hijack": // somebody else's key with our address
		if k := e.r.clientKey(int(s.N)); k != nil {
			e.toCoord("CLIENT_REGISTER_CONTROLLERSIDE", map[string]interface{}{"public_key": ref.Bytes(k)}, "hijack", "bad")
		}
	}
}

// clientKey is the public key client i registered with.
func (r *Run) clientKey(i int) *Int {
	for _, m := range r.W.Msgs {
		if m.Src != nil && m.Src == r.Clients[i] && m.DoneSeq > 0 && m.Dst == r.Coord {
			if ev, err := ref.Dec(m.Bytes); err == nil && is(ev, "CLIENT_REGISTER_CONTROLLERSIDE") {
				return ev.Int("public_key")
			}
		}
	}
	return nil
}

func (e *Evil) other(n int64) *Int {
	if len(e.keys) == 0 {
		return nil
	}
	i := int(uint64(n) % uint64(len(e.keys)))
	if i == e.idx {
		i = (i + 1) % len(e.keys)
	}
	return e.keys[i]
}

func (e *Evil) post(s Step) {
	if !e.ready() {
		return
	}
	e.seq++
	addr := fmt.Sprintf("%s-b%d", e.name, e.seq)
	pm := map[string]interface{}{"bridge_addr": addr, "nym": ref.Bytes(e.nym)}
	verdict := "bad"
	switch s.S {
	case "post:good":
		sign("PostBridge", pm, e.sk, e.g)
		verdict = "good"
	case "post:steal": // somebody else's bridge address, own valid signature
		pm["bridge_addr"] = fmt.Sprintf("br%d", s.N)
		if m := e.r.latest("POST_BRIDGE", s.N, nil); m != nil {
			if ev, err := ref.Dec(m.Bytes); err == nil && ev.S("bridge_addr") != "" {
				pm["bridge_addr"] = ev.S("bridge_addr")
			}
		}
		sign("PostBridge", pm, e.sk, e.g)
		verdict = "good"
	case "post:unsigned":
		pm["signature"] = junkSig()
	case "post:emptysig":
		pm["signature"] = make([]byte, 128)
	case "post:badkey":
		sign("PostBridge", pm, rnd(ref.Q), e.g)
	case "post:badbase": // right key, wrong generator
		sign("PostBridge", pm, e.sk, ref.G)
	case "post:foreign": // under somebody else's pseudonym
		pm["nym"] = ref.Bytes(e.other(s.N))
		sign("PostBridge", pm, e.sk, e.g)
	case "post:alter": // signature over another address
		if s.N%2 == 1 {
			addr = fmt.Sprintf("%s.example.org:%d", addr, 400+s.M)
			pm["bridge_addr"] = addr
		}
		if s.N%5 == 3 { // more than any buffer or block
			addr += longName(1000<<uint(s.M%4), int(s.M))
			pm["bridge_addr"] = addr
		}
		sign("PostBridge", pm, e.sk, e.g)
		switch i := int(s.M*7) % len(addr); s.M % 4 {
		case 0:
			addr += "x"
		case 1:
			addr = addr[:len(addr)-1]
		case 2:
			addr = addr[:i] + "~" + addr[i+1:]
		case 3:
			addr = "x" + addr
		}
		pm["bridge_addr"] = addr
	case "post:swapnym": // own valid signature, another pseudonym put in afterwards
		sign("PostBridge", pm, e.sk, e.g)
		pm["nym"] = ref.Bytes(e.other(s.N))
	case "post:unreg":
		x := rnd(ref.Q)
		pm["nym"] = ref.Bytes(ref.Exp(e.g, x))
		sign("PostBridge", pm, x, e.g)
	case "post:longterm": // long-term key in place of the pseudonym
		pm["nym"] = ref.Bytes(e.pk)
		sign("PostBridge", pm, e.sk, ref.G)
	case "post:one":
		pm["nym"] = ref.Bytes(ref.One)
		sign("PostBridge", pm, new(Int), e.g)
	case "post:zero":
		pm["nym"] = make([]byte, ref.PLen)
		signZero("PostBridge", pm)
	case "post:stale":
		if e.oldg == nil {
			return
		}
		pm["nym"] = ref.Bytes(ref.Exp(e.oldg, e.sk))
		sign("PostBridge", pm, e.sk, e.oldg)
	case "post:stalemix": // old pseudonym, signed against the current generator
		if e.oldg == nil {
			return
		}
		pm["nym"] = ref.Bytes(ref.Exp(e.oldg, e.sk))
		sign("PostBridge", pm, e.sk, e.g)
	default:
		panic(s.S)
	}
	e.toCoord("POST_BRIDGE", pm, s.S, verdict)
}

func encNN(n *ref.Nonneg) []byte { return ref.GobEnc(n) }

// request builds (and sends) a bridge request with indicator N.
func (e *Evil) request(s Step) {
	pm, verdict := e.makeRequest(s)
	if pm == nil {
		return
	}
	ev := &ref.Event{EventType: Ev["REQUEST_BRIDGES"], Params: pm, SrcAddr: e.addr}
	if len(s.S) > 5 && s.S[:5] == "reqS:" { // straight to the servers
		e.toServers(s, pm, verdict)
		return
	}
	e.lastReq = ev
	e.r.send(coordPort, ref.Enc(ev), e.label(s.S, verdict))
}

func (e *Evil) toServers(s Step, pm map[string]interface{}, verdict string) {
	q := clonePm(pm)
	delete(q, "signature")
	var raw [][]byte
	n := int(s.M%3) + 1
	for i := 0; i < n; i++ {
		prov := e.other(s.N + int64(i))
		if s.M%2 == 1 {
			prov = e.nym
		}
		raw = append(raw, ref.EncAssignment(e.nym, fmt.Sprintf("fab%d-%d", s.N, i), prov))
	}
	q["assignments"] = ref.GobEnc(raw)
	ev := &ref.Event{EventType: Ev["SIGN_ASSIGNMENTS"], Params: q, SrcAddr: e.addr}
	b := ref.Enc(ev)
	for i := 1; i <= 9; i++ {
		if sp := e.r.Servers[i]; sp != nil && !sp.Dead {
			e.r.send(e.r.W.Net.PortOf(sp), b, e.label(s.S, verdict))
		}
	}
}

func (e *Evil) makeRequest(s Step) (map[string]interface{}, string) {
	kind := s.S[4:]
	if s.S[:5] == "reqS:" {
		kind = s.S[5:]
	}
	if !e.ready() || e.fo == nil || e.R == nil {
		return nil, ""
	}
	f := e.fo
	ind := s.N
	x := int64(e.rep)
	PCommr, R := e.vals[e.idx], e.R
	nym, sk, g := e.nym, e.sk, e.g
	verdict := "good"
	if ind > x {
		verdict = "bad"
	}
	if kind == "unreg" || kind == "stale" {
		verdict = "bad"
	}
	switch kind {
	case "unreg":
		sk = rnd(ref.Q)
		nym = ref.Exp(g, sk)
	case "stale":
		if e.oldg == nil {
			return nil, ""
		}
		nym, g = ref.Exp(e.oldg, e.sk), e.oldg
	case "fresh": // a pseudonym seen on the wire that has no committed reputation yet
		verdict = "bad"
		if nym = e.r.freshNym(e, s.M/9); nym == nil {
			return nil, ""
		}
	case "borrow": // own signature, somebody else's reputation commitment cannot be opened
		verdict = "bad"
		nym = e.other(s.M)
	}
	rind := rnd(ref.Q)
	PCommind := ref.Commit(e.GT, e.HT, ref.I(ind), rind)
	if kind == "recom" {
		// the claimed difference is right for a smaller indicator
		verdict = "bad"
		small := x - 1 - s.M%2
		if small == ind {
			small--
		}
		PCommind = ref.Commit(e.GT, e.HT, ref.I(small), rind)
		d := x - small
		return e.finish(s, f, ind, nym, sk, g, rind, PCommind, ref.Div(PCommr, PCommind), ref.I(d), ref.SubQ(R, rind), "", verdict)
	}
	PCommd := ref.Div(PCommr, PCommind)
	rd := ref.SubQ(R, rind)
	d := ref.I(x - ind)
	if kind == "diff" || kind == "fresh" {
		// a commitment to a non-negative value of our own
		verdict = "bad"
		d = ref.I(s.M%7 + 1)
		rd = rnd(ref.Q)
		PCommd = ref.Commit(e.GT, e.HT, d, rd)
	}
	return e.finish(s, f, ind, nym, sk, g, rind, PCommind, PCommd, d, rd, kind, verdict)
}

// freshNym is a key that went past in a registration (of this or any earlier
// round), on its way from the public key to the pseudonym.
func (r *Run) freshNym(e *Evil, n int64) *Int {
	in := map[string]bool{}
	for _, k := range e.keys {
		in[key(k)] = true
	}
	var l []*Int
	for _, m := range r.W.Msgs {
		if m.DoneSeq == 0 {
			continue
		}
		ev, err := ref.Dec(m.Bytes)
		if err != nil || !is(ev, "CLIENT_REGISTER_SERVERSIDE") && !is(ev, "CLIENT_REGISTER_CONTROLLERSIDE") {
			continue
		}
		if k := ev.Int("public_key"); k != nil && !in[key(k)] {
			in[key(k)] = true
			l = append(l, k)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[len(l)-1-int(uint64(n)%uint64(len(l)))]
}

func (e *Evil) finish(s Step, f *ref.FO, ind int64, nym, sk, g, rind, PCommind, PCommd, d, rd *Int, kind, verdict string) (map[string]interface{}, string) {
	var FOCommd, rfo *Int
	var nn *ref.Nonneg
	var eq *ref.Equal
	neg := d.Sign() < 0
	mk := func(v *Int) { rfo = f.Rnd(rnd); FOCommd = f.Commit(v, rfo) }
	switch {
	case kind == "junkeq": // the range proof is about another, non-negative number
		verdict = "bad"
		other := new(Int).Add(new(Int).Abs(d), ref.I(1+s.M%5))
		mk(other)
		nn = f.ProveNonneg(other, FOCommd, rfo, true, rnd)
		eq = f.ProveEqual(e.GT, e.HT, d, rd, rfo, rnd)
	case kind == "junkeq2": // equality argument proved for another FO commitment of the same number
		verdict = "bad"
		other := new(Int).Add(new(Int).Abs(d), ref.I(1+s.M%5))
		mk(other)
		nn = f.ProveNonneg(other, FOCommd, rfo, true, rnd)
		eq = f.ProveEqual(e.GT, e.HT, d, rd, f.Rnd(rnd), rnd)
	case kind == "wrap" && neg: // d mod q is a huge positive integer
		w := new(Int).Mod(d, ref.Q)
		mk(w)
		nn = f.ProveNonneg(w, FOCommd, rfo, true, rnd)
		eq = f.ProveEqual(e.GT, e.HT, w, rd, rfo, rnd)
	case (kind == "rx" || kind == "cr" || kind == "crx" || kind == "eq1" || kind == "eq2" || kind == "nodl") && neg:
		mk(d)
		nn = f.ForgeNonneg(kind, s.M%9, int(s.M/9), d, FOCommd, rfo, rnd)
		eq = f.ProveEqual(e.GT, e.HT, d, rd, rfo, rnd)
	case kind == "t1" || kind == "t2":
		verdict = "bad"
		other := new(Int).Add(new(Int).Abs(d), ref.I(1+s.M%5))
		if s.M/9%4 == 3 { // the number 0, which needs no response
			if other = new(Int); d.Sign() == 0 {
				d = ref.I(-1)
			}
		}
		mk(other)
		nn = f.ProveNonneg(other, FOCommd, rfo, true, rnd)
		eq = f.ForgeEqual(kind, int(s.M/9), e.GT, e.HT, d, rd, other, rfo, rnd)
	case kind == "trivial": // all-zero arguments
		verdict = "bad"
		mk(d)
		z := new(Int)
		FOCommd = new(Int)
		nn = &ref.Nonneg{Commitrx: z, C: z, Cr: z, R: z, X_: z, A_: z, B_: z, D_: z, R_: z}
		eq = &ref.Equal{C: z, S1: z, S2: z, S3: z}
	case kind == "zerofo": // FO commitment 0 satisfies 0 = 0 checks
		verdict = "bad"
		rfo = f.Rnd(rnd)
		FOCommd = new(Int)
		nn = f.ProveNonneg(ref.I(1), FOCommd, rfo, true, rnd)
		nn.Commitrx = new(Int)
		eq = f.ProveEqual(e.GT, e.HT, d, rd, rfo, rnd)
	default:
		mk(d)
		nn = f.ProveNonneg(d, FOCommd, rfo, true, rnd)
		eq = f.ProveEqual(e.GT, e.HT, d, rd, rfo, rnd)
	}
	if kind == "oldproof" { // arguments of an earlier request put into a new one
		if e.lastReq == nil {
			return nil, ""
		}
		verdict = "bad"
	}
	pm := map[string]interface{}{
		"ind": int(ind), "nym": ref.Bytes(nym), "FOCommd": FOCommd.Bytes(), "PCommd": ref.Bytes(PCommd),
		"PCommind": ref.Bytes(PCommind), "rind": ref.Bytes(rind), "arg_nonneg": encNN(nn), "arg_equal": ref.GobEnc(eq),
	}
	if kind == "oldproof" {
		pm["arg_nonneg"] = e.lastReq.B("arg_nonneg")
		pm["arg_equal"] = e.lastReq.B("arg_equal")
		pm["FOCommd"] = e.lastReq.B("FOCommd")
	}
	if kind == "nonnegof" { // range argument of another commitment
		verdict = "bad"
		o := f.Rnd(rnd)
		c := f.Commit(ref.I(3), o)
		pm["arg_nonneg"] = encNN(f.ProveNonneg(ref.I(3), c, o, true, rnd))
	}
	sign("RequestBridges", pm, sk, g)
	switch kind {
	case "unsigned":
		verdict = "bad"
		pm["signature"] = junkSig()
	case "badkey":
		verdict = "bad"
		sign("RequestBridges", pm, rnd(ref.Q), g)
	case "bump": // indicator raised after signing
		verdict = "bad"
		pm["ind"] = int(ind) + 1 + int(s.M%3)
	case "bumphi": // raised where a narrower integer does not show it
		verdict = "bad"
		pm["ind"] = int(ind + []int64{1 << 32, 1 << 32, 1 << 16, 1 << 8, -1 << 32, 1 << 40}[uint64(s.M)%6])
		if s.M%2 == 1 {
			sign("RequestBridges", pm, sk, g)
		}
	case "bumpsigned":
		verdict = "bad"
		pm["ind"] = int(ind) + 1 + int(s.M%3)
		sign("RequestBridges", pm, sk, g)
	}
	return pm, verdict
}

// stolen is the latest delivery to somebody else in the current round.
func (e *Evil) stolen(n int64) *gotMsg {
	var l []*gotMsg
	for _, m := range e.r.W.Msgs {
		if m.Src != e.r.Coord || m.SentSeq == 0 || m.DstAddr == e.addr {
			continue
		}
		ev, err := ref.Dec(m.Bytes)
		if err != nil || !is(ev, "GOT_SIGNS") {
			continue
		}
		if a, err := ref.DecAssignment(ev.B("assignment")); err == nil {
			l = append(l, &gotMsg{ev.B("assignment"), ev.B("signatures"), a})
		}
	}
	if len(l) == 0 {
		return nil
	}
	k := int(uint64(n) % uint64(len(l)))
	return l[len(l)-1-k]
}

func (e *Evil) vote(s Step) {
	if !e.ready() {
		return
	}
	var g *gotMsg
	if len(e.got) > 0 {
		g = &e.got[int(uint64(s.N)%uint64(len(e.got)))]
	}
	fb := 1
	if s.M%2 == 1 {
		fb = -1
	}
	verdict := "bad"
	nym, sk, base := e.nym, e.sk, e.g
	switch s.S {
	case "vote:good":
		verdict = "good"
	case "vote:over":
		fb = []int{2, -2, 7, 100, -50, 1 << 40, 0}[int(uint64(s.M)%7)]
	case "vote:third":
		g = e.stolen(s.N)
	case "vote:stale":
		g = nil
		if len(e.old) > 0 {
			g = &e.old[int(uint64(s.N)%uint64(len(e.old)))]
		}
	case "vote:staleold": // with the pseudonym of that round
		g = nil
		if len(e.old) > 0 && e.oldg != nil {
			g = &e.old[len(e.old)-1]
			nym, base = ref.Exp(e.oldg, e.sk), e.oldg
		}
	case "vote:unreg":
		sk = rnd(ref.Q)
		nym = ref.Exp(e.g, sk)
	case "vote:fabricate", "vote:fabzero", "vote:fabsigned", "vote:fabmix":
		a := ref.EncAssignment(e.nym, fmt.Sprintf("fab%d", s.N), e.nym)
		n := len(e.r.Servers) + 1
		var sg [][]byte
		for i := 0; i < n; i++ {
			if s.S == "vote:fabzero" {
				sg = append(sg, ref.SignZero(a, rnd(ref.Q)))
			} else {
				sg = append(sg, junkSig())
			}
		}
		if s.S == "vote:fabsigned" || s.S == "vote:fabmix" {
			// the servers' own signatures, the coordinator's missing
			if len(e.signed) == 0 {
				return
			}
			var raw []byte
			sg = nil
			for _, x := range e.signed {
				if raw == nil {
					raw = x.raw
				}
				if string(raw) == string(x.raw) {
					sg = append(sg, x.sigs)
				}
			}
			a = raw
			if s.S == "vote:fabmix" {
				sg = append(sg, sg[0])
			} else {
				sg = append(sg, ref.SignZero(a, rnd(ref.Q)))
			}
		}
		g = &gotMsg{raw: a, sigs: ref.GobEnc(sg)}
	case "vote:retarget": // another provider put into the assignment
		if g == nil {
			return
		}
		to := e.nym
		if g.a.Nym != nil && g.a.Nym.Cmp(to) == 0 {
			to = e.other(s.N)
		}
		g = &gotMsg{raw: ref.EncAssignment(g.a.NymR, g.a.Addr, to), sigs: g.sigs}
	case "vote:dropsig", "vote:swapsig", "vote:repsig":
		if g == nil {
			return
		}
		var sg [][]byte
		if ref.GobDec(g.sigs, &sg) != nil || len(sg) < 2 {
			return
		}
		k := int(uint64(s.N) % uint64(len(sg)))
		switch s.S {
		case "vote:dropsig":
			sg[k] = make([]byte, len(sg[k]))
		case "vote:swapsig":
			j := (k + 1) % len(sg)
			sg[k], sg[j] = sg[j], sg[k]
		case "vote:repsig":
			sg[k] = sg[(k+1)%len(sg)]
		}
		g = &gotMsg{raw: g.raw, sigs: ref.GobEnc(sg)}
	}
	if g == nil {
		return
	}
	pm := map[string]interface{}{"nym": ref.Bytes(nym), "assignment": g.raw, "signatures": g.sigs, "feedback": fb}
	sign("Vote", pm, sk, base)
	switch s.S {
	case "vote:unsigned":
		pm["signature"] = junkSig()
	case "vote:flip":
		pm["feedback"] = -fb
	case "vote:swapnym":
		pm["nym"] = ref.Bytes(e.other(s.N))
	}
	e.toCoord("VOTE", pm, s.S, verdict)
}

func (e *Evil) spoof(s Step) {
	switch s.S {
	case "spoof:coord", "spoof:coorddup", "spoof:coordempty", "spoof:coordpart":
		// a server's answer about the latest pending assignments
		var ev *ref.Event
		for i := len(e.r.W.Msgs) - 1; i >= 0 && ev == nil; i-- {
			m := e.r.W.Msgs[i]
			if m.Src == e.r.Coord && m.SentSeq > 0 {
				if x, err := ref.Dec(m.Bytes); err == nil && is(x, "SIGN_ASSIGNMENTS") {
					ev = x
				}
			}
		}
		if ev == nil {
			return
		}
		as, err := ref.DecAssignments(ev.B("assignments"))
		if err != nil {
			return
		}
		var srvs []int
		for i := 1; i <= 9; i++ {
			if e.r.Servers[i] != nil {
				srvs = append(srvs, i)
			}
		}
		k := srvs[int(uint64(s.N)%uint64(len(srvs)))]
		var sg [][]byte
		for range as {
			sg = append(sg, junkSig())
		}
		if s.S == "spoof:coordpart" && len(sg) > 0 {
			sg = sg[:len(sg)-1]
		}
		list := ev.B("assignments")
		if s.S == "spoof:coordempty" {
			list = ref.GobEnc([][]byte{})
		}
		if s.S == "spoof:coorddup" && len(as) > 0 {
			var raw [][]byte
			sg = nil
			for i := 0; i < 4; i++ {
				raw = append(raw, as[0].Raw)
				sg = append(sg, junkSig())
			}
			list = ref.GobEnc(raw)
		}
		src := fmt.Sprintf("0.0.0.0:%d", e.r.port(fmt.Sprintf("S%d", k)))
		x := &ref.Event{EventType: Ev["GOT_SIGNS"], SrcAddr: src, Params: map[string]interface{}{"success": true, "assignments": list, "signatures": ref.GobEnc(sg)}}
		e.r.send(coordPort, ref.Enc(x), e.label(s.S, "bad"))
	case "spoof:unknown": // an answer for a bridge never assigned
		raw := [][]byte{ref.EncAssignment(e.pk, "nobridge", e.pk)}
		src := fmt.Sprintf("0.0.0.0:%d", e.r.port("S1"))
		x := &ref.Event{EventType: Ev["GOT_SIGNS"], SrcAddr: src, Params: map[string]interface{}{"success": true, "assignments": ref.GobEnc(raw), "signatures": ref.GobEnc([][]byte{junkSig()})}}
		e.r.send(coordPort, ref.Enc(x), e.label(s.S, "bad"))
	case "spoof:client", "spoof:clientzero":
		// a delivery forged without the coordinator's key
		p := e.r.Clients[int(s.N)]
		if p == nil || p.Dead {
			return
		}
		nym := e.pk
		raw := ref.EncAssignment(nym, fmt.Sprintf("forged%d", s.M), nym)
		sg := ref.GobEnc([][]byte{junkSig(), junkSig()})
		pm := map[string]interface{}{"assignment": raw, "signatures": sg}
		if s.S == "spoof:clientzero" {
			signZero("GotSignatures", pm)
		} else {
			pm["signature"] = junkSig()
		}
		x := &ref.Event{EventType: Ev["GOT_SIGNS"], SrcAddr: addrOf(coordPort), Params: pm}
		e.r.send(e.r.W.Net.PortOf(p), ref.Enc(x), e.label(s.S, "bad"))
	}
}

// challenge sends an honesty challenge; N seeds the bits.
func (e *Evil) challenge(s Step) {
	n := 480
	bits := make([]bool, n)
	for i := range bits {
		switch s.S {
		case "chal:zero":
		case "chal:one":
			bits[i] = true
		default:
			bits[i] = rt.Mix(uint64(s.N)*1000+uint64(i))&1 == 1
		}
	}
	if s.S == "chal:flip" {
		for i := range bits {
			bits[i] = rt.Mix(uint64(s.N)*1000+uint64(i))&1 == 0
		}
	}
	if s.S == "chal:short" {
		bits = bits[:int(uint64(s.M)%480)]
	}
	if s.S == "chal:long" {
		bits = append(bits, bits[:int(uint64(s.M)%480)+1]...)
	}
	src := e.addr
	if s.S == "chal:asother" { // pretend to be another client
		if p := e.r.Clients[int(s.M)]; p != nil {
			src = addrOf(e.r.W.Net.PortOf(p))
		}
	}
	ev := &ref.Event{EventType: Ev["GN_HONESTY_CHALLENGE"], SrcAddr: src, Params: map[string]interface{}{"honesty_chal": ref.EncBools(bits)}}
	e.r.send(coordPort, ref.Enc(ev), e.label(s.S, "bad"))
}
