package sim

import (
	"fmt"
	"math/big"
	mrand "math/rand"
	"net"
	"sort"
	"strings"

	"verifsim/ref"
	"verifsim/rt"
	simproof "verifsim/shim/proof"
)

func roleMatch(p *rt.Proc, name, want string) bool {
	if want == "" || want == name {
		return true
	}
	return p != nil && p.Role == want
}

// intercept applies the plan's tampering to a message about to be delivered.
func (r *Run) intercept(m *rt.Msg) {
	if n := r.vanishAt[m.SrcName]; n > 0 && m.Inject == "" {
		if r.vanishAt[m.SrcName] = n - 1; n == 1 {
			r.res.Probe["fault.vanish.sending"]++
			m.Fate = "silent"
			p := m.Src
			r.cut[p.Name] = "timeout"
			r.W.At(r.W.Now, func() { r.W.Vanish(p) })
			return
		}
	}
	if m.Inject == "" && len(m.Bytes) > 0 {
		r.fireArmed(m)
	}
	if len(r.C.Plan.Tampers) == 0 || m.Inject != "" {
		return
	}
	var ev *ref.Event
	orig := append([]byte(nil), m.Bytes...)
	restore := int64(0)
	defer func() {
		if restore == 0 || m.Altered == "" {
			return
		}
		dst := m.Dst
		r.W.Spawn(r.D, restore*rt.Millisecond, func() { r.send(r.W.Net.PortOf(dst), orig, "restore:"+m.SrcName) })
	}()
	for i := range r.C.Plan.Tampers {
		t := &r.C.Plan.Tampers[i]
		if t.Mut == "torn" || !roleMatch(m.Src, m.SrcName, t.Src) || !roleMatch(m.Dst, m.DstName, t.Dst) {
			continue
		}
		if ev == nil {
			e, err := ref.Dec(m.Bytes)
			if err != nil {
				return
			}
			ev = e
		}
		if t.Type != "" && !is(ev, t.Type) {
			continue
		}
		r.tcount[i]++
		if t.Nth != 0 && r.tcount[i] != t.Nth {
			continue
		}
		if r.mutate(m, ev, t) {
			r.res.Probe["fault."+t.Mut]++
			if m.Altered != "" {
				m.Altered += "+"
			}
			m.Altered += fmt.Sprintf("%s.%s", t.Mut, t.Field)
			if t.Restore {
				restore = 60 + t.Arg%400
			}
			if e, err := ref.Dec(m.Bytes); err == nil {
				ev = e
			}
			r.logf("tamper %s %s>%s %s.%s", t.Type, m.SrcName, m.DstName, t.Mut, t.Field)
		}
	}
}

// tear breaks a connection in the middle of a write, as the plan says.
func (r *Run) tear(m *rt.Msg, b []byte) int {
	var ev *ref.Event
	for i := range r.C.Plan.Tampers {
		t := &r.C.Plan.Tampers[i]
		if t.Mut != "torn" || m.Inject != "" || !roleMatch(m.Src, m.SrcName, t.Src) || !roleMatch(m.Dst, m.DstName, t.Dst) {
			continue
		}
		if ev == nil {
			if ev, _ = ref.Dec(m.Bytes); ev == nil {
				return -1
			}
		}
		if t.Type != "" && !is(ev, t.Type) {
			continue
		}
		r.tcount[i]++
		if t.Nth != 0 && r.tcount[i] != t.Nth {
			continue
		}
		r.res.Probe["fault.torn"]++
		r.logf("torn write %s %s>%s", t.Type, m.SrcName, m.DstName)
		return int(uint64(t.Arg) % uint64(len(b)))
	}
	return -1
}

var signedFields = map[string][]string{
	"POST_BRIDGE":     {"bridge_addr", "nym"},
	"REQUEST_BRIDGES": {"nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"},
	"GOT_SIGNS":       {"assignment", "signatures"},
	"VOTE":            {"nym", "assignment", "signatures"},
}

// shift moves bytes over the boundary between two fields of a message, which
// a signature over their concatenation does not notice.
func shift(e *ref.Event, t *Tamper) bool {
	fs := signedFields[t.Type]
	if len(fs) < 2 {
		return false
	}
	i := int(t.Arg % int64(len(fs)-1))
	get := func(f string) []byte {
		if s := e.S(f); s != "" {
			return []byte(s)
		}
		return e.B(f)
	}
	set := func(f string, b []byte) {
		if _, ok := e.Params[f].(string); ok {
			e.Params[f] = string(b)
		} else {
			e.Params[f] = b
		}
	}
	a, b := get(fs[i]), get(fs[i+1])
	k := int(t.Arg>>8) % 9
	if t.Nth == 0 { // where it does not change what the second field says
		for k = 0; k < len(b) && b[k] == 0; {
			k++
		}
		if k == 0 {
			return false
		}
	} else if k < 4 {
		k++
		if len(a) < k {
			return false
		}
		set(fs[i], append([]byte{}, a[:len(a)-k]...))
		set(fs[i+1], append(append([]byte{}, a[len(a)-k:]...), b...))
		return true
	} else {
		k -= 3
	}
	if len(b) < k {
		return false
	}
	set(fs[i], append(append([]byte{}, a...), b[:k]...))
	set(fs[i+1], append([]byte{}, b[k:]...))
	return true
}

// listElems is how many group elements a field holds.
func mutList(l []*Int, mut string, arg int64) ([]*Int, bool) {
	if len(l) == 0 {
		return l, false
	}
	i := int(uint64(arg) % uint64(len(l)))
	switch mut {
	case "listmul":
		l[i] = ref.Mul(l[i], ref.G)
		return l, true
	case "listswap":
		for k := 1; k < len(l); k++ {
			j := (i + k) % len(l)
			if l[i].Cmp(l[j]) != 0 {
				l[i], l[j] = l[j], l[i]
				return l, true
			}
		}
	case "listdel":
		return append(l[:i], l[i+1:]...), true
	case "listdup":
		return append(l, new(Int).Set(l[i])), true
	case "listrep":
		for k := 1; k < len(l); k++ {
			j := (i + k) % len(l)
			if l[i].Cmp(l[j]) != 0 {
				l[i] = new(Int).Set(l[j])
				return l, true
			}
		}
	}
	return l, false
}

// mutate changes m (or its fate) as t says; false when nothing changed.
func (r *Run) mutate(m *rt.Msg, ev *ref.Event, t *Tamper) bool {
	switch t.Mut {
	case "drop":
		m.Fate = "dropped"
		return true
	case "stall":
		m.Fate = "stalled"
		r.res.Probe["fault.stall"]++
		return false
	case "reset":
		m.Bytes = m.Bytes[:int(uint64(t.Arg)%uint64(len(m.Bytes)))]
		m.Fate = "reset"
		return true
	case "cutmsg":
		m.Bytes = m.Bytes[:int(uint64(t.Arg)%uint64(len(m.Bytes)))]
		return true
	case "dup":
		b := append([]byte(nil), m.Bytes...)
		dst := m.Dst
		lab := fmt.Sprintf("dup:%s:replay", t.Type)
		n := int64(1 + t.Arg%3)
		r.W.Spawn(r.D, (t.Arg%700)*rt.Millisecond, func() {
			for ; n > 0; n-- {
				r.send(r.W.Net.PortOf(dst), b, lab)
			}
		})
		r.res.Probe["fault.dup"]++
		return false
	}
	e := ev.Clone()
	if t.Mut == "src" {
		e.SrcAddr = fmt.Sprintf("127.0.0.1:%d", 1+t.Arg%60000)
		m.Orig = m.Bytes
		m.Bytes = ref.Enc(e)
		return true
	}
	if t.Mut == "shift" {
		if !shift(e, t) {
			return false
		}
		m.Orig = m.Bytes
		m.Bytes = ref.Enc(e)
		return true
	}
	if t.Mut == "forge" {
		return r.forgeShuffle(m, e, t)
	}
	v, ok := e.Params[t.Field]
	if t.Mut == "add" {
		if ok {
			return false
		}
		e.Params[t.Field] = true
		m.Bytes = ref.Enc(e)
		return true
	}
	if !ok {
		return false
	}
	arg := uint64(t.Arg)
	switch x := v.(type) {
	case []byte:
		switch t.Mut {
		case "flip":
			if len(x) == 0 {
				return false
			}
			x[arg%uint64(len(x))] ^= 1 << ((arg >> 20) % 8)
		case "zero":
			for i := range x {
				x[i] = 0
			}
		case "trunc":
			x = x[:len(x)/2]
		case "empty":
			x = []byte{}
		case "bump":
			x = new(Int).Add(new(Int).SetBytes(x), ref.One).Bytes()
		case "mul": // another group element
			x = ref.Bytes(ref.Mul(new(Int).SetBytes(x), ref.G))
		case "one":
			x = []byte{1}
		case "listmul", "listswap", "listdel", "listdup", "listrep":
			l, err := ref.List(x)
			if err != nil {
				return false
			}
			l, ok := mutList(l, t.Mut, t.Arg)
			if !ok {
				return false
			}
			x = ref.EncList(l)
		case "int": // one number of a gob-encoded argument
			y, ok := bumpGob(x, arg)
			if !ok {
				return false
			}
			x = y
		case "boolflip":
			l, err := ref.Bools(x)
			if err != nil || len(l) == 0 {
				return false
			}
			k := arg % uint64(len(l))
			l[k] = !l[k]
			x = ref.EncBools(l)
		case "sigswap": // two entries of a list of byte strings
			var l [][]byte
			if ref.GobDec(x, &l) != nil || len(l) < 2 {
				return false
			}
			i := int(arg % uint64(len(l)))
			j := (i + 1) % len(l)
			if string(l[i]) == string(l[j]) {
				return false
			}
			l[i], l[j] = l[j], l[i]
			x = ref.GobEnc(l)
		case "sigdel":
			var l [][]byte
			if ref.GobDec(x, &l) != nil || len(l) < 1 {
				return false
			}
			x = ref.GobEnc(l[:len(l)-1])
		case "gobdel":
			var l []*big.Int
			if ref.GobDec(x, &l) != nil || len(l) == 0 {
				return false
			}
			x = ref.GobEnc(l[:len(l)-1])
		case "del":
			delete(e.Params, t.Field)
			x = nil
		case "type":
			e.Params[t.Field] = 7
			x = nil
		default:
			return false
		}
		if x != nil {
			e.Params[t.Field] = x
		}
	case int:
		switch t.Mut {
		case "inc":
			x++
		case "dec":
			x--
		case "neg":
			x = -x
		case "set":
			x = int(t.Arg)
		case "del":
			delete(e.Params, t.Field)
		case "type":
			e.Params[t.Field] = "x"
		default:
			return false
		}
		if t.Mut != "del" && t.Mut != "type" {
			e.Params[t.Field] = x
		}
	case string:
		switch t.Mut {
		case "flip":
			b := []byte(x)
			if len(b) == 0 {
				return false
			}
			b[arg%uint64(len(b))] ^= 1
			e.Params[t.Field] = string(b)
		case "trunc":
			if len(x) < 2 {
				return false
			}
			e.Params[t.Field] = x[:len(x)-1-int(arg%uint64(len(x)-1))]
		case "bump":
			e.Params[t.Field] = x + "0"
		case "empty":
			e.Params[t.Field] = ""
		case "del":
			delete(e.Params, t.Field)
		case "type":
			e.Params[t.Field] = []byte{1}
		default:
			return false
		}
	case bool:
		switch t.Mut {
		case "not":
			e.Params[t.Field] = !x
		case "del":
			delete(e.Params, t.Field)
		case "type":
			e.Params[t.Field] = 3
		default:
			return false
		}
	default:
		return false
	}
	if fields(e) == fields(ev) {
		return false
	}
	m.Bytes = ref.Enc(e)
	return true
}

// forgeShuffle replaces a table's shuffle by one that is no permutation and
// proves it as far as the adversary can.
func (r *Run) forgeShuffle(m *rt.Msg, e *ref.Event, t *Tamper) bool {
	X, err1 := ref.List(e.B("prev_keys"))
	Y, err2 := ref.List(e.B("prev_vals"))
	h := e.Int("public_key")
	if err1 != nil || err2 != nil || len(X) != len(Y) || len(X) < 2 || !ref.Valid(h) {
		return false
	}
	for _, x := range append(append([]*Int{}, X...), Y...) {
		if !ref.Valid(x) {
			return false
		}
	}
	rnd := mrand.New(mrand.NewSource(t.Arg))
	f := ref.NewShuffleForgery(t.Field, h, X, Y, func(n *Int) *Int { return new(Int).Rand(rnd, n) })
	mark := fmt.Sprintf("forgery %d", len(r.forged))
	r.forged[mark] = f
	e.Params["xbar"], e.Params["ybar"] = ref.EncList(f.Xbar), ref.EncList(f.Ybar)
	e.Params["proof"] = []byte(mark)
	m.Orig = m.Bytes
	m.Bytes = ref.Enc(e)
	dst := m.Dst
	simproof.Forge = func(name string, marker []byte) []byte {
		f := r.forged[string(marker)]
		if f == nil || f.Done {
			return nil
		}
		p := f.Prove(name)
		r.res.Probe["forged."+f.Mode]++
		if f.Mode != "weakfs" {
			return p
		}
		// the list is known only now: send it with the proof, this message is refused
		e := e.Clone()
		e.Params["ybar"], e.Params["proof"] = ref.EncList(f.Ybar), p
		b := ref.Enc(e)
		r.W.Spawn(r.D, 20*rt.Millisecond, func() { r.send(r.W.Net.PortOf(dst), b, "forge:"+f.Mode) })
		return nil
	}
	return true
}

// bumpGob adds one to the arg-th number of a gob-encoded argument.
func bumpGob(x []byte, arg uint64) ([]byte, bool) {
	var nn ref.Nonneg
	if ref.GobDec(x, &nn) == nil && nn.Commitrx != nil && nn.R_ != nil {
		p := []*Int{nn.Commitrx, nn.C, nn.Cr, nn.R, nn.X_, nn.A_, nn.B_, nn.D_, nn.R_}
		for _, q := range p {
			if q == nil {
				return nil, false
			}
		}
		k := arg % 9
		p[k].Add(p[k], ref.I(1+int64(arg>>8)%5))
		return ref.GobEnc(&nn), true
	}
	var eq ref.Equal
	if ref.GobDec(x, &eq) == nil && eq.C != nil && eq.S1 != nil && eq.S2 != nil && eq.S3 != nil {
		p := []*Int{eq.C, eq.S1, eq.S2, eq.S3}
		k := arg % 4
		p[k].Add(p[k], ref.I(1+int64(arg>>8)%5))
		return ref.GobEnc(&eq), true
	}
	var l []*big.Int
	if ref.GobDec(x, &l) == nil && len(l) > 0 {
		k := arg % uint64(len(l))
		if b := uint64(len(l) / 6); arg>>16%3 == 0 && b > 0 { // an end of one of the parts
			k = k / b * b
			if arg>>20%2 == 0 {
				k += b - 1
			}
			k %= uint64(len(l))
		}
		if l[k] == nil {
			return nil, false
		}
		l[k].Add(l[k], ref.One)
		return ref.GobEnc(l), true
	}
	return nil, false
}

// latest is the n-th latest message of a type sent on the network.
func (r *Run) latest(typ string, n int64, ok func(*rt.Msg) bool) *rt.Msg {
	k := n
	for i := len(r.W.Msgs) - 1; i >= 0; i-- {
		m := r.W.Msgs[i]
		if m.SentSeq == 0 || (ok != nil && !ok(m)) {
			continue
		}
		e, err := ref.Dec(m.Bytes)
		if err != nil || !is(e, typ) {
			continue
		}
		if k == 0 {
			return m
		}
		k--
	}
	return nil
}

// replayMsg re-sends a recorded message: S type, I how many back, N mode
// (0 as it was, 1 with another return address), M evil number.
func (r *Run) replayMsg(s Step) {
	lost := func(m *rt.Msg) bool { return s.S == "GOT_SIGNS" && m.Fate == "dropped" }
	m := r.latest(s.S, int64(s.I), func(m *rt.Msg) bool {
		return m.Inject == "" && m.Dst == r.Coord && (m.Altered == "" && m.DoneSeq > 0 || lost(m))
	})
	if m == nil {
		return
	}
	if lost(m) {
		r.res.Probe["replay.lost"]++
	}
	b := m.Bytes
	lab := "replay:" + s.S
	if s.N == 1 {
		ev, _ := ref.Dec(b)
		ev.SrcAddr = "127.0.0.1:9"
		if e := r.Evils[int(s.M)]; e != nil {
			ev.SrcAddr = e.addr
		}
		b = ref.Enc(ev)
		lab = "redirect:" + s.S
	}
	r.send(coordPort, b, lab+":replay")
}

// confMsg sends client I another registration confirmation or challenge answer
// than the coordinator's: S mode, N which (field, other client), M what part.
func (r *Run) confMsg(s Step) {
	p := r.Clients[s.I]
	if p == nil || p.Dead {
		return
	}
	typ := "CLIENT_REGISTER_CONFIRMATION"
	if strings.HasPrefix(s.S, "ans") {
		typ = "GN_HONESTY_ANSWER"
	}
	own := func(m *rt.Msg) bool { return m.Inject == "" && m.Src == r.Coord && m.Dst == p }
	if strings.HasSuffix(s.S, "other") {
		own = func(m *rt.Msg) bool {
			return m.Inject == "" && m.Src == r.Coord && m.Dst != nil && m.Dst != p && m.Dst.Role == "client"
		}
	}
	m := r.latest(typ, s.N*int64(len(s.S)%2), own)
	if m == nil {
		m = r.latest(typ, 0, own)
	}
	if m == nil {
		return
	}
	ev, err := ref.Dec(m.Bytes)
	if err != nil {
		return
	}
	f := "honesty_prf"
	if typ == "GN_HONESTY_ANSWER" {
		f = "honesty_ans"
	} else if s.N%3 != 0 {
		f = []string{"g1", "g2", "g3", "g4", "g5", "g6", "h1"}[s.N%7]
	}
	switch {
	case !strings.HasSuffix(s.S, "alter"):
	case f == "honesty_prf" || f == "honesty_ans":
		l := bigList(ev.B(f))
		if len(l) == 0 {
			return
		}
		i := int(s.M) % len(l)
		switch s.N % 4 {
		case 0:
			l[i] = new(Int).Add(l[i], big.NewInt(1))
		case 1:
			if l = l[:i]; i%6 == 0 {
				l = append(l, big.NewInt(4))
			}
		case 2:
			l[i], l[0] = l[0], l[i]
		case 3:
			l[i] = big.NewInt(1)
		}
		ev.Params[f] = ref.GobEnc(l)
	default:
		x := ev.Int(f)
		if s.M%2 == 0 {
			x = new(Int).Exp(x, big.NewInt(2+s.M%5), ev.Int("n"))
		} else {
			x = new(Int).Add(x, big.NewInt(1))
		}
		ev.Params[f] = x.Bytes()
	}
	r.send(r.W.Net.PortOf(p), ref.Enc(ev), "dup:"+s.S)
}

// raw sends malformed traffic: S destination, I kind, N seed.
func (r *Run) raw(s Step) {
	if strings.Contains(s.S, "/") { // alongside an honest message of that type
		r.armed = append(r.armed, s)
		return
	}
	r.rawOn(s, nil)
}

// fireArmed sends the malformed messages that wait for one like m.
func (r *Run) fireArmed(m *rt.Msg) {
	if len(r.armed) == 0 {
		return
	}
	e, err := ref.Dec(m.Bytes)
	if err != nil {
		return
	}
	var left []Step
	for _, s := range r.armed {
		dst, typ, _ := strings.Cut(s.S, "/")
		if !is(e, typ) {
			left = append(left, s)
			continue
		}
		if s.M--; s.M > 0 {
			left = append(left, s)
			continue
		}
		s.S = dst
		b := append([]byte(nil), m.Bytes...)
		r.res.Probe["inject.raw.alongside"]++
		r.W.Spawn(r.D, 0, func() { r.rawOn(s, b) })
	}
	r.armed = left
}

func (r *Run) rawOn(s Step, base []byte) {
	port := r.port(s.S)
	if port == 0 {
		return
	}
	g := &rng{s: uint64(s.N)*7919 + 13}
	role := "server"
	if s.S == "C" {
		role = "coordinator"
	}
	// a recorded message of the kind this destination handles
	var pool []*rt.Msg
	for _, m := range r.W.Msgs {
		if m.Dst != nil && m.Dst.Role == role && m.Inject == "" && m.Altered == "" && m.SentSeq > 0 && len(m.Bytes) > 0 {
			pool = append(pool, m)
		}
	}
	if base == nil && len(pool) > 0 {
		// prefer variety of types
		byType := map[int][]*rt.Msg{}
		var types []int
		for _, m := range pool {
			if e, err := ref.Dec(m.Bytes); err == nil {
				if byType[e.EventType] == nil {
					types = append(types, e.EventType)
				}
				byType[e.EventType] = append(byType[e.EventType], m)
			}
		}
		if len(types) > 0 {
			l := byType[types[g.n(len(types))]]
			base = l[g.n(len(l))].Bytes
		}
	}
	lab := fmt.Sprintf("raw:%d:bad", s.I)
	kind := s.I
	if base == nil && kind >= 2 && kind != 9 && kind != 11 {
		kind = 1
	}
	switch kind {
	case 0:
		r.send(port, nil, lab)
	case 1:
		b := make([]byte, 1+g.n(400))
		for i := range b {
			b[i] = byte(g.u())
		}
		if _, err := ref.Dec(b); err == nil {
			return
		}
		r.send(port, b, lab)
	case 2: // truncated
		b := base[:1+g.n(len(base)-1)]
		if _, err := ref.Dec(b); err == nil {
			return
		}
		r.send(port, b, lab)
	case 3: // corrupted so that it cannot be decoded
		b := append([]byte(nil), base...)
		for t := 0; t < 50; t++ {
			b[g.n(len(b)/2+1)] ^= byte(1 + g.n(255))
			if _, err := ref.Dec(b); err != nil {
				r.send(port, b, lab)
				return
			}
		}
	case 4: // unknown type
		ev, _ := ref.Dec(base)
		ev.EventType = []int{-1, 99, 1 << 30, -77, 9999}[g.n(5)]
		if !strings.HasPrefix(evName(ev.EventType), "type") {
			return
		}
		r.send(port, ref.Enc(ev), lab)
	case 5: // no parameters
		ev, _ := ref.Dec(base)
		ev.Params = nil
		if len(Ev) > 0 && role == "coordinator" && is(ev, "VOTE_REPLY") {
			return
		}
		r.send(port, ref.Enc(ev), lab)
	case 6: // a parameter missing
		ev, _ := ref.Dec(base)
		if k := essential(ev, role, g); k != "" {
			delete(ev.Params, k)
			r.send(port, ref.Enc(ev), lab)
		}
	case 7: // a parameter of another type
		ev, _ := ref.Dec(base)
		if k := essential(ev, role, g); k != "" {
			switch ev.Params[k].(type) {
			case []byte:
				ev.Params[k] = 42
			default:
				ev.Params[k] = []byte("xyz")
			}
			r.send(port, ref.Enc(ev), lab)
		}
	case 8: // breaks in the middle
		e, err := rt.Dial(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}, 0, &rt.DialInfo{Inject: lab})
		if err != nil {
			return
		}
		r.res.Probe["inject.raw"]++
		e.Write(base[:g.n(len(base))])
		sleep(int64(g.n(50)))
		e.Abort()
	case 9: // no usable return address
		ev := &ref.Event{EventType: Ev["SERVER_REGISTER"], Params: map[string]interface{}{}, SrcAddr: []string{"nonsense", "1.2.3.4:99999", ":::"}[g.n(3)]}
		if base != nil {
			b, _ := ref.Dec(base)
			ev.EventType, ev.Params = b.EventType, b.Params
		}
		r.send(port, ref.Enc(ev), lab)
	case 10: // a binary parameter filled with garbage
		ev, _ := ref.Dec(base)
		var ks []string
		for _, k := range sortedKeys(ev.Params) {
			if decodable(ev, role, k) {
				ks = append(ks, k)
			}
		}
		if len(ks) == 0 {
			return
		}
		k := ks[g.n(len(ks))]
		g := make([]byte, 64)
		for i := range g {
			g[i] = 0xff
		}
		ev.Params[k] = g
		r.send(port, ref.Enc(ev), lab)
	case 11: // huge length prefix
		r.send(port, []byte{0xf8, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3}, lab)
	case 12: // long silence in the middle, then the connection breaks
		e, err := rt.Dial(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}, 0, &rt.DialInfo{Inject: lab})
		if err != nil {
			return
		}
		r.res.Probe["inject.raw"]++
		e.Write(base[:len(base)/2])
		sleep(4000)
		e.Abort()
	case 16: // the sender's host is gone in the middle
		e, err := rt.Dial(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}, 0, &rt.DialInfo{Inject: lab})
		if err != nil {
			return
		}
		r.res.Probe["inject.raw"]++
		r.res.Probe["fault.halfopen"]++
		e.Write(base[:g.n(len(base))])
		e.Silence()
	case 13: // several messages in a row on many connections
		for i := 0; i < 5; i++ {
			b := base[:g.n(len(base)-1)]
			if _, err := ref.Dec(b); err != nil {
				r.send(port, b, lab)
			}
		}
	case 15: // lists of unequal length
		ev, _ := ref.Dec(base)
		if !ev.Has("keys") || !ev.Has("vals") {
			return
		}
		l, err := ref.List(ev.B("vals"))
		if err != nil || len(l) == 0 {
			return
		}
		ev.Params["vals"] = ref.EncList(l[:g.n(len(l))])
		r.send(port, ref.Enc(ev), lab)
	case 14: // a message this role does not handle
		ev, _ := ref.Dec(base)
		var l []string
		for _, k := range sortedEv() {
			if !roleHandles[role][k] {
				l = append(l, k)
			}
		}
		if len(l) == 0 {
			return
		}
		ev.EventType = Ev[l[g.n(len(l))]]
		r.send(port, ref.Enc(ev), lab)
	}
}

var roleHandles = map[string]map[string]bool{
	"coordinator": {"SERVER_REGISTER": true, "UPDATE_PEDERSEN_H": true, "CLIENT_REGISTER_CONTROLLERSIDE": true, "CLIENT_REGISTER_SERVERSIDE": true, "GN_HONESTY_CHALLENGE": true, "POST_BRIDGE": true, "REQUEST_BRIDGES": true, "GOT_SIGNS": true, "VOTE": true, "ROUND_END": true, "ANNOUNCEMENT": true},
	"server":      {"SERVER_REGISTER_REPLY": true, "ANNOUNCEMENT": true, "ANNOUNCEMENT_FINALIZE": true, "SIGN_ASSIGNMENTS": true, "UPDATE_NEXT_HOP": true, "CLIENT_REGISTER_SERVERSIDE": true, "ROUND_END": true, "BCAST_PEDERSEN_H": true},
}

func sortedEv() []string {
	var l []string
	for k := range Ev {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func sortedKeys(m map[string]interface{}) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// essential picks a parameter without which a message is incomplete.
func essential(ev *ref.Event, role string, g *rng) string {
	var ks []string
	for _, k := range sortedKeys(ev.Params) {
		if unused(ev, role, k) {
			continue
		}
		switch k {
		case "shuffled", "is_start", "g", "prev_server", "reply", "signature", "success":
			// optional by design or with a meaning of their own
			if k == "signature" && ev.Params[k] != nil || k == "success" || k == "reply" && ev.Has("prev_server") {
				break
			}
			continue
		}
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return ""
	}
	return ks[g.n(len(ks))]
}

// unused says whether the receiver has no use for a parameter: the coordinator
// takes the last hop's table without looking at its shuffle proof.
func unused(ev *ref.Event, role, k string) bool {
	if role != "coordinator" || !is(ev, "ANNOUNCEMENT") && !is(ev, "ROUND_END") {
		return false
	}
	switch k {
	case "xbar", "ybar", "prev_keys", "prev_vals", "public_key", "proof":
		return true
	}
	return false
}

// decodable says whether garbage in k makes the message undecodable, as
// opposed to merely a different message.
func decodable(ev *ref.Event, role, k string) bool {
	if unused(ev, role, k) {
		return false
	}
	if _, ok := ev.Params[k].([]byte); !ok {
		return false
	}
	switch k {
	case "keys", "vals", "GT", "HT", "g", "nym", "PCommd", "PCommind", "xbar", "ybar", "prev_keys", "prev_vals", "public_key", "pcomm", "h", "assignments", "signatures", "assignment", "signature", "arg_nonneg", "arg_equal", "proof":
		return true
	}
	return false
}

var _ = strings.TrimSpace
