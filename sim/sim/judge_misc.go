package sim

import (
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verifsim/ref"
	"verifsim/rt"
)

// ---- C11: rounds ----

func (h *Hist) phaseOracle() {
	if h.plan.relaxed("rounds") || h.r.Coord.Dead {
		return
	}
	for _, rd := range h.rounds {
		if !rd.tableOK || rd.open == never {
			continue
		}
		// order of the phases, from the coordinator's side
		for _, m := range rd.vote {
			if m.DialSeq < rd.enter1 {
				h.fail("C11", "early", "round %d: voting was opened before the operator ended posting", rd.k)
			}
		}
		for _, m := range rd.rdiff {
			if m.DialSeq < rd.enter2 {
				h.fail("C11", "early", "round %d: the round was ended before the operator ended voting", rd.k)
			}
		}
		if rd.start != nil && rd.start.DialSeq < rd.enter2 {
			h.fail("C11", "early", "round %d: the round was ended before the operator ended voting", rd.k)
		}
		for _, p := range h.parties {
			if p.kind != "client" || p.affected != "" || p.first < 0 || p.first > rd.k || p.proc.Dead {
				continue
			}
			h.check("phases")
			one := func(name string, l []*rt.Msg, due bool) *rt.Msg {
				var got []*rt.Msg
				for _, m := range l {
					if m.Dst == p.proc {
						got = append(got, m)
					}
				}
				if !due {
					return nil
				}
				if len(got) != 1 {
					h.fail("C11", "phase."+name, "round %d: %s was sent %s %d times", rd.k, p.name, name, len(got))
					return nil
				}
				if !handled(got[0]) {
					h.fail("C11", "undelivered."+name, "round %d: %s never took %s", rd.k, p.name, name)
					return nil
				}
				return got[0]
			}
			f := one("ANNOUNCEMENT_FINALIZE", rd.fin, true)
			v := one("VOTE", rd.vote, rd.enter1 != never)
			d := one("BCAST_PEDERSEN_RDIFF", rd.rdiff, rd.enter2 != never)
			e := one("ROUND_END", rd.ends, rd.enter2 != never)
			after := func(a, b *rt.Msg, what string) {
				if a != nil && b != nil && a.AccSeq > b.AccSeq {
					h.fail("C11", "order", "round %d: %s got %s", rd.k, p.name, what)
				}
			}
			after(f, v, "the voting phase before the announcement")
			after(v, d, "the opening changes before the voting phase")
			after(v, e, "the round end before the voting phase")
		}
	}
}

// ---- C14: joining ----

func (h *Hist) joinOracle() {
	if h.plan.relaxed("rounds") || h.r.Coord.Dead || len(h.rounds) == 0 {
		return
	}
	last := h.rounds[len(h.rounds)-1]
	rested := last.open != never && len(h.r.stall) == 0
	for _, p := range h.parties {
		if p.kind != "client" || p.affected != "" || len(p.reg) == 0 {
			continue
		}
		h.check("joins")
		if len(p.initR) > 1 || len(p.conf) > 1 {
			h.fail("C14", "twice", "%s was registered more than once (%d openings, %d confirmations)", p.name, len(p.initR), len(p.conf))
		}
		if rested && p.reg[0].AccSeq < last.enter2 && (len(p.initR) != 1 || len(p.conf) != 1) {
			h.fail("C14", "unregistered", "%s asked to be registered but got %d openings and %d confirmations", p.name, len(p.initR), len(p.conf))
		}
		for k, rd := range h.rounds {
			if k+1 >= len(h.rounds) || !h.rounds[k+1].tableOK {
				continue
			}
			in := false
			for _, m := range p.reg {
				// handled in this round, or before and left waiting for it
				in = in || rd.open != never && handled(m) && m.DoneSeq > 0 && m.DoneSeq < rd.enter2 && m.DoneSeq < rd.closed
			}
			for _, m := range p.conf {
				in = in || m.DialSeq > rd.from && m.DialSeq < rd.closed
			}
			if in && (p.first < 0 || p.first > k+1) {
				h.fail("C14", "left-out", "%s registered in round %d but is not in the table of round %d", p.name, k, k+1)
			}
		}
	}
}

// ---- C16: shuffle proofs ----

// the proof and what it is about; the marks say whether there is a proof
var proofPart = map[string]bool{"proof": true, "xbar": true, "ybar": true, "prev_keys": true, "prev_vals": true, "public_key": true}
var proofMark = map[string]bool{"shuffled": true, "is_start": true, "g": true}

func (h *Hist) shuffleOracle() {
	for _, typ := range []string{"ANNOUNCEMENT", "ROUND_END"} {
		for _, s := range h.servers {
			var in []*rt.Msg
			for _, m := range h.processed(s.proc) {
				if is(view(m).Ev, typ) || is(view(m).Sent, typ) {
					in = append(in, m)
				}
			}
			passed := map[string]bool{}
			for i, m := range in {
				forged := strings.HasPrefix(m.Inject, "forge:")
				restored := strings.HasPrefix(m.Inject, "restore:")
				if m.Inject != "" && !forged && !restored || m.Inject == "" && (m.Src == nil || m.Src.Role != "server") {
					continue
				}
				next := never
				if i+1 < len(in) {
					next = in[i+1].AccSeq
				}
				var out []*rt.Msg
				for _, x := range h.w.Msgs {
					if x.Src == s.proc && x.DialSeq > m.AccSeq && x.DialSeq < next && is(view(x).Sent, typ) {
						out = append(out, x)
					}
				}
				if restored && passed[m.Inject[len("restore:"):]] {
					continue // the altered one was fit to go on
				}
				if !restored && !forged {
					passed[m.SrcName] = len(out) > 0
				}
				if forged {
					h.check("shuffles-forged")
					if len(out) > 0 {
						h.fail("C16", "forged."+typ, "%s passed on a table whose shuffle proof is a forgery: the pairs are no permutation of the previous ones (%s, %s)", s.proc.Name, typ, m.Inject)
					}
					continue
				}
				if strings.HasPrefix(m.Altered, "forge.") && !strings.Contains(m.Altered, "+") {
					h.check("shuffles-forged")
					if len(out) > 0 {
						h.fail("C16", "forged."+typ, "%s passed on a table from %s whose shuffle proof is a forgery: the pairs are no permutation of the previous ones (%s, %s)", s.proc.Name, m.SrcName, typ, m.Altered)
					}
					continue
				}
				if m.Altered == "" {
					h.check("shuffles-accepted")
					if len(out) == 0 && m.Fate == "" && (m.DoneSeq > 0 || s.proc.Dead) {
						from := m.SrcName
						if restored {
							from = m.Inject[len("restore:"):]
						}
						h.fail("C16", "refused."+typ, "%s did not pass on the table honestly shuffled by %s (%s)", s.proc.Name, from, typ)
					}
					continue
				}
				all, any := true, false
				for _, a := range strings.Split(m.Altered, "+") {
					f := a[strings.IndexByte(a, '.')+1:]
					all = all && (proofPart[f] || proofMark[f])
					any = any || proofPart[f]
				}
				if !all || !any {
					continue
				}
				h.check("shuffles-altered")
				if len(out) > 0 {
					h.fail("C16", "accepted."+typ, "%s passed on a table from %s although its shuffle proof material was altered (%s, %s)", s.proc.Name, m.SrcName, typ, m.Altered)
				}
			}
		}
	}
}

// ---- C17, C18: parameter honesty ----

type prfOf struct {
	fo  *ref.FO
	prf []*Int
}

func bigList(b []byte) []*Int {
	var l []*big.Int
	if ref.GobDec(b, &l) != nil {
		return nil
	}
	for _, x := range l {
		if x == nil {
			return nil
		}
	}
	return l
}

// checkAnswer verifies answers to a challenge (-1: malformed, 0: wrong, 1: right).
func checkAnswer(c *prfOf, bits []bool, ans []*Int) int {
	if c == nil || len(bits) == 0 || len(bits) != len(c.prf) || len(ans) != len(bits) || len(bits)%6 != 0 || c.fo.N.Sign() <= 0 {
		return -1
	}
	w := len(bits) / 6
	for i := range bits {
		l := c.fo.Exp(c.fo.H1, ans[i])
		if l == nil {
			return 0
		}
		r := new(Int).Mod(c.prf[i], c.fo.N)
		if bits[i] {
			r = c.fo.Mul(r, c.fo.G[1+i/w])
		}
		if l.Cmp(r) != 0 {
			return 0
		}
	}
	return 1
}

func (h *Hist) honestyOracle() {
	seen := map[string]string{}
	for _, p := range h.parties {
		if p.kind != "client" {
			continue
		}
		var cur *prfOf
		var chal []bool
		var verified, grace, graceEnd uint64
		bad := ""
		type ev struct {
			seq uint64
			m   *rt.Msg
			in  bool
		}
		var evs []ev
		for _, m := range h.w.Msgs {
			if m.Dst == p.proc && handled(m) {
				evs = append(evs, ev{m.AccSeq, m, true})
			}
			if m.Src == p.proc && m.Inject == "" {
				evs = append(evs, ev{m.DialSeq, m, false})
			}
		}
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].seq < evs[j].seq })
		pending, until := uint64(0), uint64(0) // a wrong answer taken, and dealt with
		for _, x := range evs {
			e := view(x.m).Ev
			if !x.in {
				e = view(x.m).Sent
			}
			switch {
			case x.in && is(e, "CLIENT_REGISTER_CONFIRMATION"):
				if verified > 0 {
					grace, graceEnd = verified, x.m.DoneSeq
				}
				cur, chal, verified = nil, nil, 0
				if l := bigList(e.B("honesty_prf")); l != nil {
					cur = &prfOf{foOf(e), l}
				}
			case !x.in && is(e, "GN_HONESTY_CHALLENGE"):
				l, err := ref.Bools(e.B("honesty_chal"))
				if err != nil || cur == nil {
					continue
				}
				chal = l
				h.check("challenges")
				h.challengeBits(p, cur, l, seen)
			case x.in && is(e, "GN_HONESTY_ANSWER"):
				h.check("answers")
				switch checkAnswer(cur, chal, bigList(e.B("honesty_ans"))) {
				case 1:
					if verified == 0 {
						verified = x.seq
					}
				case 0:
					bad = "an answer that does not verify"
					pending, until = x.seq, x.m.DoneSeq
				}
			case !x.in && is(e, "REQUEST_BRIDGES"):
				h.check("uses")
				// the command may have been read before another confirmation was handled
				if grace > 0 && (graceEnd == 0 || x.seq < graceEnd) {
					continue
				}
				if verified == 0 || verified > x.seq {
					h.fail("C17", "unverified", "%s used commitment parameters before it had verified them", p.name)
				}
			case !x.in && until > 0 && x.seq > until && !is(e, "GN_HONESTY_CHALLENGE"):
				h.fail("C17", "goes-on", "%s goes on (%s) after %s", p.name, evName(e.EventType), bad)
			}
		}
		if pending > 0 {
			h.check("wrong-answers")
			if !p.proc.Dead {
				h.fail("C17", "alive", "%s keeps running after %s", p.name, bad)
			}
		}
		// with honest parameters it gets through
		if p.affected == "" && len(p.conf) > 0 && cur != nil && chal == nil && handled(p.conf[0]) && !p.proc.Dead && p.conf[0].DoneSeq > 0 {
			h.fail("C17", "unchallenged", "%s did not challenge the parameters it was sent", p.name)
		}
		if p.affected == "" && chal != nil && verified == 0 && !h.r.Coord.Dead && !p.proc.Dead && pending == 0 && len(h.r.stall) == 0 && len(p.conf) == 1 {
			h.fail("C18", "unanswered", "%s never got a right answer to its first challenge", p.name)
		}
	}
	h.answerOracle()
}

// challengeBits looks at the freshness of a challenge (C17).
func (h *Hist) challengeBits(p *party, c *prfOf, l []bool, seen map[string]string) {
	if len(c.prf)%6 != 0 {
		return // it was sent an incomplete proof, which it finds out when it checks the answer
	}
	if len(l) != len(c.prf) || len(l) < 240 || len(l)%6 != 0 {
		h.fail("C17", "length", "%s challenges %d of %d proof commitments", p.name, len(l), len(c.prf))
		return
	}
	w := len(l) / 6
	var blocks []string
	for b := 0; b < 6; b++ {
		n, s := 0, ""
		for _, x := range l[b*w : (b+1)*w] {
			if x {
				n++
				s += "1"
			} else {
				s += "0"
			}
		}
		if n < w/10 || n > w-w/10 {
			h.fail("C17", "biased", "%s's challenge of generator %d has %d ones in %d bits", p.name, b+1, n, w)
		}
		if turns := apart(s[1:], s[:w-1]); turns < w/10 || turns > w-w/10 {
			h.fail("C17", "pattern", "%s's challenge of generator %d changes only %d times in %d bits, or nearly always", p.name, b+1, turns, w)
		}
		for i, t := range blocks {
			if d := apart(s, t); d < w/10 || d > w-w/10 {
				h.fail("C17", "repeated", "%s's challenges of generators %d and %d determine each other (%d of %d bits differ)", p.name, i+1, b+1, d, w)
			}
		}
		blocks = append(blocks, s)
		for t, q := range seen {
			if d := apart(s, t); len(t) == w && (d < w/10 || d > w-w/10) && q != p.name {
				h.fail("C17", "repeated", "%s and %s chose the same challenge", p.name, q)
				break
			}
		}
		if q, ok := seen[s]; ok && q == p.name {
			h.fail("C17", "repeated", "%s chose the same challenge twice", p.name)
		}
		seen[s] = p.name
		x := new(Int)
		x.SetString("1"+s, 2)
		h.print("chal", x)
	}
}

// answerOracle: what the coordinator's answers reveal, all taken together.
func (h *Hist) answerOracle() {
	if h.fo == nil {
		return
	}
	type slot struct {
		j   int
		bit int
	}
	at := map[string]slot{}
	conf := map[*party]*prfOf{}
	longest, answered := 0, 0
	said := map[string]map[int]bool{}
	prfs := map[string]int{}
	near := map[int]map[string]bool{}
	var zeros []*Int
	spread := map[slot]*[2]*Int{} // per generator and bit: smallest and largest answer
	count := map[slot]int{}
	for _, m := range h.fromC {
		e := view(m).Sent
		switch {
		case is(e, "CLIENT_REGISTER_CONFIRMATION"):
			l := bigList(e.B("honesty_prf"))
			if len(l) == 0 || len(l)%6 != 0 {
				continue
			}
			if p := h.partyAt(m); p != nil && conf[p] == nil {
				conf[p] = &prfOf{foOf(e), l}
			}
			w := len(l) / 6
			mine := map[string]bool{}
			for j, x := range l {
				h.check("proof-commitments")
				k := key(x)
				if mine[k] {
					h.fail("C18", "same", "two proof commitments in one message are the same")
				}
				mine[k] = true
				prfs[k]++
				if x.Cmp(ref.One) == 0 {
					h.fail("C18", "trivial", "a proof commitment is 1, so its secret is known")
				}
				at[k] = slot{j, 0}
				at[key(h.fo.Mul(x, h.fo.G[1+j/w]))] = slot{j, 1}
				if j%16 == 0 {
					h.print("prf", x)
				}
			}
		case is(e, "GN_HONESTY_ANSWER"):
			l := bigList(e.B("honesty_ans"))
			bit := make([]int, len(l))
			for i, x := range l {
				bit[i] = -1
				if x.BitLen() > longest {
					longest = x.BitLen()
				}
				u := h.fo.Exp(h.fo.H1, x)
				if u == nil {
					continue
				}
				s, ok := at[key(u)]
				if !ok {
					continue // opens nothing: useless to anyone
				}
				answered++
				bit[i] = s.bit
				if s.bit == 0 {
					zeros = append(zeros, x)
				}
				if len(l) >= 6 {
					g := slot{s.j / (len(l) / 6), s.bit}
					if count[g]++; spread[g] == nil {
						spread[g] = &[2]*Int{x, x}
					} else if x.Cmp(spread[g][0]) < 0 {
						spread[g][0] = x
					} else if x.Cmp(spread[g][1]) > 0 {
						spread[g][1] = x
					}
				}
				k := key(u)
				if s.bit == 1 {
					// the commitment it belongs to
					k = key(h.fo.Mul(u, invN(h.fo.G[1+s.j/(len(l)/6)], h.fo.N)))
				}
				if said[k] == nil {
					said[k] = map[int]bool{}
				}
				said[k][s.bit] = true
				if len(said[k]) > 1 {
					h.fail("C18", "both", "the same proof commitment was answered for both bits, which reveals the exponent of generator %d", 1+s.j/(len(l)/6))
				}
			}
			// secrets next to each other must be independent: two of them with a
			// known difference, answered for different bits, give the exponent
			if w := len(l) / 6; w > 0 && h.fo.N.BitLen() <= 300 {
				for i := 1; i < len(l); i++ {
					if i%w == 0 || bit[i] < 0 || bit[i]+bit[i-1] != 1 {
						continue
					}
					d := new(Int).Sub(l[i], l[i-1])
					if bit[i] == 0 {
						d.Neg(d)
					}
					h.check("neighbour-answers")
					u := h.fo.Exp(h.fo.H1, d)
					if u == nil {
						continue
					}
					if near[1+i/w] == nil {
						near[1+i/w] = map[string]bool{}
						for k := int64(-4); k <= 4; k++ {
							if v := h.fo.Exp(h.fo.H1, ref.I(k)); v != nil {
								near[1+i/w][key(h.fo.Mul(v, h.fo.G[1+i/w]))] = true
							}
						}
					}
					if near[1+i/w][key(u)] {
						h.fail("C18", "related", "the difference of two answers is, within 4, the exponent of generator %d", 1+i/w)
					}
				}
			}
		}
	}
	h.checkN("answers-opened", answered)
	if b := biased(zeros, h.fo.N.BitLen()); b != "" {
		h.fail("C18", "biased", "the secrets of the proof all have %s", b)
	}
	for g, r := range spread {
		if d := new(Int).Sub(r[1], r[0]); count[g] >= 8 && d.BitLen() < h.fo.N.BitLen()-32 {
			h.fail("C18", "narrow", "all %d answers to bit %d for generator %d lie within %d bits of each other, which gives its exponent away (modulus has %d)", count[g], g.bit, 1+g.j, d.BitLen(), h.fo.N.BitLen())
		}
	}
	if answered >= 480 && longest < h.fo.N.BitLen()-8 {
		h.fail("C18", "short", "answers have at most %d bits, too short to hide the exponents (modulus has %d)", longest, h.fo.N.BitLen())
	}
}

// biased tells which bits all of the values share, when values drawn at random
// from numbers of n bits would not.
func biased(l []*Int, n int) string {
	seen := map[string]bool{}
	var u []*Int
	for _, x := range l {
		if k := key(x); !seen[k] {
			seen[k] = true
			u = append(u, x)
		}
	}
	if len(u) < 2 {
		return ""
	}
	top, low := n, n
	for _, x := range u[1:] {
		d := new(Int).Xor(x, u[0])
		if t := n - d.BitLen(); t < top {
			top = t
		}
		if t := int(d.TrailingZeroBits()); t < low {
			low = t
		}
	}
	switch {
	case (len(u)-1)*(top-1) >= 100:
		return fmt.Sprintf("the same %d leading bits (%d values)", top, len(u))
	case (len(u)-1)*low >= 100:
		return fmt.Sprintf("the same %d final bits (%d values)", low, len(u))
	}
	return ""
}

// apart counts the places at which two strings differ.
func apart(a, b string) int {
	n := 0
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			n++
		}
	}
	return n
}

func invN(a, n *Int) *Int {
	if x := new(Int).ModInverse(a, n); x != nil {
		return x
	}
	return new(Int)
}

// ---- C19: signatures ----

type sigRec struct {
	who   string
	where string
	v     *Int
	sig   string
}

// publicNonce tells whether v is what anybody could derive from the public
// parts of a signature, by the means at hand in the code base.
func publicNonce(v *Int, parts ...[]byte) bool {
	try := func(b []byte) bool {
		c := ref.Suite().Secret()
		c.Pick(ref.Suite().Cipher(append([]byte{}, b...)))
		pb, _ := c.MarshalBinary()
		h2, h5 := sha256.Sum256(b), sha512.Sum512(b)
		for _, g := range [][]byte{pb, h2[:], h5[:], b} {
			if x := new(Int).SetBytes(g); x.Mod(x, ref.Q).Cmp(v) == 0 {
				return true
			}
		}
		return false
	}
	for i, a := range parts {
		if try(a) {
			return true
		}
		for j, b := range parts {
			if i != j && try(append(append([]byte{}, a...), b...)) {
				return true
			}
		}
	}
	return try(append(append(append([]byte{}, parts[0]...), parts[1]...), parts[2]...))
}

func (h *Hist) signerOracle() {
	var recs []sigRec
	cipher := ref.Suite().Secret()
	cipher.Pick(ref.Suite().Cipher([]byte("example")))
	pb, _ := cipher.MarshalBinary()
	predictable := new(Int).SetBytes(pb)
	add := func(who, where string, msg []byte, pk, sk, base *Int, sig []byte) {
		h.check("signatures")
		if !ref.Verify(msg, ref.Bytes(pk), sig, base) {
			h.fail("C19", "invalid", "%s: the signature of %s does not verify under its key", where, who)
			return
		}
		if sk == nil {
			return
		}
		v := ref.Nonce(sig, sk)
		if v == nil {
			return
		}
		recs = append(recs, sigRec{who, where, v, string(sig)})
		h.check("nonce-guesses")
		switch {
		case publicNonce(v, msg, ref.Bytes(pk), ref.Bytes(base)):
			h.fail("C19", "nonce.public", "%s: %s signed with a nonce that follows from the message and its public key", where, who)
		case v.Cmp(predictable) == 0:
			h.fail("C19", "nonce.fixed", "%s: %s signed with a nonce anybody can compute", where, who)
		case v.BitLen() < ref.Q.BitLen()-100 || v.TrailingZeroBits() >= 100:
			h.fail("C19", "nonce.short", "%s: %s signed with a nonce of %d bits", where, who, v.BitLen())
		case v.Cmp(sk) == 0 || new(Int).Sub(v, sk).BitLen() < 128:
			h.fail("C19", "nonce.key", "%s: %s used its key as nonce", where, who)
		case related(v, sk) != "":
			h.fail("C19", "nonce.key", "%s: %s used the %s of its key as nonce", where, who, related(v, sk))
		}
	}
	for _, m := range h.w.Msgs {
		if m.Inject != "" || m.Src == nil || m.SentSeq == 0 {
			continue
		}
		e := view(m).Sent
		if e == nil {
			continue
		}
		what := ""
		switch {
		case is(e, "POST_BRIDGE"):
			what = "PostBridge"
		case is(e, "REQUEST_BRIDGES"):
			what = "RequestBridges"
		case is(e, "VOTE") && m.Dst == h.r.Coord:
			what = "Vote"
		}
		if what != "" && m.Src.Role == "client" {
			p := h.byProc[m.Src]
			if p == nil || p.affected != "" {
				continue
			}
			for _, rd := range h.rounds {
				if nym := h.nymOf(p, rd); rd.tableOK && nym != nil && nym.Cmp(e.Int("nym")) == 0 {
					add(p.name, what, messageOf(what, e.Params), nym, p.sk, rd.g, e.B("signature"))
				}
			}
		}
		if is(e, "GOT_SIGNS") && m.Src.Role == "server" {
			for _, s := range h.servers {
				if s.proc != m.Src {
					continue
				}
				as, err := ref.DecAssignments(e.B("assignments"))
				var sg [][]byte
				if err == nil && ref.GobDec(e.B("signatures"), &sg) == nil && len(sg) == len(as) {
					for i := range as {
						add(s.proc.Name, "assignment", as[i].Raw, s.pk, s.sk, ref.G, sg[i])
					}
				}
			}
		}
		if is(e, "GOT_SIGNS") && m.Src == h.r.Coord && h.coordPK != nil {
			sk := h.findSecret(h.r.Coord, ref.G, h.coordPK)
			var sg [][]byte
			if ref.GobDec(e.B("signatures"), &sg) == nil && len(sg) > 0 {
				add("the coordinator", "assignment", e.B("assignment"), h.coordPK, sk, ref.G, sg[len(sg)-1])
			}
			add("the coordinator", "delivery", messageOf("GotSignatures", e.Params), h.coordPK, sk, ref.G, e.B("signature"))
		}
	}
	byV := map[string]sigRec{}
	for _, r := range recs {
		k := key(r.v)
		if o, ok := byV[k]; ok && o.sig != r.sig {
			h.fail("C19", "nonce.reuse", "%s (%s) and %s (%s) signed with the same nonce", o.who, o.where, r.who, r.where)
		}
		byV[k] = r
		h.print("nonce", r.v)
	}
	by := map[string][]*Int{}
	var who []string
	for _, r := range recs {
		for _, w := range []string{r.who, "everybody"} {
			if by[w] == nil {
				who = append(who, w)
			}
			by[w] = append(by[w], r.v)
		}
	}
	for _, w := range who {
		if b := biased(by[w], ref.Q.BitLen()); b != "" {
			h.fail("C19", "nonce.bias", "the nonces of %s all have %s", w, b)
		}
	}
	for i := range recs {
		for j := 0; j < i; j++ {
			d := new(Int).Sub(recs[i].v, recs[j].v)
			if d.Sign() != 0 && d.BitLen() < 128 {
				h.fail("C19", "nonce.near", "%s's nonces differ by only %d bits", recs[i].who, d.BitLen())
			} else if d.Sign() != 0 && recs[i].who == recs[j].who && related(recs[i].v, recs[j].v) != "" {
				rel := related(recs[i].v, recs[j].v)
				h.fail("C19", "nonce.related", "%s's nonce in %s is the %s of %s's in %s", recs[i].who, recs[i].where, rel, recs[j].who, recs[j].where)
			}
		}
	}
}
