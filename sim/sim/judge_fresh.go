package sim

import (
	"fmt"

	"verifsim/ref"
	"verifsim/rt"
)

// ---- C04: freshness ----

type hop struct {
	rd  *round
	srv *server
	dir string // ann or end
	in  *rt.Msg
	out *rt.Msg
	E   *Int
	rk  *Int
	p   []int
}

func (h *Hist) serverOf(p *rt.Proc) *server {
	for _, s := range h.servers {
		if s.proc == p {
			return s
		}
	}
	return nil
}

// hops pairs each table a server passed on with the one it was given.
func (h *Hist) allHops() []*hop {
	var l []*hop
	add := func(rd *round, dir, typ string, outs []*rt.Msg) {
		for _, o := range outs {
			s := h.serverOf(o.Src)
			if s == nil {
				continue
			}
			var in *rt.Msg
			for _, m := range h.w.Msgs {
				if m.Dst == o.Src && m.AccSeq > 0 && m.AccSeq < o.DialSeq && is(view(m).Ev, typ) && (in == nil || m.AccSeq > in.AccSeq) {
					in = m
				}
			}
			if in != nil {
				l = append(l, &hop{rd: rd, srv: s, dir: dir, in: in, out: o})
			}
		}
	}
	for _, rd := range h.rounds {
		add(rd, "ann", "ANNOUNCEMENT", rd.hops)
		add(rd, "end", "ROUND_END", rd.ehops)
	}
	return l
}

func (h *Hist) freshOracle() {
	seen := map[string]string{}
	fresh := func(kind string, v *Int, where string) {
		k := kind + key(v)
		if o := seen[k]; o != "" {
			h.fail("C04", "repeat."+kind, "%s: the %s equals that of %s", where, kindName[kind], o)
			return
		}
		seen[k] = where
	}
	exps := map[string]string{}
	secret := func(kind string, x *Int, where string, minBits int) {
		if x == nil {
			return
		}
		h.check("secret")
		if x.BitLen() < minBits {
			h.fail("C04", "weak."+kind, "%s: the %s is predictable (%d bits)", where, kindName[kind], x.BitLen())
		}
		k := key(x)
		if o := exps[k]; o != "" {
			h.fail("C04", "reuse."+kind, "%s: the %s was used before as %s", where, kindName[kind], o)
			return
		}
		exps[k] = kindName[kind] + " at " + where
	}
	for _, s := range h.servers {
		if s.sk != nil {
			exps[key(s.sk)] = "the private key of " + s.proc.Name
		}
	}
	for _, rd := range h.rounds {
		e := view(rd.ann).Sent
		w := fmt.Sprintf("start of announcement %d", rd.k)
		if rd.k > 0 {
			// tables start from what the round end produced; only the
			// bases may be checked against earlier announcements here
			_ = e
		}
		_ = w
	}
	hops := h.allHops()
	var perms [][]int
	var names []string
	for _, x := range hops {
		in, out := view(x.in).Ev, view(x.out).Sent
		where := fmt.Sprintf("%s %d at %s", map[string]string{"ann": "announcement", "end": "round end"}[x.dir], x.rd.k, x.srv.proc.Name)
		ik, e1 := ref.List(in.B("keys"))
		iv, e2 := ref.List(in.B("vals"))
		ok, e3 := ref.List(out.B("keys"))
		ov, e4 := ref.List(out.B("vals"))
		if e1 != nil || e2 != nil || e3 != nil || e4 != nil || len(ik) != len(ok) || len(iv) != len(ov) || len(ik) != len(iv) {
			continue
		}
		h.check("hop")
		x.E = h.findSecret(x.srv.proc, in.Int("GT"), out.Int("GT"))
		secret("E", x.E, where, 256)
		fresh("GT", out.Int("GT"), where)
		fresh("HT", out.Int("HT"), where)
		if in.Int("GT").Cmp(out.Int("GT")) == 0 {
			h.fail("C04", "weak.E", "%s: the commitments were passed on without re-randomisation", where)
		}
		for _, v := range ov {
			fresh("val", v, where)
		}
		if x.dir == "ann" {
			fresh("g", out.Int("g"), where)
			for _, k := range ok {
				fresh("key", k, where)
			}
			base := ref.G
			if in.Has("g") {
				base = in.Int("g")
			}
			x.rk = h.findSecret(x.srv.proc, base, out.Int("g"))
			secret("rk", x.rk, where, 256)
			if x.rk != nil {
				x.srv.rks = append(x.srv.rks, x.rk)
				x.p = permOf(h, ik, ok, x.rk)
			}
		} else {
			// the round key of this round's announcement undone
			for _, y := range hops {
				if y.dir == "ann" && y.rd == x.rd && y.srv == x.srv && y.rk != nil {
					if q := permOf(h, ok, ik, y.rk); q != nil {
						x.p = make([]int, len(q))
						for i, j := range q {
							x.p[j] = i
						}
					}
				}
			}
		}
		if x.p == nil {
			continue
		}
		h.check("permutation")
		n := len(x.p)
		if n < 6 {
			continue
		}
		id, rot, rev := 0, map[int]int{}, map[int]int{}
		for i, j := range x.p {
			if i == j {
				id++
			}
			rot[(j-i+n)%n]++
			rev[(j+i)%n]++
		}
		if n >= 10 {
			if id >= n-1 {
				h.fail("C04", "order.identity", "%s: the table was passed on in its old order", where)
			}
			for _, c := range rot {
				if c >= n-1 && id < n-1 {
					h.fail("C04", "order.rotation", "%s: the table was only rotated", where)
				}
			}
			for _, c := range rev {
				if c >= n-1 {
					h.fail("C04", "order.reversal", "%s: the table was only reversed", where)
				}
			}
			for i, q := range perms {
				if len(q) != n {
					continue
				}
				same := 0
				for k := range q {
					if q[k] == x.p[k] {
						same++
					}
				}
				if same >= n-1 {
					h.fail("C04", "order.repeat", "%s: the same permutation as in %s", where, names[i])
				}
			}
		}
		perms = append(perms, x.p)
		names = append(names, where)
		h.r.res.Perms = append(h.r.res.Perms, Perm{x.srv.proc.Name, x.dir, x.rd.k, x.p})
	}
	h.relatedSecrets(hops)
	h.secretsSeen(hops)
}

// related names the simple function of b that a is, if it is one.
func related(a, b *Int) string {
	q := ref.Q
	is := func(x *Int) bool {
		d := new(Int).Sub(a, new(Int).Mod(x, q))
		d.Mod(d, q)
		return d.BitLen() < 64 || new(Int).Sub(q, d).BitLen() < 64
	}
	two := func(x, y *Int) bool { return is(new(Int).Lsh(x, 1)) || new(Int).Mod(new(Int).Lsh(a, 1), q).Cmp(y) == 0 }
	switch {
	case a == nil || b == nil || a.Sign() == 0 || b.Sign() == 0:
		return ""
	case is(b):
		return "neighbour"
	case is(new(Int).Neg(b)):
		return "negative"
	case two(b, b):
		return "double or half"
	case is(new(Int).ModInverse(b, q)):
		return "inverse"
	case is(new(Int).Mul(b, b)):
		return "square"
	case new(Int).Mod(new(Int).Mul(a, a), q).Cmp(b) == 0:
		return "root"
	}
	return ""
}

// relatedSecrets: what a server knows about one secret must say nothing about
// another of its secrets.
func (h *Hist) relatedSecrets(hops []*hop) {
	type sec struct {
		x     *Int
		where string
	}
	q := ref.Q
	all := map[string][]*Int{}
	for _, x := range hops {
		if x.E != nil {
			all["re-randomisation factors"] = append(all["re-randomisation factors"], x.E)
		}
		if x.rk != nil {
			all["round exponents"] = append(all["round exponents"], x.rk)
		}
	}
	for _, k := range []string{"re-randomisation factors", "round exponents"} {
		if b := biased(all[k], q.BitLen()); b != "" {
			h.fail("C04", "bias", "the %s all have %s", k, b)
		}
	}
	for _, s := range h.servers {
		var l []sec
		if s.sk != nil {
			l = append(l, sec{s.sk, "its private key"})
		}
		for _, x := range hops {
			if x.srv != s {
				continue
			}
			at := fmt.Sprintf("%s %d", map[string]string{"ann": "announcement", "end": "round end"}[x.dir], x.rd.k)
			if x.E != nil {
				l = append(l, sec{x.E, "its re-randomisation factor of " + at})
			}
			if x.rk != nil {
				l = append(l, sec{x.rk, "its round exponent of " + at})
			}
		}
		known := map[string]string{}
		for _, y := range l {
			known[key(y.x)] = y.where
		}
		for i, a := range l {
			for j, b := range l {
				if i == j || a.x.Cmp(b.x) == 0 {
					continue
				}
				h.check("related-secrets")
				if rel := related(a.x, b.x); rel != "" && j < i {
					h.fail("C04", "related", "%s: %s is the %s of %s", s.proc.Name, a.where, rel, b.where)
				}
				if j < i {
					for _, f := range []struct {
						n string
						v *Int
					}{{"sum", new(Int).Add(a.x, b.x)}, {"product", new(Int).Mul(a.x, b.x)}} {
						if w := known[key(f.v.Mod(f.v, q))]; w != "" {
							h.fail("C04", "related", "%s: %s is the %s of %s and %s", s.proc.Name, w, f.n, a.where, b.where)
						}
					}
				}
			}
		}
	}
}

var kindName = map[string]string{"E": "re-randomisation factor", "rk": "round exponent", "g": "generator", "key": "pseudonym list entry", "val": "commitment", "GT": "commitment base", "HT": "commitment base"}

// permOf maps positions of in to positions of out, where out[p[i]] = in[i]^rk.
func permOf(h *Hist, in, out []*Int, rk *Int) []int {
	pos := map[string]int{}
	for j, k := range out {
		pos[key(k)] = j
	}
	p := make([]int, len(in))
	for i, k := range in {
		j, ok := pos[key(h.exp(k, rk))]
		if !ok {
			return nil
		}
		p[i] = j
	}
	return p
}

// secretsSeen leaves fingerprints of secrets for the comparison between runs.
func (h *Hist) secretsSeen(hops []*hop) {
	for _, x := range hops {
		h.print("E", x.E)
		h.print("rk", x.rk)
	}
	for _, p := range h.parties {
		if p.kind != "evil" {
			h.print("sk", p.sk)
		}
	}
	for _, s := range h.servers {
		h.print("sk", s.sk)
	}
}

// print notes a secret that must never be seen in another run.
func (h *Hist) print(kind string, x *Int) {
	if x == nil || x.Sign() == 0 {
		return
	}
	v := rt.HashStr(kind+key(x)) &^ 15
	h.fp = append(h.fp, v|kindTag[kind])
}

var kindTag = map[string]uint64{"E": 1, "rk": 2, "sk": 3, "nonce": 4, "chal": 5, "prf": 6}

func (h *Hist) prints() []uint64 { return h.fp }
