package sim

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verifsim/rt"
)

// gen builds the plan of one run from a seed.
type gen struct {
	rng
	prop    string
	pl      *Plan
	settled bool
	ns, nc  int
	rounds  int
	evils   int
	bridges int
	posted  []string
	late    map[int]int // client -> round it starts in
	lateAt  map[int]int // client -> phase it starts in
	mark    []int       // step index where each round's posting begins
	end0    int         // step index after the configuration
	lost    bool        // server signatures get lost and come later
}

func (g *gen) add(s ...Step)   { g.pl.Steps = append(g.pl.Steps, s...) }
func (g *gen) settle()         { g.add(Step{Op: "settle"}) }
func (g *gen) sleep(a, b int)  { g.add(Step{Op: "sleep", N: int64(g.rangei(a, b))}) }
func cmd(i int, s string) Step { return Step{Op: "cmd", I: i, S: s} }
func evil(i int, s string, n, m int64) Step {
	return Step{Op: "evil", I: i, S: s, N: n, M: m}
}

// wait separates two operations.
func (g *gen) wait() {
	if g.settled {
		g.settle()
		return
	}
	switch g.n(4) {
	case 0:
	case 1:
		g.sleep(0, 60)
	case 2:
		g.sleep(0, 700)
	case 3:
		g.sleep(200, 2500)
	}
}

func (g *gen) shuffle(l []Step) []Step {
	for i := len(l) - 1; i > 0; i-- {
		j := g.n(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// phase performs operations in the given order with waits in between.
func (g *gen) phase(l []Step) {
	for _, s := range l {
		g.add(s)
		if g.settled {
			if g.p(40) {
				g.settle()
			}
		} else {
			g.wait()
		}
	}
	if g.settled {
		g.settle()
	} else if g.p(60) {
		g.sleep(500, 4000)
	} else {
		g.wait()
	}
}

func (g *gen) newBridge() string {
	g.bridges++
	n := g.bridges
	a := fmt.Sprintf("br%d", n)
	switch g.n(16) {
	case 0, 1:
		a = fmt.Sprintf("10.0.%d.%d:443", n/250, n%250)
	case 2:
		a = fmt.Sprintf("[2001:db8::%x]:9001", n)
	case 3: // one host, many ports
		a = fmt.Sprintf("203.0.113.7:%d", 9000+n)
	case 4:
		a = fmt.Sprintf("obfs4://bridge-%d.example.org:443/?cert=%s&iat-mode=%d", n, longName(g.rangei(20, 90), n), n%3)
	case 5:
		a = fmt.Sprintf("br\u00fccke-%d.\u4f8b\u3048.test:%d", n, n)
	case 6:
		a = longName(g.rangei(100, 900), n)
	case 7, 8, 9: // like another one
		if len(g.posted) > 0 {
			b := g.posted[g.n(len(g.posted))]
			switch g.n(6) {
			case 0:
				a = b + "0"
			case 1:
				a = b + "."
			case 2:
				a = b + ":1"
			case 3:
				a = "x" + b
			case 4:
				a = strings.ToUpper(b)
			case 5:
				a = b[:len(b)-1]
			}
			for _, p := range g.posted {
				if p == a || a == "" || strings.ContainsRune(a, utf8.RuneError) {
					a = fmt.Sprintf("br%d", n)
				}
			}
		}
	}
	g.posted = append(g.posted, a)
	return a
}

// longName is a long bridge line without spaces.
func longName(l, n int) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d+", n)
	for x := uint64(n); sb.Len() < l; {
		x = x*6364136223846793005 + 1442695040888963407
		sb.WriteByte("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[x>>58])
	}
	return sb.String()
}

func (g *gen) net(hard bool) {
	n := &g.pl.Net
	n.JitMs = []int64{0, 20, 20, 200, 1500}[g.n(5)]
	n.Chunk = []int{0, 0, 10, 60}[g.n(4)]
	n.Preempt = []int64{0, 300, 3000, 20000}[g.n(4)]
	if !hard && g.p(40) {
		n.Preempt = 0
	}
	if g.p(35) {
		n.Slow = map[string]int64{}
		for i := g.rangei(1, 2); i > 0; i-- {
			p := []string{"C", "S1", "S2", "c1", "c2", "S3"}[g.n(6)]
			n.Slow[p] = []int64{5, 50, 400, 1500}[g.n(4)]
		}
	}
}

// config starts the servers, ends the configuration and starts the clients
// of round 0.
func (g *gen) config() {
	if g.prop == "C15" {
		g.servers15()
	} else {
		for i := 1; i <= g.ns; i++ {
			g.add(Step{Op: "server", I: i})
			if g.settled || g.p(70) {
				g.settle()
			} else {
				g.sleep(0, 1500)
			}
		}
		g.startLate(-1, 0)
		g.settle()
	}
	g.add(Step{Op: "enter"})
	if g.settled || g.p(50) {
		g.settle()
	} else {
		g.sleep(0, 3000)
	}
	g.end0 = len(g.pl.Steps)
}

// startLate starts the clients that are to join in a phase of a round.
func (g *gen) startLate(k, ph int) {
	for i := 1; i <= g.nc; i++ {
		if g.late[i] == k && g.lateAt[i] == ph {
			g.add(Step{Op: "client", I: i})
			if g.settled && g.p(70) {
				g.settle()
			} else if g.p(50) {
				g.sleep(0, 1200)
			}
		}
	}
}

func (g *gen) members(k int) []int {
	var l []int
	for i := 1; i <= g.nc; i++ {
		if g.late[i] < k {
			l = append(l, i)
		}
	}
	return l
}

func (g *gen) any(l []int) int {
	if len(l) == 0 {
		return 1
	}
	return l[g.n(len(l))]
}

// profile of a round
type profile struct {
	posts, gets, votes int // per hundred and client
	big                bool
	mono               int // one provider, and everybody of this opinion
}

func (g *gen) honestPosts(k int, pr profile) []Step {
	var l []Step
	ms := g.members(k)
	if len(ms) == 0 {
		return nil
	}
	if pr.mono != 0 {
		for i := g.rangei(4, 8); i > 0; i-- {
			l = append(l, cmd(ms[0], "post "+g.newBridge()))
		}
		return l
	}
	if pr.big {
		p := g.any(ms)
		for i := g.rangei(3, 7); i > 0; i-- {
			l = append(l, cmd(p, "post "+g.newBridge()))
		}
	}
	for _, i := range ms {
		if g.p(pr.posts) {
			for j := g.rangei(1, 3); j > 0; j-- {
				if (g.p(12) || g.lost && g.p(40)) && len(g.posted) > 0 {
					l = append(l, cmd(i, "post "+g.posted[g.n(len(g.posted))]))
				} else {
					l = append(l, cmd(i, "post "+g.newBridge()))
				}
			}
		}
	}
	return g.shuffle(l)
}

func (g *gen) honestGets(k int, pr profile) []Step {
	var l []Step
	for _, i := range g.members(k) {
		if pr.big && g.p(80) {
			if g.p(30) {
				l = append(l, Step{Op: "getrel", I: i, N: int64(g.rangei(-1, 1))})
				continue
			}
			l = append(l, cmd(i, fmt.Sprintf("get %d", g.rangei(3, 5))))
		} else if g.p(pr.gets) {
			if g.p(20) { // around the reputation
				l = append(l, Step{Op: "getrel", I: i, N: int64(g.rangei(-1, 1))})
				continue
			}
			ind := g.rangei(1, 4)
			switch g.n(8) {
			case 0:
				ind = g.rangei(-1, 8)
			case 1:
				ind = g.rangei(4, 7)
			}
			l = append(l, cmd(i, fmt.Sprintf("get %d", ind)))
			if g.p(15) {
				l = append(l, cmd(i, fmt.Sprintf("get %d", g.rangei(1, 2))))
			}
		}
	}
	return g.shuffle(l)
}

func (g *gen) honestVotes(k int, pr profile) []Step {
	var l []Step
	for _, i := range g.members(k) {
		sign := 1
		if g.p(45) {
			sign = -1
		}
		if pr.mono != 0 {
			sign = pr.mono
		}
		for x := 0; x < 5; x++ {
			if pr.big && (x < 4 || pr.mono != 0) || g.p(pr.votes) {
				f := sign
				if !pr.big && g.p(40) {
					f = -sign
				}
				l = append(l, cmd(i, fmt.Sprintf("vote %d %d", x, f)))
				if g.p(6) {
					l = append(l, cmd(i, fmt.Sprintf("vote %d %d", x, f)))
				}
			}
			if x > 1 && !pr.big && !g.p(30) {
				break
			}
		}
	}
	return g.shuffle(l)
}

func (g *gen) tamper(typ, src, dst string, fields []string, muts ...string) {
	t := Tamper{Type: typ, Src: src, Dst: dst, Nth: g.rangei(1, 4), Mut: muts[g.n(len(muts))], Arg: int64(g.u() >> 40)}
	if len(fields) > 0 {
		t.Field = fields[g.n(len(fields))]
	}
	switch t.Field {
	case "arg_nonneg", "arg_equal":
		t.Mut = "int"
	}
	g.pl.Tampers = append(g.pl.Tampers, t)
}

var reqKinds = []string{"plain", "plain", "unreg", "stale", "borrow", "recom", "diff", "junkeq", "junkeq2", "wrap", "wrap", "rx", "cr", "crx", "eq1", "eq2", "nodl", "t1", "t1", "t2", "t2", "trivial", "zerofo", "oldproof", "nonnegof", "unsigned", "badkey", "bump", "bumpsigned", "bumphi"}
var voteKinds = []string{"good", "over", "third", "stale", "staleold", "unreg", "fabricate", "fabzero", "fabsigned", "fabmix", "retarget", "dropsig", "swapsig", "repsig", "unsigned", "flip", "swapnym"}
var postKinds = []string{"good", "steal", "unsigned", "emptysig", "badkey", "badbase", "foreign", "alter", "swapnym", "unreg", "longterm", "one", "zero", "stale", "stalemix"}

// evilReq is a request attack; most need an indicator above the reputation.
func (g *gen) evilReq(i int, pre string) Step {
	k := reqKinds[g.n(len(reqKinds))]
	if pre == "reqS:" && (k == "unsigned" || k == "badkey" || g.p(8)) {
		k = g.pick("wrap", "fresh", "fresh")
	}
	n := int64(g.rangei(6, 9))
	switch {
	case k == "plain":
		n = int64(g.rangei(1, 9))
	case k == "bumphi":
		n = int64(g.rangei(1, 5))
	case g.p(30):
		n = int64(g.rangei(1, 5))
	case g.p(15):
		n = int64(g.rangei(20, 60))
	}
	return evil(i, pre+k, n, int64(g.n(9)+9*g.n(6)))
}

var coordTypes = []string{"SERVER_REGISTER", "UPDATE_PEDERSEN_H", "CLIENT_REGISTER_CONTROLLERSIDE", "CLIENT_REGISTER_SERVERSIDE", "GN_HONESTY_CHALLENGE", "POST_BRIDGE", "REQUEST_BRIDGES", "GOT_SIGNS", "VOTE", "ROUND_END", "ROUND_END", "ANNOUNCEMENT", "ANNOUNCEMENT"}
var serverTypes = []string{"SERVER_REGISTER_REPLY", "ANNOUNCEMENT", "ANNOUNCEMENT_FINALIZE", "SIGN_ASSIGNMENTS", "UPDATE_NEXT_HOP", "CLIENT_REGISTER_SERVERSIDE", "ROUND_END", "BCAST_PEDERSEN_H"}

// rawTo is malformed traffic to one of the daemons.
func (g *gen) rawTo() Step {
	dst := "C"
	if g.p(40) {
		dst = fmt.Sprintf("S%d", g.rangei(1, g.ns))
	}
	st := Step{Op: "raw", S: dst, I: g.n(17), N: int64(g.n(1 << 20))}
	if g.p(50) { // while an honest one is on its way
		types := serverTypes
		if dst == "C" {
			types = coordTypes
		}
		st.S += "/" + types[g.n(len(types))]
		st.M = int64(g.rangei(1, 3))
		st.I = []int{2, 3, 6, 6, 7, 7, 10, 10, 15, 16, 8, 12}[g.n(12)]
	}
	return st
}

var badCmds = []string{"", " ", "vote", "vote 0", "vote x 1", "vote 0 x", "vote -1 1", "vote 99 1", "vote 0 1 2 3", "vote 0 99999999999999999999", "post", "get", "get x", "get -3", "get 0", "get 99999999999999999999", "get 1 2", "foo", "vote  1", "post  x", "VOTE 0 1", "get  ", "\t", "post\tx", "get 3000000000", "éà", "vote 0  1"}

// attacks are the adversary's moves of one phase ("post", "req", "vote", "end").
func (g *gen) attacks(k int, ph string) []Step {
	var l []Step
	ei := g.rangei(1, max(1, g.evils))
	ms := g.members(k)
	add := func(s Step) { l = append(l, s) }
	switch g.prop {
	case "C01", "C02", "C03", "C14":
		if g.evils > 0 && k > 0 && g.p(25) {
			switch g.n(5) {
			case 4:
				add(Step{Op: "replay", S: "UPDATE_PEDERSEN_H", I: g.n(3), N: int64(g.n(2)), M: int64(ei)})
			case 3:
				add(evil(ei, "regserver", int64(g.rangei(1, g.ns)), int64(g.n(3))))
			case 0:
				add(evil(ei, "register", 0, 0))
			case 1:
				add(evil(ei, "hijack", int64(g.any(ms)), 0))
			case 2:
				add(Step{Op: "replay", S: g.pick("CLIENT_REGISTER_CONTROLLERSIDE", "CLIENT_REGISTER_SERVERSIDE"), I: g.n(3)})
			}
		}
		if g.evils > 0 && ph == "vote" && g.p(60) {
			kinds := []string{"good", "good", "over", "flip", "retarget", "stale"}
			add(evil(ei, "vote:"+kinds[g.n(len(kinds))], int64(g.n(3)), int64(g.n(2))))
		}
	case "C05":
		if ph == "post" || g.p(25) {
			for i := g.rangei(1, 5); i > 0 && g.evils > 0; i-- {
				add(evil(ei, "post:"+postKinds[g.n(len(postKinds))], int64(g.n(5)), int64(g.n(8))))
			}
			if g.p(30) {
				add(Step{Op: "replay", S: "POST_BRIDGE", I: g.n(6), N: int64(g.n(2)), M: int64(ei)})
			}
		}
	case "C06":
		if ph == "post" && g.p(30) { // so that the others can vote on it
			for i := g.rangei(1, 5); i > 0; i-- {
				add(evil(ei, "post:good", 0, 0))
			}
		}
		if ph == "req" || g.p(10) {
			for i := g.rangei(1, 5); i > 0; i-- {
				add(g.evilReq(ei, "req:"))
			}
			if g.p(25) {
				add(Step{Op: "replay", S: "REQUEST_BRIDGES", I: g.n(3), N: int64(g.n(2)), M: int64(ei)})
			}
		}
	case "C07":
		if k > 0 && ph == "post" && g.p(30) {
			if add(evil(ei, "register", 0, 0)); g.p(40) {
				add(evil(ei, "regserver", int64(g.rangei(1, g.ns)), int64(g.n(3))))
			}
		}
		if ph == "req" || g.p(20) {
			for i := g.rangei(2, 6); i > 0; i-- {
				add(g.evilReq(ei, "reqS:"))
			}
			if g.p(50) {
				add(evil(ei, "req:plain", int64(g.rangei(1, 5)), 0))
			}
		}
	case "C08":
		if g.lost && (k > 0 && ph == "post" || ph == "vote") { // late signatures
			for i := g.rangei(1, 4); i > 0; i-- {
				add(Step{Op: "replay", S: "GOT_SIGNS", I: g.n(4)})
			}
		}
		if (ph == "req" || ph == "vote") && g.p(60) {
			for i := g.rangei(1, 3); i > 0; i-- {
				add(Step{Op: "replay", S: g.pick("REQUEST_BRIDGES", "REQUEST_BRIDGES", "POST_BRIDGE"), I: g.n(4), N: int64(g.n(2)), M: int64(ei)})
			}
		}
		if ph == "req" && g.p(40) {
			add(evil(ei, "req:plain", int64(g.rangei(1, 6)), 0))
			if g.p(50) {
				add(evil(ei, "req:plain", int64(g.rangei(1, 6)), 0))
			}
		}
		if ph == "post" && g.p(30) {
			add(evil(ei, g.pick("post:good", "post:steal"), int64(g.n(5)), 0))
		}
	case "C09":
		if (ph == "req" || ph == "vote") && g.p(75) {
			kinds := []string{"spoof:coord", "spoof:coorddup", "spoof:coordempty", "spoof:coordpart", "spoof:unknown", "spoof:client", "spoof:clientzero"}
			for i := g.rangei(1, 4); i > 0; i-- {
				add(evil(ei, kinds[g.n(len(kinds))], int64(g.n(6)), int64(g.n(6))))
			}
		}
		if ph == "req" && g.p(40) {
			add(evil(ei, "req:plain", int64(g.rangei(1, 5)), 0))
		}
		if g.p(30) { // signatures that come again, late or after all
			for i := g.rangei(1, 4); i > 0; i-- {
				add(Step{Op: "replay", S: "GOT_SIGNS", I: g.n(4), N: int64(g.n(8) / 7), M: int64(ei)})
			}
		}
	case "C10":
		if ph == "req" {
			add(evil(ei, "req:plain", int64(g.rangei(1, 4)), 0))
		}
		if ph == "post" && g.p(40) {
			add(evil(ei, "post:good", 0, 0))
		}
		if ph == "vote" || ph == "end" && g.p(40) || g.p(10) {
			for i := g.rangei(2, 6); i > 0; i-- {
				add(evil(ei, "vote:"+voteKinds[g.n(len(voteKinds))], int64(g.n(5)), int64(g.n(6))))
			}
			if g.p(40) { // a refused vote does not use up the assignment
				n, m := int64(g.n(5)), int64(g.n(2))
				add(evil(ei, "vote:"+g.pick("dropsig", "swapsig", "repsig", "unsigned", "flip", "over", "swapnym"), n, m))
				add(evil(ei, "vote:good", n, m))
			}
			for i := g.n(3); i > 0; i-- {
				add(Step{Op: "replay", S: "VOTE", I: g.n(6)})
			}
		}
	case "C13":
		for i := g.n(4); i > 0; i-- {
			add(g.rawTo())
		}
		if len(ms) > 0 {
			for i := g.n(3); i > 0; i-- {
				add(cmd(g.any(ms), badCmds[g.n(len(badCmds))]))
			}
		}
	case "C04":
		if g.evils > 0 && g.p(30) {
			switch g.n(3) {
			case 0, 1:
				add(evil(ei, "regserver", int64(g.rangei(1, g.ns)), int64(g.n(3))))
			case 2:
				add(evil(ei, "register", 0, 0))
			}
		}
	case "C17":
		if len(ms) > 0 && g.p(35) { // another confirmation or answer at a later time
			i := g.any(ms)
			add(Step{Op: "conf", I: i, S: g.pick("other", "other", "alter", "alter", "again", "ansalter", "ansother", "ansagain"), N: int64(g.n(40)), M: int64(g.n(200))})
			if g.p(50) {
				add(Step{Op: "sleep", N: int64(g.rangei(50, 3000))})
			}
			if g.p(30) {
				add(Step{Op: "conf", I: i, S: g.pick("ansother", "ansagain", "ansalter"), N: int64(g.n(40)), M: int64(g.n(200))})
			}
			if g.p(70) {
				add(cmd(i, fmt.Sprintf("get %d", g.rangei(1, 4))))
			}
		}
	case "C18":
		if g.p(80) {
			kinds := []string{"chal:zero", "chal:one", "chal:rand", "chal:flip", "chal:rand", "chal:short", "chal:long", "chal:asother"}
			for i := g.rangei(1, 4); i > 0; i-- {
				add(evil(ei, kinds[g.n(len(kinds))], int64(g.n(1000)), int64(g.rangei(1, 480))))
			}
		}
		if g.p(25) {
			add(evil(ei, "register", 0, 0))
		}
		if g.p(25) {
			add(Step{Op: "replay", S: "GN_HONESTY_CHALLENGE", I: g.n(3), N: int64(g.n(2)), M: int64(ei)})
		}
	case "C19":
		switch ph {
		case "post":
			kinds := []string{"good", "unsigned", "emptysig", "badkey", "badbase", "foreign", "alter", "swapnym"}
			for i := g.rangei(1, 3); i > 0; i-- {
				add(evil(ei, "post:"+kinds[g.n(len(kinds))], int64(g.n(5)), int64(g.n(8))))
			}
		case "req":
			add(evil(ei, "req:plain", int64(g.rangei(1, 4)), 0))
			kinds := []string{"unsigned", "badkey", "bump"}
			add(evil(ei, "req:"+kinds[g.n(3)], int64(g.rangei(1, 3)), int64(g.n(4))))
			if g.p(40) {
				add(evil(ei, g.pick("spoof:coord", "spoof:coordpart", "spoof:client", "spoof:clientzero"), int64(g.n(6)), int64(g.n(6))))
			}
		case "vote":
			kinds := []string{"good", "fabricate", "fabzero", "fabsigned", "fabmix", "retarget", "dropsig", "swapsig", "repsig", "unsigned", "flip", "swapnym"}
			for i := g.rangei(1, 4); i > 0; i-- {
				add(evil(ei, "vote:"+kinds[g.n(len(kinds))], int64(g.n(5)), int64(g.n(6))))
			}
		}
	}
	return l
}

// tampers puts message faults on the network.
func (g *gen) tampers() {
	bin := []string{"flip", "zero", "trunc", "empty", "bump", "mul", "one"}
	switch g.prop {
	case "C05":
		g.pl.Tampers = append(g.pl.Tampers, Tamper{Type: "POST_BRIDGE", Src: "client", Dst: "coordinator", Mut: "shift"})
		for i := g.n(4); i > 0; i-- {
			g.tamper("POST_BRIDGE", "client", "coordinator", []string{"bridge_addr", "nym", "signature", "signature", ""}, "flip", "flip", "trunc", "empty", "mul", "bump", "dup", "drop", "cutmsg", "reset", "torn", "zero", "one", "shift")
		}
	case "C06":
		for i := g.n(4); i > 0; i-- {
			switch g.n(4) {
			case 0:
				g.tamper("REQUEST_BRIDGES", "client", "coordinator", []string{"ind"}, "inc", "inc", "set", "dec", "neg")
			case 1:
				g.tamper("REQUEST_BRIDGES", "client", "coordinator", nil, "dup", "drop", "torn", "cutmsg", "shift", "shift", "shift")
			default:
				g.tamper("REQUEST_BRIDGES", "client", "coordinator", []string{"nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_nonneg", "arg_nonneg", "arg_equal", "arg_equal", "signature"}, bin...)
			}
		}
	case "C07":
		for i := g.rangei(1, 4); i > 0; i-- {
			switch g.n(4) {
			case 0:
				g.tamper("SIGN_ASSIGNMENTS", "coordinator", "server", []string{"ind"}, "inc", "inc", "dec")
			default:
				g.tamper("SIGN_ASSIGNMENTS", "coordinator", "server", []string{"nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_nonneg", "arg_nonneg", "arg_equal", "arg_equal"}, bin...)
			}
		}
	case "C08":
		for i := g.n(3); i > 0; i-- {
			g.tamper(g.pick("REQUEST_BRIDGES", "REQUEST_BRIDGES", "POST_BRIDGE"), "client", "coordinator", nil, "dup")
		}
		if g.p(40) { // the answer does not get through
			g.tamper("GOT_SIGNS", "coordinator", "", nil, "torn", "drop")
		}
		if g.p(25) {
			g.tamper("SIGN_ASSIGNMENTS", "coordinator", "server", nil, "torn")
		}
		for i := 1; g.lost && i <= 3; i++ {
			g.tamper("GOT_SIGNS", "server", "coordinator", nil, "drop")
		}
	case "C09":
		for i := g.n(4); i > 0; i-- {
			switch g.n(4) {
			case 0:
				g.tamper("GOT_SIGNS", "server", "coordinator", nil, "dup", "drop")
			case 1:
				g.tamper("GOT_SIGNS", "coordinator", "client", []string{"signatures", "signature", "assignment"}, "flip", "sigswap", "sigdel", "trunc", "empty", "dup", "shift", "shift")
			default:
				g.tamper("GOT_SIGNS", "server", "coordinator", []string{"signatures", "signatures", "assignments", "success"}, "flip", "sigswap", "gobdel", "trunc", "empty", "not", "bump")
			}
		}
	case "C10":
		for i := g.n(4); i > 0; i-- {
			g.tamper("VOTE", "client", "coordinator", []string{"nym", "assignment", "signatures", "feedback", "feedback", "signature", ""}, "flip", "sigswap", "sigdel", "neg", "inc", "set", "dup", "dup", "trunc", "empty", "mul", "drop", "torn", "gobdel", "shift", "shift")
		}
	case "C16":
		restore := g.p(80)
		n := g.rangei(1, 2)
		if restore {
			n = g.rangei(2, 8)
		}
		for i := n; i > 0; i-- {
			typ := g.pick("ANNOUNCEMENT", "ROUND_END")
			nth := g.rangei(1, (g.ns-1)*(1+g.rounds))
			arg := int64(g.u() >> 40)
			one := func(f, mut string) {
				g.pl.Tampers = append(g.pl.Tampers, Tamper{Type: typ, Src: "server", Dst: "server", Nth: nth, Field: f, Mut: mut, Arg: arg, Restore: restore})
			}
			switch g.n(16) {
			case 12, 13, 14, 15:
				one(g.pick("link", "simple", "simple", "sigma", "weakfs", "xbar", "ybar"), "forge")
				continue
			case 9, 10, 11:
				one(g.pick("link", "simple", "simple", "sigma", "weakfs", "xbar", "ybar"), "forge")
				continue
			case 0:
				one("proof", g.pick("flip", "trunc", "empty", "empty", "del", "bump", "zero"))
			case 1, 2:
				one(g.pick("xbar", "ybar"), g.pick("listmul", "listswap", "listdel", "listdup", "listrep", "empty", "trunc"))
			case 3:
				one(g.pick("prev_keys", "prev_vals"), g.pick("listmul", "listswap", "listdel", "listdup", "listrep", "empty", "del"))
			case 4:
				one("public_key", g.pick("mul", "bump", "one", "flip", "del", "empty"))
				if g.p(50) { // nothing else fits either
					one(g.pick("xbar", "ybar", "proof"), g.pick("listmul", "listswap", "flip"))
				}
			case 5:
				one("shuffled", "del")
				if g.p(50) {
					one(g.pick("proof", "xbar"), "empty")
				} else {
					one(g.pick("xbar", "ybar", "prev_vals", "prev_keys"), g.pick("listmul", "listswap", "listrep"))
				}
			case 6:
				if typ == "ANNOUNCEMENT" {
					one("g", "del")
				} else {
					one("is_start", "add")
				}
				if g.p(60) {
					one("proof", g.pick("flip", "zero", "empty"))
				} else {
					one(g.pick("xbar", "ybar", "prev_vals", "prev_keys"), g.pick("listmul", "listswap", "listrep"))
				}
			case 7:
				one("shuffled", g.pick("del", "not"))
				if typ == "ROUND_END" {
					one("is_start", "add")
				} else {
					one("g", "del")
				}
				one(g.pick("xbar", "ybar", "prev_vals", "prev_keys"), g.pick("listmul", "listswap", "listrep"))
			case 8:
				one("proof", g.pick("flip", "zero", "bump"))
				one(g.pick("xbar", "ybar", "prev_vals"), g.pick("listmul", "listswap"))
			}
		}
	case "C17":
		for i := g.rangei(1, 2); i > 0; i-- {
			if g.p(50) {
				f := g.pick("g1", "g2", "g3", "g4", "g5", "g6", "h1", "honesty_prf", "honesty_prf", "n")
				mut := g.pick("bump", "flip", "bump", "mul")
				switch f {
				case "honesty_prf":
					mut = g.pick("int", "int", "gobdel", "empty", "trunc", "flip")
				case "n":
					mut = "bump"
				default:
					if mut == "mul" {
						mut = g.pick("zero", "one", "empty")
					}
				}
				g.pl.Tampers = append(g.pl.Tampers, Tamper{Type: "CLIENT_REGISTER_CONFIRMATION", Src: "coordinator", Dst: "client", Nth: g.rangei(1, g.nc), Field: f, Mut: mut, Arg: int64(g.u() >> 40)})
			} else {
				g.pl.Tampers = append(g.pl.Tampers, Tamper{Type: "GN_HONESTY_ANSWER", Src: "coordinator", Dst: "client", Nth: g.rangei(1, g.nc), Field: "honesty_ans", Mut: g.pick("int", "int", "int", "gobdel", "flip", "empty", "trunc", "drop", "torn"), Arg: int64(g.u() >> 40)})
			}
		}
	case "C13":
		for i := g.n(3); i > 0; i-- { // connections that break half-way
			if g.p(70) {
				g.tamper(g.pick("POST_BRIDGE", "REQUEST_BRIDGES", "VOTE"), "client", "coordinator", nil, "torn", "reset", "cutmsg", "drop")
			} else {
				g.tamper(g.pick("GOT_SIGNS", "GN_HONESTY_ANSWER", "CLIENT_REGISTER_CONFIRMATION"), "coordinator", "client", nil, "torn", "reset", "drop")
			}
		}
	case "C18":
		if g.p(50) { // the connection breaks while it answers
			g.pl.Tampers = append(g.pl.Tampers, Tamper{Type: "GN_HONESTY_ANSWER", Src: "coordinator", Nth: g.rangei(1, g.nc+3), Mut: g.pick("torn", "torn", "reset"), Arg: int64(g.u() >> 40)})
		}
	case "C19":
		for i := g.n(3); i > 0; i-- {
			typ := g.pick("POST_BRIDGE", "REQUEST_BRIDGES", "VOTE")
			g.tamper(typ, "client", "coordinator", []string{"signature"}, "flip", "trunc", "empty", "zero", "bump")
		}
		if g.p(30) {
			g.tamper("GOT_SIGNS", "server", "coordinator", []string{"signatures"}, "flip", "sigswap", "bump")
		}
		if g.p(30) {
			g.tamper("GOT_SIGNS", "coordinator", "client", []string{"signatures", "signature"}, "flip", "sigswap", "trunc")
		}
	}
	// duplicates everywhere a lossless network with retries may produce them
	if g.prop == "C11" || g.prop == "C12" {
		return
	}
}

// insert puts s at a random position not before lo.
func (g *gen) insert(lo int, s ...Step) {
	at := lo + g.n(len(g.pl.Steps)-lo+1)
	rest := append([]Step(nil), g.pl.Steps[at:]...)
	g.pl.Steps = append(append(g.pl.Steps[:at], s...), rest...)
}

// vanishing makes client i's host disappear just when it sends a message.
func (g *gen) vanishing(i int, name string, lo int) {
	g.insert(lo, Step{Op: "vanish", S: name, M: int64(1 + g.n(3))})
}

// servers15 starts servers in every possible order and overlap.
func (g *gen) servers15() {
	mode := g.n(4)
	for i := 1; i <= g.ns; i++ {
		g.add(Step{Op: "server", I: i})
		switch mode {
		case 0: // all at once
		case 1:
			g.sleep(0, 30)
		case 2:
			g.sleep(0, 1500)
		case 3:
			g.settle()
		}
	}
	switch {
	case mode == 3 || g.p(60):
		g.settle()
	default:
		g.sleep(0, 1500)
	}
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// Generate makes the case of a seed for a property.
func Generate(prop string, seed uint64, tier string) *Case {
	h := uint64(1469598103934665603)
	for _, c := range prop {
		h = (h ^ uint64(c)) * 1099511628211
	}
	c := &Case{Prop: prop, Seed: seed}
	g := &gen{rng: rng{s: rt.Mix(seed ^ h)}, prop: prop, pl: &c.Plan, late: map[int]int{}, lateAt: map[int]int{}}
	g.settled = g.p(45)
	g.ns = []int{1, 2, 2, 3, 3, 4}[g.n(6)]
	g.nc = []int{1, 2, 2, 3, 3, 4}[g.n(6)]
	g.rounds = []int{2, 2, 3, 3, 4}[g.n(5)]
	if tier == "thorough" && g.p(25) {
		g.rounds += g.rangei(1, 3)
		g.ns += g.n(3)
		g.nc += g.n(3)
	}
	if tier != "thorough" {
		switch g.n(24) { // a larger one now and then
		case 0:
			g.rounds += g.rangei(2, 3)
		case 1:
			g.ns += g.rangei(1, 3)
		case 2:
			g.nc += g.rangei(2, 4)
		case 3:
			switch g.n(3) {
			case 0:
				g.rounds, g.ns, g.nc = g.rangei(6, 9), g.rangei(1, 2), g.rangei(2, 3)
			case 1:
				g.ns, g.rounds = g.rangei(7, 9), 2
			case 2:
				g.nc, g.ns, g.rounds = g.rangei(8, 12), g.rangei(1, 2), g.rangei(2, 3)
			}
		}
	}
	hard := false
	if prop == "C08" {
		g.lost = g.p(25)
	}
	pr := profile{posts: 70, gets: 70, votes: 60}
	for i := 1; i <= g.nc; i++ {
		g.late[i], g.lateAt[i] = 0, 0
		if g.p(20) {
			g.late[i], g.lateAt[i] = g.n(g.rounds), g.n(4)
		}
	}
	big := 30
	switch prop {
	case "C01", "C02":
		big = 60
		g.evils = g.n(2)
		if g.nc < 2 && g.p(80) {
			g.nc = 2
		}
		if g.p(30) { // one reputation goes far up or down
			pr.mono = 1
			if g.p(65) {
				pr.mono = -1
			}
			g.nc, g.rounds = max(g.nc, 3), max(g.rounds, 4)
			g.late[1] = 0
		}
	case "C03", "C04":
		g.evils = g.n(2)
		if prop == "C04" {
			if g.p(50) { // many shuffles, little else
				pr = profile{20, 20, 20, false, 0}
				g.ns, g.rounds, g.evils = g.rangei(2, 4), g.rangei(3, 4), 0
			}
			if g.p(20) { // nobody yet when the first round ends
				for i := 1; i <= g.nc; i++ {
					g.late[i], g.lateAt[i] = max(g.late[i], 1), g.n(4)
				}
				g.rounds = max(g.rounds, 3)
			}
		}
	case "C05", "C06", "C08", "C09", "C10", "C18", "C19":
		g.evils = 1
		if g.p(20) {
			g.evils = 2
		}
		if g.nc < 2 && g.p(70) {
			g.nc = 2
		}
	case "C07":
		g.evils = 1
		if g.p(70) && g.ns < 2 {
			g.ns = 2
		}
	case "C11":
		hard = true
		if g.p(60) {
			g.settled = false
		}
	case "C12":
		if g.nc < 2 {
			g.nc = 2
		}
	case "C13":
	case "C14":
		hard = true
		g.evils = []int{0, 0, 0, 1}[g.n(4)]
		for i := 1; i <= g.nc; i++ {
			g.late[i], g.lateAt[i] = g.rangei(-1, g.rounds-1), g.n(4)
			if g.late[i] < 0 {
				g.lateAt[i] = g.n(2)
			}
		}
		if g.p(30) { // many at once
			k, ph := g.rangei(-1, g.rounds-1), g.n(4)
			if k < 0 {
				ph = 0
			}
			for n := g.nc + g.rangei(2, 4); g.nc < n; {
				g.nc++
				g.late[g.nc], g.lateAt[g.nc] = k, ph
			}
		}
	case "C15":
		hard = true
		g.ns = g.rangei(1, 5)
		if g.p(8) {
			g.ns = g.rangei(6, 9)
		}
		g.rounds = 2
	case "C16":
		g.ns = g.rangei(2, 4)
		g.rounds = g.rangei(2, 3)
		pr = profile{30, 30, 30, false, pr.mono}
		g.pl.Relax = []string{"rounds", "crash"}
	case "C17":
		pr = profile{40, 40, 20, false, pr.mono}
	}
	if g.late[1] > 0 && prop != "C14" && !(prop == "C04" || prop == "C11" || prop == "C03" || prop == "C02") {
		g.late[1], g.lateAt[1] = 0, 0
	}
	for i := 1; i <= g.nc; i++ {
		if _, ok := g.late[i]; !ok {
			g.late[i], g.lateAt[i] = 0, 0
		}
	}
	g.net(hard)
	if g.settled && g.p(50) {
		g.pl.Net.JitMs, g.pl.Net.Preempt, g.pl.Net.Slow = 20, 0, nil
	}
	if (g.p(10) || prop == "C15" && g.p(30)) && g.ns < 7 {
		for i := g.rangei(1, 4); i > 0; i-- {
			g.pl.Net.Busy = append(g.pl.Net.Busy, 12346+g.n(6))
		}
	}
	g.pl.Settled = g.settled

	g.config()
	for i := 1; i <= g.evils; i++ {
		g.add(Step{Op: "evil", I: i, S: "start"})
		g.settle()
	}
	for k := 0; k < g.rounds; k++ {
		if pr.big = g.p(big); pr.mono != 0 {
			pr.big = true
		}
		g.mark = append(g.mark, len(g.pl.Steps))
		if k == 0 {
			g.startLate(0, 0)
			if g.settled || g.p(60) {
				g.settle()
			} else {
				g.wait()
			}
		}
		l := g.honestPosts(k, pr)
		if k > 0 {
			g.startLate(k, 0)
		}
		l = g.shuffle(append(l, g.attacks(k, "post")...))
		g.phase(l)
		g.startLate(k, 1)
		l = g.honestGets(k, pr)
		l = g.shuffle(append(l, g.attacks(k, "req")...))
		g.phase(l)
		if g.p(15) { // votes before the operator opens voting
			g.phase(g.honestVotes(k, profile{votes: 30}))
		}
		g.add(Step{Op: "enter"})
		g.startLate(k, 2)
		if !g.settled && g.p(25) {
			g.phase(g.honestVotes(k, pr))
		} else {
			g.wait()
			l = g.honestVotes(k, pr)
			l = g.shuffle(append(l, g.attacks(k, "vote")...))
			if !g.settled && g.p(20) {
				l = append(l, g.honestPosts(k, profile{posts: 40})...)
				l = append(l, g.honestGets(k, profile{gets: 40})...)
			}
			g.phase(l)
		}
		g.add(Step{Op: "enter"})
		g.startLate(k, 3)
		if !g.settled {
			// operations while the round ends and the next is announced
			if g.p(45) {
				l = append(g.honestPosts(k, profile{posts: 40}), g.honestVotes(k, profile{votes: 30})...)
				l = append(l, g.honestGets(k, profile{gets: 30})...)
				l = g.shuffle(append(l, g.attacks(k, "end")...))
				if len(l) > 6 {
					l = l[:6]
				}
				for _, s := range l {
					g.add(s)
					g.sleep(0, 400)
				}
			}
			if g.p(70) {
				g.settle()
			} else {
				g.sleep(0, 5000)
			}
		} else {
			g.settle()
		}
	}
	g.tampers()
	g.special()
	return c
}

// special adds what only one property asks for.
func (g *gen) special() {
	switch g.prop {
	case "C12":
		// leave at least one client alone
		victims := g.rangei(1, g.nc-1)
		spare := g.rangei(1, g.nc)
		for i := 1; i <= g.nc && victims > 0; i++ {
			if i == spare || !g.p(75) {
				continue
			}
			victims--
			name := fmt.Sprintf("c%d", i)
			lo := 0
			for j, s := range g.pl.Steps {
				if s.Op == "client" && s.I == i {
					lo = j + 1
				}
			}
			switch g.n(7) {
			case 5:
				g.insert(lo, Step{Op: "vanish", S: name, N: int64(g.n(3000))})
			case 6: // while it is sending
				g.vanishing(i, name, lo)
			case 0: // right after it starts
				st := Step{Op: "kill", S: name, N: int64(g.rangei(1, 1500))}
				rest := append([]Step(nil), g.pl.Steps[lo:]...)
				g.pl.Steps = append(append(g.pl.Steps[:lo], st), rest...)
			case 1:
				g.insert(lo, cmd(i, "exit"))
			case 2:
				g.insert(lo, Step{Op: "cut", S: name, N: int64(g.n(2))})
			default:
				g.insert(lo, Step{Op: "kill", S: name, N: int64(g.n(3000))})
			}
		}
	case "C13":
		for i := g.rangei(0, 3); i > 0; i-- {
			g.insert(1, g.rawTo())
		}
	case "C15":
		if g.p(60) { // a server that comes too late
			n := g.ns + 1
			st := Step{Op: "server", I: n}
			if g.p(50) {
				rest := append([]Step(nil), g.pl.Steps[g.end0-1:]...)
				g.pl.Steps = append(append(g.pl.Steps[:g.end0-1], st), rest...)
			} else {
				g.insert(g.end0-1, st)
			}
		}
		if g.p(50) { // a base update that arrives again
			for i := g.rangei(1, 3); i > 0; i-- {
				st := Step{Op: "replay", S: "UPDATE_PEDERSEN_H", I: g.n(3), N: int64(g.n(2))}
				if g.p(25) {
					g.insert(g.end0, st)
					continue
				}
				at := 2 + g.n(max(1, g.end0-1))
				g.pl.Steps = append(g.pl.Steps[:at:at], append([]Step{st}, g.pl.Steps[at:]...)...)
				g.end0++
			}
		}
	case "C18":
		if g.p(30) {
			g.insert(g.end0, evil(1, "register", 0, 0))
		}
	}
}
