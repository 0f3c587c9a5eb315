package rt

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"
)

// Msg is one TCP connection opened by a simulated process (the protocol sends
// one message per connection): everything its opener wrote.
type Msg struct {
	ID       int
	Src      *Proc
	SrcName  string
	Dst      *Proc
	DstName  string
	DstAddr  string
	N        int // n-th connection from Src to Dst
	Bytes    []byte
	Orig     []byte // what was written, when altered on the way
	Altered  string
	Fate     string // "", refused, timeout, dropped, truncated, reset, backlog
	DialSeq  uint64
	SentSeq  uint64 // opener closed
	SentAt   int64
	AccSeq   uint64 // receiver accepted
	EOFSeq   uint64 // receiver saw the end of data
	EOFAt    int64
	DoneSeq  uint64 // receiver went back to accepting
	Decoded  interface{}
	DecodeOK bool
	Inject   string // set for messages produced by an adversary
}

type NetState struct {
	w         *World
	listeners []*Listener
	nextPort  int
	conns     int
	inflight  int

	LatBase  int64
	LatJit   int64
	SlowLink func(src, dst *Proc) int64
	ChunkPct int
	SlowAcc  int
	// Intercept is asked for every connection opened by a simulated process
	// when all of its data is known; it may change the data or its fate.
	Intercept func(m *Msg) // sets m.Bytes / m.Fate
	// Tear says after how many bytes the connection breaks in the middle of a
	// write, which fails (-1: it does not).
	Tear func(m *Msg, b []byte) int
	// DialFault is asked before a connection attempt ("" ok, refused, timeout).
	DialFault func(src *Proc, dst *Proc, addr string) string
	OnDone    func(m *Msg)
	BusyPorts map[int]bool
}

func (n *NetState) init(w *World) {
	n.w = w
	n.nextPort = 40000
	n.LatBase = 200 * Microsecond
	n.BusyPorts = map[int]bool{}
}

// ephemeral picks the port the system hands out when none is asked for: mostly
// the next one, sometimes any, sometimes one that looks much like an earlier
// one (addresses that differ in one digit or one byte only).
func (n *NetState) ephemeral(next int) int {
	return int(n.w.D.choose("port/"+itoa(next), int64(next), func(h uint64) int64 {
		k := int64(h>>8) & 0xffff
		switch h % 8 {
		case 0, 1:
			return 32768 + k%28232
		case 2, 3, 4:
			if len(n.listeners) == 0 {
				break
			}
			p := int64(n.listeners[int(k)%len(n.listeners)].port)
			if p < 20000 {
				break
			}
			d := []int64{1000, 100, 10, 256, 10000}[(h>>24)%5] * (1 + int64(h>>32)%6)
			if p += d; p < 61000 {
				return p
			} else if p -= 2 * d; p > 20000 {
				return p
			}
		}
		return int64(next)
	}))
}

func (n *NetState) taken(port int) bool {
	for _, l := range n.listeners {
		if l.port == port {
			return true
		}
	}
	return false
}

// how long the system tries to connect to a host that does not answer, and to
// reach the other end of an open connection
const (
	connectTimeout   = 130 * Second
	keepaliveTimeout = 150 * Second
)

type Listener struct {
	w      *World
	p      *Proc
	ip     net.IP
	port   int
	queue  []*Endpoint
	wl     WaitList
	closed bool
	dl     int64
}

type Endpoint struct {
	w       *World
	p       *Proc
	peer    *Endpoint
	m       *Msg
	opener  bool
	laddr   *net.TCPAddr
	raddr   *net.TCPAddr
	rbuf    []byte
	eof     bool
	rerr    error
	wl      WaitList
	closed  bool
	wclosed bool
	werr    error
	pending []byte // written, held until close when intercepting
	lastDel int64
	dl      int64
	nread   int
	hold    bool
}

func opErr(op string, addr net.Addr, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: addr, Err: err}
}

func sysErr(call string, e syscall.Errno) error { return os.NewSyscallError(call, e) }

func anyIP(ip net.IP) bool { return ip == nil || ip.IsUnspecified() || len(ip) == 0 }

func sameHost(l, r net.IP) bool {
	if anyIP(l) {
		return anyIP(r) || r.IsLoopback()
	}
	if anyIP(r) {
		return l.IsLoopback()
	}
	return l.Equal(r)
}

// Listen binds a listener for the current process.
func Listen(addr *net.TCPAddr) (*Listener, error) {
	t := Cur()
	if t == nil {
		return nil, errors.New("listen outside of the simulation")
	}
	w := t.p.w
	n := &w.Net
	var ip net.IP
	port := 0
	if addr != nil {
		ip, port = addr.IP, addr.Port
	}
	if port == 0 {
		for {
			n.nextPort++
			port = n.ephemeral(n.nextPort)
			if !n.BusyPorts[port] && !n.taken(port) {
				break
			}
		}
	} else if port < 0 || port > 65535 {
		return nil, opErr("listen", addr, &net.AddrError{Err: "invalid port", Addr: fmt.Sprint(port)})
	} else {
		if n.BusyPorts[port] {
			w.Probe["net.busyport"]++
			return nil, opErr("listen", addr, sysErr("bind", syscall.EADDRINUSE))
		}
		for _, l := range n.listeners {
			if !l.closed && l.port == port && (anyIP(l.ip) || anyIP(ip) || l.ip.Equal(ip)) {
				w.Probe["net.addrinuse"]++
				return nil, opErr("listen", addr, sysErr("bind", syscall.EADDRINUSE))
			}
		}
	}
	l := &Listener{w: w, p: t.p, ip: ip, port: port}
	n.listeners = append(n.listeners, l)
	t.p.lns = append(t.p.lns, l)
	w.Touch()
	return l, nil
}

func (l *Listener) Addr() *net.TCPAddr {
	ip := l.ip
	if ip == nil {
		ip = net.IPv6unspecified
	}
	return &net.TCPAddr{IP: ip, Port: l.port}
}

func (l *Listener) Close() error {
	if l.closed {
		return opErr("close", l.Addr(), net.ErrClosed)
	}
	l.closed = true
	for _, e := range l.queue {
		e.reset()
	}
	l.queue = nil
	l.wl.WakeAll()
	return nil
}

func (l *Listener) SetDeadline(t time.Time) error { l.dl = toVirtual(l.w, t); return nil }

func (l *Listener) Accept() (*Endpoint, error) {
	defer Acq("net")
	t := Cur()
	w := l.w
	if t.lastConn != nil && t.lastConn.m != nil {
		m := t.lastConn.m
		if m.DoneSeq == 0 {
			m.DoneSeq = w.Stamp()
			if w.Net.OnDone != nil {
				w.Net.OnDone(m)
			}
		}
		t.lastConn = nil
	}
	for {
		if l.closed {
			return nil, opErr("accept", l.Addr(), net.ErrClosed)
		}
		if len(l.queue) > 0 {
			e := l.queue[0]
			l.queue = l.queue[1:]
			e.p = t.p
			t.p.eps = append(t.p.eps, e)
			e.m.AccSeq = w.Stamp()
			t.lastConn = e
			w.hash(HashStr("acc"), uint64(t.p.ID), uint64(w.Now), uint64(e.m.ID))
			w.Touch()
			if t.p.Slow > 0 {
				d := w.D.choose("slow/"+t.p.Name+"/"+itoa(e.m.ID), 0, func(h uint64) int64 { return int64(h % uint64(t.p.Slow+1)) })
				if d > 0 {
					t.sleepBusy(d)
				}
			}
			return e, nil
		}
		if l.dl != 0 {
			if l.dl <= w.Now {
				return nil, opErr("accept", l.Addr(), os.ErrDeadlineExceeded)
			}
			l.wl.WaitTimeout("accept", l.dl-w.Now)
		} else {
			l.wl.Wait("accept")
		}
	}
}

// Listening says whether p has an open listener.
func (n *NetState) Listening(p *Proc) bool {
	for _, l := range n.listeners {
		if l.p == p && !l.closed {
			return true
		}
	}
	return false
}

func (n *NetState) find(ip net.IP, port int) *Listener {
	for _, l := range n.listeners {
		if !l.closed && l.port == port && !l.p.Dead && sameHost(l.ip, ip) {
			return l
		}
	}
	return nil
}

func (n *NetState) latency(src *Proc, dst string, k int) int64 {
	w := n.w
	lat := n.LatBase
	if n.LatJit > 0 {
		lat += w.D.choose(fmt.Sprintf("lat/%s>%s/%d", src.Name, dst, k), 0, func(h uint64) int64 {
			// mostly short, sometimes the full jitter
			j := n.LatJit
			if h%4 != 0 {
				j /= 20
			}
			return int64((h>>4)%uint64(j+1)) / 1000 * 1000
		})
	}
	return lat
}

// DialInfo lets adversaries label their connections.
type DialInfo struct {
	Inject string
}

// Dial opens a connection from the current process.
func Dial(raddr *net.TCPAddr, timeout int64, info *DialInfo) (*Endpoint, error) {
	Rel("net")
	t := Cur()
	if t == nil {
		return nil, errors.New("dial outside of the simulation")
	}
	w := t.p.w
	n := &w.Net
	if raddr == nil {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("missing address")}
	}
	if raddr.Port <= 0 || raddr.Port > 65535 {
		return nil, opErr("dial", raddr, &net.AddrError{Err: "invalid port", Addr: fmt.Sprint(raddr.Port)})
	}
	p := t.p
	l := n.find(raddr.IP, raddr.Port)
	dstName := raddr.String()
	var dst *Proc
	if l != nil {
		dst = l.p
		dstName = dst.Name
	}
	p.dialSeq[dstName]++
	m := &Msg{ID: len(w.Msgs) + 1, Src: p, SrcName: p.Name, Dst: dst, DstName: dstName, DstAddr: raddr.String(), N: p.dialSeq[dstName], DialSeq: w.Stamp(), SentAt: w.Now}
	if info != nil {
		m.Inject = info.Inject
	}
	w.Msgs = append(w.Msgs, m)
	lat := n.latency(p, dstName, m.N)
	if dst != nil && n.SlowLink != nil {
		lat += n.SlowLink(p, dst)
	}
	w.hash(HashStr("dial"), uint64(p.ID), uint64(w.Now), HashStr(dstName))
	w.Touch()
	fault := ""
	if n.DialFault != nil {
		fault = n.DialFault(p, dst, raddr.String())
	}
	switch fault {
	case "timeout":
		d := connectTimeout
		if timeout > 0 && timeout < d {
			d = timeout
		}
		t.sleepBusy(d)
		m.Fate = "timeout"
		return nil, opErr("dial", raddr, sysErr("connect", syscall.ETIMEDOUT))
	case "refused":
		t.sleepBusy(lat)
		m.Fate = "refused"
		return nil, opErr("dial", raddr, sysErr("connect", syscall.ECONNREFUSED))
	}
	t.sleepBusy(lat)
	l = n.find(raddr.IP, raddr.Port)
	if l == nil && dst != nil && dst.Vanished {
		t.sleepBusy(connectTimeout)
		m.Fate = "timeout"
		return nil, opErr("dial", raddr, sysErr("connect", syscall.ETIMEDOUT))
	}
	if l == nil {
		m.Fate = "refused"
		w.Probe["net.refused"]++
		return nil, opErr("dial", raddr, sysErr("connect", syscall.ECONNREFUSED))
	}
	m.Dst = l.p
	m.DstName = l.p.Name
	n.nextPort++
	la := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 50000 + (n.nextPort*7)%15000}
	a := &Endpoint{w: w, p: p, m: m, opener: true, laddr: la, raddr: raddr}
	b := &Endpoint{w: w, m: m, laddr: l.Addr(), raddr: la}
	a.peer, b.peer = b, a
	a.hold = n.Intercept != nil
	p.eps = append(p.eps, a)
	l.queue = append(l.queue, b)
	l.wl.WakeOne()
	return a, nil
}

func (e *Endpoint) deliver(data []byte) {
	w := e.w
	peer := e.peer
	at := w.Now + w.Net.LatBase
	if at < e.lastDel {
		at = e.lastDel
	}
	chunks := [][]byte{data}
	if w.Net.ChunkPct > 0 && len(data) > 1 {
		k := w.D.choose(fmt.Sprintf("chunk/%s>%s/%d/%d", e.m.SrcName, e.m.DstName, e.m.N, e.nread), 0, func(h uint64) int64 {
			if int(h%100) >= w.Net.ChunkPct {
				return 0
			}
			return int64((h>>8)%uint64(len(data)-1)) + 1
		})
		e.nread++
		if k > 0 && int(k) < len(data) {
			chunks = [][]byte{data[:k], data[k:]}
		}
	}
	for i, c := range chunks {
		c := append([]byte(nil), c...)
		if i > 0 {
			at += w.D.choose(fmt.Sprintf("chunkgap/%s>%s/%d", e.m.SrcName, e.m.DstName, e.m.N), Millisecond, func(h uint64) int64 {
				if h%5 == 0 {
					return int64((h>>8)%5000) * Millisecond
				}
				return int64((h>>8)%40+1) * Millisecond
			})
		}
		w.At(at, func() {
			if peer.closed || peer.rerr != nil {
				return
			}
			peer.rbuf = append(peer.rbuf, c...)
			peer.wl.WakeAll()
		})
	}
	e.lastDel = at
}

func (e *Endpoint) Write(b []byte) (int, error) {
	Rel("net")
	w := e.w
	if e.closed || e.wclosed {
		return 0, opErr("write", e.raddr, net.ErrClosed)
	}
	if e.werr != nil {
		return 0, opErr("write", e.raddr, e.werr)
	}
	if e.opener {
		e.m.Bytes = append(e.m.Bytes, b...)
	}
	w.Touch()
	if e.opener && e.hold {
		if w.Net.Tear != nil {
			if n := w.Net.Tear(e.m, b); n >= 0 && n <= len(b) {
				e.m.Orig = e.m.Bytes
				e.m.Bytes = append(append([]byte(nil), e.pending...), b[:n]...)
				e.m.Fate, e.m.Altered = "reset", "torn"
				e.pending = append(e.pending, b[:n]...)
				e.werr = sysErr("write", syscall.EPIPE)
				return n, opErr("write", e.raddr, sysErr("write", syscall.EPIPE))
			}
		}
		e.pending = append(e.pending, b...)
		return len(b), nil
	}
	e.deliver(b)
	return len(b), nil
}

func (e *Endpoint) finishWrite() {
	if e.wclosed {
		return
	}
	e.wclosed = true
	w := e.w
	if e.opener {
		e.m.SentSeq = w.Stamp()
		e.m.SentAt = w.Now
		w.hash(HashStr("sent"), uint64(e.m.ID), uint64(w.Now), HashStr(string(e.m.Bytes)))
		if e.hold {
			orig := e.pending
			if e.m.Altered != "torn" {
				if w.Net.Intercept != nil {
					w.Net.Intercept(e.m)
				}
				if e.m.Altered != "" {
					e.m.Orig = orig
				}
			}
			switch e.m.Fate {
			case "dropped": // connection breaks before any data arrives
				e.resetPeer()
				return
			case "silent": // the sender's host is gone before all of it is under way
				e.goSilent()
				return
			case "reset": // data cut, then reset
				e.deliver(e.m.Bytes)
				e.resetPeer()
				return
			case "stalled": // data arrives, the end does not for a long time
				e.deliver(e.m.Bytes)
				e.lastDel += 20 * Second
			default:
				if len(e.m.Bytes) > 0 {
					e.deliver(e.m.Bytes)
				}
			}
			e.pending = nil
		}
	}
	peer := e.peer
	at := w.Now + w.Net.LatBase
	if at < e.lastDel {
		at = e.lastDel
	}
	w.At(at, func() {
		peer.eof = true
		peer.wl.WakeAll()
	})
}

func (e *Endpoint) CloseWrite() error {
	Rel("net")
	if e.closed {
		return opErr("close", e.raddr, net.ErrClosed)
	}
	e.finishWrite()
	return nil
}

func (e *Endpoint) Close() error {
	Rel("net")
	if e.closed {
		return opErr("close", e.raddr, net.ErrClosed)
	}
	e.finishWrite()
	e.closed = true
	if t := Cur(); t != nil && t.lastConn == e {
		// handler closed its connection; completion is still the next accept
	}
	e.wl.WakeAll()
	return nil
}

// Abort breaks the connection (RST).
func (e *Endpoint) Abort() {
	if e.opener && e.m.Fate == "" && !e.wclosed {
		e.m.Fate = "aborted"
		e.m.SentSeq = e.w.Stamp()
	}
	if e.hold && len(e.pending) > 0 && !e.wclosed {
		e.deliver(e.pending)
		e.pending = nil
	}
	e.closed, e.wclosed = true, true
	e.resetPeer()
}

// goSilent loses the end of what is under way; the peer's system notices that
// nobody is there any more when its probes remain unanswered.
func (e *Endpoint) goSilent() {
	w := e.w
	if e.hold && len(e.pending) > 0 {
		k := w.D.choose(fmt.Sprintf("prefix/%s>%s/%d", e.m.SrcName, e.m.DstName, e.m.N), 0, func(h uint64) int64 { return int64(h % uint64(len(e.pending)+1)) })
		if k > 0 && int(k) <= len(e.pending) {
			e.deliver(e.pending[:k])
		}
		e.pending = nil
	}
	peer := e.peer
	w.At(maxi(w.Now, e.lastDel)+keepaliveTimeout, func() {
		if peer.rerr == nil && !peer.eof {
			peer.rerr = sysErr("read", syscall.ETIMEDOUT)
		}
		peer.wl.WakeAll()
	})
}

// Silence leaves the connection open for good: the opener's host is gone.
func (e *Endpoint) Silence() {
	if !e.wclosed {
		e.m.Fate = "silent"
		e.m.SentSeq = e.w.Stamp()
	}
	e.closed, e.wclosed = true, true
	e.goSilent()
}

func (e *Endpoint) resetPeer() {
	peer := e.peer
	w := e.w
	at := w.Now + w.Net.LatBase
	if at < e.lastDel {
		at = e.lastDel
	}
	w.At(at, func() { peer.reset() })
}

func (e *Endpoint) reset() {
	if e.rerr == nil && !e.eof {
		e.rerr = sysErr("read", syscall.ECONNRESET)
	}
	e.werr = sysErr("write", syscall.EPIPE)
	e.wl.WakeAll()
}

func (e *Endpoint) Read(b []byte) (int, error) {
	defer Acq("net")
	w := e.w
	if len(b) == 0 {
		return 0, nil
	}
	for {
		if e.closed {
			return 0, opErr("read", e.raddr, net.ErrClosed)
		}
		if len(e.rbuf) > 0 {
			n := copy(b, e.rbuf)
			e.rbuf = e.rbuf[n:]
			return n, nil
		}
		if e.rerr != nil {
			return 0, opErr("read", e.raddr, e.rerr)
		}
		if e.eof {
			if !e.opener && e.m.EOFSeq == 0 {
				e.m.EOFSeq = w.Stamp()
				e.m.EOFAt = w.Now
				w.hash(HashStr("eof"), uint64(e.m.ID), uint64(w.Now))
				w.Touch()
			}
			return 0, io.EOF
		}
		if e.dl != 0 {
			if e.dl <= w.Now {
				return 0, opErr("read", e.raddr, os.ErrDeadlineExceeded)
			}
			e.wl.WaitTimeout("read", e.dl-w.Now)
		} else {
			e.wl.Wait("read")
		}
	}
}

func (e *Endpoint) LocalAddr() *net.TCPAddr     { return e.laddr }
func (e *Endpoint) RemoteAddr() *net.TCPAddr    { return e.raddr }
func (e *Endpoint) SetReadDeadline(t time.Time) { e.dl = toVirtual(e.w, t); e.wl.WakeAll() }
func (e *Endpoint) Msg() *Msg                   { return e.m }

// Epoch is the simulated wall clock's origin.
var Epoch = time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)

func toVirtual(w *World, t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	v := int64(t.Sub(Epoch))
	if v <= 0 {
		v = 1
	}
	return v
}

func (n *NetState) procGone(p *Proc) {
	for _, l := range p.lns {
		if !l.closed {
			l.closed = true
			for _, e := range l.queue {
				if !p.Vanished {
					e.peer.reset()
				}
			}
		}
	}
	for _, e := range p.eps {
		if e.closed {
			continue
		}
		if e.opener && !e.wclosed {
			e.m.Fate = "cut"
			e.m.SentSeq = n.w.Stamp()
			if p.Vanished {
				n.w.Probe["net.halfopen"]++
				e.wclosed, e.closed = true, true
				e.goSilent()
				continue
			}
			if e.hold && len(e.pending) > 0 {
				e.deliver(e.pending)
			}
			// the kernel closes the socket: what was written arrives, then EOF
			e.wclosed = true
			peer := e.peer
			n.w.At(maxi(n.w.Now+n.LatBase, e.lastDel), func() { peer.eof = true; peer.wl.WakeAll() })
		}
		e.closed = true
		if !e.opener && !p.Vanished {
			e.peer.reset()
		}
	}
}

func maxi(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// ListenerAt finds the process listening on a port (harness use).
func (n *NetState) ProcAt(port int) *Proc {
	for _, l := range n.listeners {
		if !l.closed && l.port == port && !l.p.Dead {
			return l.p
		}
	}
	return nil
}

// PortOf is the port of p's first open listener (0 if none).
func (n *NetState) PortOf(p *Proc) int {
	for _, l := range p.lns {
		if !l.closed {
			return l.port
		}
	}
	if len(p.lns) > 0 {
		return p.lns[0].port
	}
	return 0
}
