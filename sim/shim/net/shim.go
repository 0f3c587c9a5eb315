// Package net is the simulated TCP network behind the API of package net.
package net

import (
	"errors"
	"fmt"
	"io"
	real "net"
	"time"
	"verifsim/rt"
)

type TCPConn struct{ e *rt.Endpoint }

func (c *TCPConn) Read(b []byte) (int, error)         { return c.e.Read(b) }
func (c *TCPConn) Write(b []byte) (int, error)        { return c.e.Write(b) }
func (c *TCPConn) Close() error                       { return c.e.Close() }
func (c *TCPConn) CloseWrite() error                  { return c.e.CloseWrite() }
func (c *TCPConn) CloseRead() error                   { return nil }
func (c *TCPConn) LocalAddr() real.Addr               { return c.e.LocalAddr() }
func (c *TCPConn) RemoteAddr() real.Addr              { return c.e.RemoteAddr() }
func (c *TCPConn) SetDeadline(t time.Time) error      { c.e.SetReadDeadline(t); return nil }
func (c *TCPConn) SetReadDeadline(t time.Time) error  { c.e.SetReadDeadline(t); return nil }
func (c *TCPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *TCPConn) SetLinger(int) error                { return nil }
func (c *TCPConn) SetKeepAlive(bool) error            { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error {
	return nil
}
func (c *TCPConn) SetNoDelay(bool) error    { return nil }
func (c *TCPConn) SetReadBuffer(int) error  { return nil }
func (c *TCPConn) SetWriteBuffer(int) error { return nil }
func (c *TCPConn) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{c}, r)
}

type TCPListener struct{ l *rt.Listener }

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	e, err := l.l.Accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{e}, nil
}
func (l *TCPListener) Accept() (real.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (l *TCPListener) Close() error                  { return l.l.Close() }
func (l *TCPListener) Addr() real.Addr               { return l.l.Addr() }
func (l *TCPListener) SetDeadline(t time.Time) error { return l.l.SetDeadline(t) }

func okNet(network string) error {
	switch network {
	case "tcp", "tcp4", "tcp6":
		return nil
	}
	return real.UnknownNetworkError(network)
}

func ListenTCP(network string, laddr *real.TCPAddr) (*TCPListener, error) {
	if err := okNet(network); err != nil {
		return nil, err
	}
	l, err := rt.Listen(laddr)
	if err != nil {
		return nil, err
	}
	return &TCPListener{l}, nil
}

func Listen(network, address string) (real.Listener, error) {
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, err
	}
	l, err := ListenTCP(network, a)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func dial(network string, raddr *real.TCPAddr, timeout time.Duration) (*TCPConn, error) {
	if err := okNet(network); err != nil {
		return nil, err
	}
	e, err := rt.Dial(raddr, int64(timeout), nil)
	if err != nil {
		return nil, err
	}
	return &TCPConn{e}, nil
}

func DialTCP(network string, laddr, raddr *real.TCPAddr) (*TCPConn, error) {
	return dial(network, raddr, 0)
}

func Dial(network, address string) (real.Conn, error) { return DialTimeout(network, address, 0) }

func DialTimeout(network, address string, timeout time.Duration) (real.Conn, error) {
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, err
	}
	c, err := dial(network, a, timeout)
	if err != nil {
		return nil, err
	}
	return c, nil
}

type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr real.Addr
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (real.Conn, error) {
	return DialTimeout(network, address, d.Timeout)
}

// ResolveTCPAddr never asks a name server.
func ResolveTCPAddr(network, address string) (*real.TCPAddr, error) {
	if err := okNet(network); err != nil {
		return nil, err
	}
	host, port, err := real.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	if host == "localhost" {
		address = "127.0.0.1:" + port
	} else if host != "" && real.ParseIP(host) == nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: &real.DNSError{Err: "no such host", Name: host, IsNotFound: true}}
	}
	for _, c := range port {
		if c < '0' || c > '9' {
			return nil, &real.OpError{Op: "dial", Net: network, Err: errors.New(fmt.Sprintf("lookup tcp/%s: unknown port", port))}
		}
	}
	return real.ResolveTCPAddr(network, address)
}

func LookupHost(host string) ([]string, error) { return nil, errors.New("no resolver") }
func LookupIP(host string) ([]real.IP, error)  { return nil, errors.New("no resolver") }
func InterfaceAddrs() ([]real.Addr, error)     { return nil, nil }
