// Package net models the network: connections are byte buffers prepared and
// inspected by the harness.
package net

import (
	"errors"
	"io"
	"net"
	"time"
)

// Pipe is one connection as seen by the code under test.
type Pipe struct {
	In  []byte // what the peer sends, then the end of the stream
	Out []byte // what was written
	// Faults: a read or write error, if any, after the given number of bytes.
	ReadErr, WriteErr error
	ReadAt, WriteAt   int
	Writes            int // calls of Write
	Closes            int
	HalfClosed        bool
	Deadline          int // times a deadline was set
	// OnWrite is called with every block written.
	OnWrite func([]byte)
	// OnClose is called when the connection is closed.
	OnClose func()
	pos     int
}

var errClosed = errors.New("use of closed connection")

// Read reads from the peer.
func (p *Pipe) Read(b []byte) (int, error) {
	if p.Closes > 0 {
		return 0, errClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	end := len(p.In)
	if p.ReadErr != nil && p.ReadAt < end {
		end = p.ReadAt
	}
	if p.pos >= end {
		if p.ReadErr != nil {
			return 0, p.ReadErr
		}
		return 0, io.EOF
	}
	n := copy(b, p.In[p.pos:end])
	p.pos += n
	return n, nil
}

// Write sends to the peer.
func (p *Pipe) Write(b []byte) (int, error) {
	if p.Closes > 0 {
		return 0, errClosed
	}
	p.Writes++
	if p.WriteErr != nil {
		n := p.WriteAt
		if n > len(b) {
			n = len(b)
		}
		p.Out = append(p.Out, b[:n]...)
		return n, p.WriteErr
	}
	p.Out = append(p.Out, b...)
	if p.OnWrite != nil {
		p.OnWrite(b)
	}
	return len(b), nil
}

// Close ends the connection.
func (p *Pipe) Close() error {
	p.Closes++
	if p.OnClose != nil && p.Closes == 1 {
		p.OnClose()
	}
	if p.Closes > 1 {
		return errClosed
	}
	return nil
}

// CloseWrite ends the outgoing stream.
func (p *Pipe) CloseWrite() error {
	p.HalfClosed = true
	return nil
}

type addr struct{ n, s string }

func (a addr) Network() string { return a.n }
func (a addr) String() string  { return a.s }

func (p *Pipe) LocalAddr() net.Addr                { return addr{"tcp", "local"} }
func (p *Pipe) RemoteAddr() net.Addr               { return addr{"tcp", "remote"} }
func (p *Pipe) SetDeadline(t time.Time) error      { p.Deadline++; return nil }
func (p *Pipe) SetReadDeadline(t time.Time) error  { p.Deadline++; return nil }
func (p *Pipe) SetWriteDeadline(t time.Time) error { p.Deadline++; return nil }

// UnixConn is a Unix connection.
type UnixConn struct{ *Pipe }

// TCPConn is a TCP connection.
type TCPConn struct{ *Pipe }

// Dials records the addresses that were dialled.
var Dials []string

// OnDial answers a dial: the connection, or an error.
var OnDial = func(network, address string) (*Pipe, error) {
	return nil, errors.New("connection refused")
}

func dial(network, address string) (*Pipe, error) {
	Dials = append(Dials, network+" "+address)
	return OnDial(network, address)
}

// Dial connects.
func Dial(network, address string) (net.Conn, error) {
	p, err := dial(network, address)
	if err != nil {
		return nil, err
	}
	if network == "unix" {
		return &UnixConn{p}, nil
	}
	return &TCPConn{p}, nil
}

// DialTimeout connects.
func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

// DialUnix connects.
func DialUnix(network string, laddr, raddr *net.UnixAddr) (*UnixConn, error) {
	p, err := dial(network, raddr.Name)
	if err != nil {
		return nil, err
	}
	return &UnixConn{p}, nil
}

// DialTCP connects.
func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	p, err := dial(network, tcpName(raddr))
	if err != nil {
		return nil, err
	}
	return &TCPConn{p}, nil
}

// lst is a listener fed by the harness.
type lst struct {
	Address string
	Network string
	// Conns delivers the connections; a nil one is a failure of Accept.
	Conns    chan *Pipe
	expired  chan struct{}
	Expired  bool
	Closed   bool
	Accepted int
}

// TCPListener is a TCP listener.
type TCPListener struct{ *lst }

// UnixListener is a Unix listener.
type UnixListener struct{ *lst }

// Listeners lists the listeners that were created.
var Listeners []*lst

// ListenErr is what listening reports.
var ListenErr error

func listen(network, address string) (*lst, error) {
	if ListenErr != nil {
		return nil, ListenErr
	}
	l := &lst{Address: address, Network: network, Conns: make(chan *Pipe, 8), expired: make(chan struct{})}
	Listeners = append(Listeners, l)
	return l, nil
}

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

var errAccept = errors.New("accept failed")

func (l *lst) accept() (*Pipe, error) {
	if l.Closed {
		return nil, &net.OpError{Op: "accept", Net: l.Network, Err: errClosed}
	}
	select {
	case <-l.expired:
		return nil, &net.OpError{Op: "accept", Net: l.Network, Err: timeout{}}
	case p := <-l.Conns:
		l.Accepted++
		if p == nil {
			return nil, &net.OpError{Op: "accept", Net: l.Network, Err: errAccept}
		}
		return p, nil
	}
}

func (l *lst) Close() error {
	l.Closed = true
	return nil
}

func (l *lst) Addr() net.Addr { return addr{l.Network, l.Address} }

// SetDeadline expires the listener: the harness has no other deadlines.
func (l *lst) SetDeadline(t time.Time) error {
	if !l.Expired {
		l.Expired = true
		close(l.expired)
	}
	return nil
}

// Accept waits for a connection.
func (l *TCPListener) Accept() (net.Conn, error) {
	p, err := l.accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{p}, nil
}

// Accept waits for a connection.
func (l *UnixListener) Accept() (net.Conn, error) {
	p, err := l.accept()
	if err != nil {
		return nil, err
	}
	return &UnixConn{p}, nil
}

// ListenTCP listens.
func ListenTCP(network string, laddr *net.TCPAddr) (*TCPListener, error) {
	l, err := listen(network, tcpName(laddr))
	if err != nil {
		return nil, err
	}
	return &TCPListener{l}, nil
}

func tcpName(a *net.TCPAddr) string {
	if a == nil {
		return ""
	}
	if len(a.IP) == 0 {
		return a.Zone
	}
	return a.String()
}

// ListenUnix listens.
func ListenUnix(network string, laddr *net.UnixAddr) (*UnixListener, error) {
	l, err := listen(network, laddr.Name)
	if err != nil {
		return nil, err
	}
	return &UnixListener{l}, nil
}

// Listen listens.
func Listen(network, address string) (net.Listener, error) {
	l, err := listen(network, address)
	if err != nil {
		return nil, err
	}
	if network == "unix" {
		return &UnixListener{l}, nil
	}
	return &TCPListener{l}, nil
}

// ResolveTCPAddr does not look at the name.
func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	return &net.TCPAddr{Zone: address}, nil
}

// ResolveUnixAddr does not look at the name.
func ResolveUnixAddr(network, address string) (*net.UnixAddr, error) {
	return &net.UnixAddr{Name: address, Net: network}, nil
}
