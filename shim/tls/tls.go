// Package tls models TLS as a transparent channel.
package tls

import (
	"crypto/tls"
	"errors"

	"github.com/coniks-sys/coniks-go/internal/verifsym/net"
)

// LoadErr is what loading a key pair reports.
var LoadErr error

// Loads records the arguments of LoadX509KeyPair.
var Loads [][2]string

// LoadX509KeyPair loads a key pair.
func LoadX509KeyPair(certFile, keyFile string) (tls.Certificate, error) {
	Loads = append(Loads, [2]string{certFile, keyFile})
	if LoadErr != nil {
		return tls.Certificate{}, LoadErr
	}
	return tls.Certificate{}, nil
}

// Conn is a secured connection.
type Conn struct {
	net.Conn
	Config *tls.Config
	Client bool
}

// Server wraps the server side of a connection.
func Server(c net.Conn, config *tls.Config) *Conn { return &Conn{c, config, false} }

// Client wraps the client side of a connection.
func Client(c net.Conn, config *tls.Config) *Conn { return &Conn{c, config, true} }

// Handshake does nothing.
func (c *Conn) Handshake() error { return nil }

// CloseWrite ends the outgoing stream.
func (c *Conn) CloseWrite() error {
	if w, ok := c.Conn.(interface{ CloseWrite() error }); ok {
		return w.CloseWrite()
	}
	return nil
}

type listener struct {
	net.Listener
	config *tls.Config
}

func (l *listener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	return Server(c, l.config), nil
}

// NewListener wraps a listener.
func NewListener(inner net.Listener, config *tls.Config) net.Listener {
	return &listener{inner, config}
}

// Dial connects.
func Dial(network, addr string, config *tls.Config) (*Conn, error) {
	c, err := net.Dial(network, addr)
	if err != nil {
		return nil, err
	}
	return Client(c, config), nil
}

// Listen listens.
func Listen(network, laddr string, config *tls.Config) (net.Listener, error) {
	return nil, errors.New("tls.Listen is not modelled")
}
