// Package vnet stands in for package net in code under the controlled scheduler.
package vnet

import (
	"context"
	"net"
	"time"

	"verif.local/vs"
)

type (
	TCPAddr   = net.TCPAddr
	TCPConn   = vs.VConn
	Conn      = net.Conn
	Listener  = net.Listener
	Addr      = net.Addr
	Error     = net.Error
	OpError   = net.OpError
	IP        = net.IP
	AddrError = net.AddrError
)

var ErrClosed = net.ErrClosed

// TCPListener is a listening socket.
type TCPListener struct{ l *vs.VListener }

//go:norace
func (l *TCPListener) AcceptTCP() (*TCPConn, error) { return l.l.Accept2() }

//go:norace
func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.l.Accept2()
	if err != nil {
		return nil, err
	}
	return c, nil
}

//go:norace
func (l *TCPListener) Close() error { return l.l.Close() }

//go:norace
func (l *TCPListener) Addr() net.Addr { return l.l.Addr() }

//go:norace
func (l *TCPListener) SetDeadline(t time.Time) error { return l.l.SetDeadline(t) }

//go:norace
func ResolveTCPAddr(network, address string) (*TCPAddr, error) {
	return net.ResolveTCPAddr(network, address)
}

//go:norace
func ListenTCP(network string, laddr *TCPAddr) (*TCPListener, error) {
	l, err := vs.Listen(laddr)
	if err != nil {
		return nil, err
	}
	return &TCPListener{l}, nil
}

//go:norace
func Listen(network, address string) (net.Listener, error) {
	a, err := net.ResolveTCPAddr("tcp4", address)
	if err != nil {
		return nil, err
	}
	return ListenTCP(network, a)
}

//go:norace
func DialTCP(network string, laddr, raddr *TCPAddr) (*TCPConn, error) { return vs.Dial(raddr) }

//go:norace
func Dial(network, address string) (net.Conn, error) {
	a, err := net.ResolveTCPAddr("tcp4", address)
	if err != nil {
		return nil, err
	}
	c, err := vs.Dial(a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

//go:norace
func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

// Dialer mirrors net.Dialer.
type Dialer struct {
	Timeout, KeepAlive time.Duration
	Deadline           time.Time
}

//go:norace
func (d *Dialer) Dial(network, address string) (net.Conn, error) { return Dial(network, address) }

//go:norace
func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	return Dial(network, address)
}

//go:norace
func ParseIP(s string) net.IP { return net.ParseIP(s) }

//go:norace
func JoinHostPort(h, p string) string { return net.JoinHostPort(h, p) }

//go:norace
func SplitHostPort(s string) (string, string, error) { return net.SplitHostPort(s) }
