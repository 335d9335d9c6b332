//go:build go1.21

// Package net replaces the standard library's net inside a simulation: TCP runs on the simulated network.
package net

import (
	"context"
	rnet "net"
	"net/netip"
	"syscall"
	"time"

	"github.com/hired/gevulot/zzsim/simnet"
	"github.com/hired/gevulot/zzsim/simrt"
)

// TCPConn and TCPListener are the simulated ones.
type (
	TCPConn     = simnet.TCPConn
	TCPListener = simnet.Listener
)

// Dialer contains options for connecting to an address.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig rnet.KeepAliveConfig
	Resolver        *rnet.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

// Dial connects to the address.
func (d *Dialer) Dial(network, address string) (Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

// DialContext connects to the address using the provided context.
func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if !simrt.Active() {
		return nil, &OpError{Op: "dial", Net: network, Err: rnet.ErrClosed}
	}
	off, ka := simnet.Probing(d.KeepAlive, d.KeepAliveConfig)
	o := simnet.DialOpts{Sys: true, NoKA: off, KA: ka, Timeout: d.Timeout, Cancel: d.Cancel, Done: ctx.Done(), CtxErr: ctx.Err}
	if !d.Deadline.IsZero() {
		dt := d.Deadline.Sub(simrt.Now())
		if dt <= 0 {
			dt = -1
		}
		if o.Timeout == 0 || dt < o.Timeout {
			o.Timeout = dt
		}
	}
	if dl, ok := ctx.Deadline(); ok {
		dt := dl.Sub(simrt.Now())
		if dt <= 0 {
			dt = -1
		}
		if o.Timeout == 0 || dt < o.Timeout {
			o.Timeout = dt
		}
	}
	c, err := simnet.W().Dial(network, address, o)
	if err != nil {
		return nil, err
	}
	return c.Handle(), nil
}

// SetMultipathTCP and MultipathTCP have no effect.
func (d *Dialer) SetMultipathTCP(bool) {}
func (d *Dialer) MultipathTCP() bool   { return false }

// Dial connects to the address.
func Dial(network, address string) (Conn, error) { return (&Dialer{}).Dial(network, address) }

// DialTimeout acts like Dial but takes a timeout.
func DialTimeout(network, address string, timeout time.Duration) (Conn, error) {
	return (&Dialer{Timeout: timeout}).Dial(network, address)
}

// DialTCP acts like Dial for TCP networks.
func DialTCP(network string, laddr, raddr *TCPAddr) (*TCPConn, error) {
	c, err := simnet.W().Dial(network, raddr.String(), simnet.DialOpts{Sys: true})
	if err != nil {
		return nil, err
	}
	return c.Handle(), nil
}

// Listen announces on the local network address.
func Listen(network, address string) (Listener, error) {
	l, err := simnet.W().Listen(network, address, true)
	if err != nil {
		return nil, err
	}
	return l, nil
}

// ListenTCP acts like Listen for TCP networks.
func ListenTCP(network string, laddr *TCPAddr) (*TCPListener, error) {
	return simnet.W().Listen(network, laddr.String(), true)
}

// ListenConfig contains options for listening to an address.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig rnet.KeepAliveConfig
}

// Listen announces on the local network address.
func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	if err := ctx.Err(); err != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: err}
	}
	l, err := simnet.W().Listen(network, address, true)
	if err != nil {
		return nil, err
	}
	l.NoKA, l.KA = simnet.Probing(lc.KeepAlive, lc.KeepAliveConfig)
	return l, nil
}

// SetMultipathTCP and MultipathTCP have no effect.
func (lc *ListenConfig) SetMultipathTCP(bool) {}
func (lc *ListenConfig) MultipathTCP() bool   { return false }

// Pipe makes a connected pair.
func Pipe() (Conn, Conn) {
	a, b := simnet.W().Pair()
	b.Sys = true
	return a, b
}

// ResolveTCPAddr returns an address of a TCP end point.
func ResolveTCPAddr(network, address string) (*TCPAddr, error) {
	h, p, err := rnet.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	if h != "" {
		ip, err := simnet.Resolve(h)
		if err != nil {
			return nil, err
		}
		h = ip.String()
	}
	return rnet.ResolveTCPAddr(network, rnet.JoinHostPort(h, p))
}

// LookupHost resolves a name.
func LookupHost(host string) ([]string, error) {
	ip, err := simnet.Resolve(host)
	if err != nil {
		return nil, err
	}
	return []string{ip.String()}, nil
}

// LookupIP resolves a name.
func LookupIP(host string) ([]IP, error) {
	ip, err := simnet.Resolve(host)
	if err != nil {
		return nil, err
	}
	return []IP{ip}, nil
}

// DialTCP connects to the address using the provided context.
func (d *Dialer) DialTCP(ctx context.Context, network string, laddr, raddr netip.AddrPort) (*TCPConn, error) {
	c, err := d.DialContext(ctx, network, raddr.String())
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}
