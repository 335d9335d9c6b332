//go:build go1.24

package simnet

import (
	"net"
	"runtime"
	"weak"
)

// TCPConn is what the system under test gets for a connection: nobody else refers to it, so that it
// can be told whether the system still does.
type TCPConn struct{ *Conn }

type handle struct {
	p weak.Pointer[TCPConn]
	c *Conn
}

// Handle returns the system's view of the connection.
func (c *Conn) Handle() *TCPConn {
	h := &TCPConn{c}
	c.w.handles = append(c.w.handles, handle{weak.Make(h), c})
	return h
}

// Raw returns the connection behind a handle.
func Raw(c net.Conn) *Conn {
	if h, ok := c.(*TCPConn); ok {
		return h.Conn
	}
	return c.(*Conn)
}

// Retained returns how many connections the system has closed, and how many of these are still reachable.
func (w *World) Retained() (closed, held int) {
	runtime.GC()
	for _, h := range w.handles {
		if h.c.closed {
			closed++
			if h.p.Value() != nil {
				held++
			}
		}
	}
	return
}

// ClosedHandles returns how many connections the system has closed.
func (w *World) ClosedHandles() (n int) {
	for _, h := range w.handles {
		if h.c.closed {
			n++
		}
	}
	return
}
