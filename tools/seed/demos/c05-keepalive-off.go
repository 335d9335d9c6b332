package server

import (
	"net"
	"syscall"
	"testing"
)

// A host that disappears is noticed only if the idle connection is probed.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c, s := p.session(t, db, "user", "u", "database", "app")
	defer c.Close()
	defer s.Close()
	port := s.RemoteAddr().(*net.TCPAddr).Port // the proxy's end of it
	for fd := 3; fd < 256; fd++ {
		la, err := syscall.Getsockname(fd)
		if err != nil {
			continue
		}
		lp := 0
		switch a := la.(type) {
		case *syscall.SockaddrInet4:
			lp = a.Port
		case *syscall.SockaddrInet6:
			lp = a.Port
		}
		if lp != port {
			continue
		}
		if v, err := syscall.GetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_KEEPALIVE); err != nil || v == 0 {
			t.Fatalf("the proxy's connection to the database is not probed (%v)", err)
		}
		return
	}
	t.Fatal("the proxy's connection to the database was not found")
}
