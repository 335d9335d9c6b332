package server

import (
	"net"
	"testing"
)

// Close closes all sessions, however many there are.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	var conns []net.Conn
	for i := 0; i < 300; i++ {
		a, b := p.session(t, db, "user", "u", "database", "app")
		conns = append(conns, a, b)
	}
	done := make(chan struct{})
	go func() {
		p.srv.Close()
		close(done)
	}()
	for i, c := range conns {
		if _, err := readAll(c); err != nil {
			if e, ok := err.(net.Error); ok && e.Timeout() {
				t.Fatalf("connection %d is still open after Close", i)
			}
		}
	}
	<-done
}
