package server

import (
	"net"
	"testing"
	"time"
)

// A client that resets its connection takes the database connection with it.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c, s := p.session(t, db, "user", "u", "database", "app")
	defer s.Close()
	time.Sleep(100 * time.Millisecond)
	c.(*net.TCPConn).SetLinger(0)
	c.Close()
	if _, err := readAll(s); err != nil {
		t.Fatalf("the database connection is still open: %v", err)
	}
}
