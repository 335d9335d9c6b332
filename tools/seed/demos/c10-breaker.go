package server

import (
	"net"
	"testing"
)

// As soon as the database is back clients are served.
func TestDemo(t *testing.T) {
	addr := freeAddr(t)
	p := newProxy(t, addr, "app")
	defer p.srv.Close()
	c := dial(t, p.addr)
	c.Write(startupPacket("user", "u", "database", "app"))
	readAll(c)
	c.Close()
	db, err := net.Listen("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	a, b := p.session(t, db, "user", "u", "database", "app")
	a.Close()
	b.Close()
}
