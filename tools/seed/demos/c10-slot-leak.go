package server

import (
	"testing"
)

// When the database is back, clients are served, however many have failed.
func TestDemo(t *testing.T) {
	addr := freeAddr(t)
	p := newProxy(t, addr, "app")
	defer p.srv.Close()
	for i := 0; i < 100; i++ {
		c := dial(t, p.addr)
		c.Write(startupPacket("user", "u", "database", "app"))
		if _, err := readAll(c); isTimeout(err) {
			t.Fatalf("client %d is still connected", i)
		}
		c.Close()
	}
	db := listen(t)
	defer db.Close()
	p.src <- &Config{Listen: p.addr, DatabaseURL: "postgres://u@" + db.Addr().String() + "/app"}
	for i := 0; i < 3; i++ {
		p.src <- &Config{Listen: p.addr, DatabaseURL: "postgres://u@" + db.Addr().String() + "/app"}
	}
	a, b := p.session(t, db, "user", "u", "database", "app")
	a.Close()
	b.Close()
}

func isTimeout(err error) bool {
	e, ok := err.(interface{ Timeout() bool })
	return ok && e.Timeout()
}
