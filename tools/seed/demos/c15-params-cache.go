package server

import (
	"testing"
	"time"
)

// New sessions use the database of the current configuration.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	a, b := p.session(t, db, "user", "u", "database", "app")
	a.Close()
	b.Close()
	p.src <- &Config{Listen: p.addr, DatabaseURL: "postgres://u@" + db.Addr().String() + "/app2"}
	time.Sleep(300 * time.Millisecond)
	a, b = p.session(t, db, "user", "u", "database", "app2")
	a.Close()
	b.Close()
}
