package server

import (
	"testing"
	"time"
)

// After a failed bind the server stays on the address it had.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	p.src <- &Config{Listen: db.Addr().String(), DatabaseURL: "postgres://u@" + db.Addr().String() + "/app"}
	time.Sleep(300 * time.Millisecond)
	c, s := p.session(t, db, "user", "u", "database", "app")
	c.Close()
	s.Close()
}
