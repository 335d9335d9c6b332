package server

import (
	"testing"
	"time"
)

// A client that connects after a change of the database URL gets the new database.
func TestDemo(t *testing.T) {
	one, two := listen(t), listen(t)
	defer one.Close()
	defer two.Close()
	p := newProxy(t, one.Addr().String(), "app")
	defer p.srv.Close()
	c, s := p.session(t, one, "user", "u", "database", "app")
	c.Close()
	s.Close()
	p.src <- &Config{Listen: p.addr, DatabaseURL: "postgres://u@" + two.Addr().String() + "/app"}
	time.Sleep(300 * time.Millisecond)
	c, s = p.session(t, two, "user", "u", "database", "app")
	c.Close()
	s.Close()
}
