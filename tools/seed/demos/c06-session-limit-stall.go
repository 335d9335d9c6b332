package server

import (
	"testing"
	"time"
)

// Silent clients do not delay another client.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	for i := 0; i < 12; i++ {
		c := dial(t, p.addr)
		defer c.Close()
	}
	time.Sleep(200 * time.Millisecond)
	c, s := p.session(t, db, "user", "u", "database", "app")
	c.Close()
	s.Close()
}
