package server

import "testing"

// A malformed message ends at most its session.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	for _, m := range [][]byte{packet('E', []byte("Mx\x00")), packet('E', nil)} {
		c, s := p.session(t, db, "user", "u", "database", "app")
		s.Write(m)
		s.Close()
		readAll(c)
		c.Close()
	}
	c, s := p.session(t, db, "user", "u", "database", "app")
	c.Close()
	s.Close()
}
