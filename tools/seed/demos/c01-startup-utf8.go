package server

import "testing"

// The startup message reaches the database byte for byte.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c, s := p.session(t, db, "user", "u", "database", "app", "application_name", "caf\xe9")
	c.Close()
	s.Close()
}
