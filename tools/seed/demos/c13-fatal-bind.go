package server

import "testing"

// An address that cannot be bound costs nothing but the update.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c, s := p.session(t, db, "user", "u", "database", "app")
	defer s.Close()
	defer c.Close()
	url := "postgres://u@" + db.Addr().String() + "/app"
	p.src <- &Config{Listen: db.Addr().String(), DatabaseURL: url} // occupied
	next := freeAddr(t)
	p.src <- &Config{Listen: next, DatabaseURL: url}
	waitListening(t, next)
}
