package server

import "testing"

// Only the configured database can be reached.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c := dial(t, p.addr)
	defer c.Close()
	c.Write(startupPacket("user", "u", "database", "other", " database", "app"))
	if _, err := readAll(c); err != nil {
		t.Fatalf("a client that names another database is not refused: %v", err)
	}
}
