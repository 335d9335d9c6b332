package server

import "testing"

// Only protocol 3.0 gets through.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c := dial(t, p.addr)
	defer c.Close()
	m := startupPacket("user", "u", "database", "app")
	m[7] = 2
	c.Write(m)
	if _, err := readAll(c); err != nil {
		t.Fatalf("a client with protocol 3.2 is not refused: %v", err)
	}
}
