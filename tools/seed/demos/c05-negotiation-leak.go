package server

import "testing"

// A client that is refused is disconnected.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c := dial(t, p.addr)
	defer c.Close()
	c.Write(startupPacket("user", "u", "database", "app")[:20])
	c.(interface{ CloseWrite() error }).CloseWrite()
	if _, err := readAll(c); err != nil {
		t.Fatalf("the client is still connected: %v", err)
	}
}
