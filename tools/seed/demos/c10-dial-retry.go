package server

import "testing"

// A client is disconnected when the database cannot be dialled.
func TestDemo(t *testing.T) {
	p := newProxy(t, freeAddr(t), "app")
	defer p.srv.Close()
	c := dial(t, p.addr)
	defer c.Close()
	c.Write(startupPacket("user", "u", "database", "app"))
	if _, err := readAll(c); err != nil {
		t.Fatalf("the client is still connected: %v", err)
	}
}
