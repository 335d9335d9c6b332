package server

import (
	"bytes"
	"testing"
)

// A row with a large value reaches the client.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c, s := p.session(t, db, "user", "u", "database", "app")
	defer c.Close()
	defer s.Close()
	m := packet('d', bytes.Repeat([]byte("0123456789abcdef"), 1<<20+1))
	go s.Write(m)
	got, err := readN(c, len(m))
	if err != nil || !bytes.Equal(got, m) {
		t.Fatalf("the client received %d of %d bytes: %v", len(got), len(m), err)
	}
}
