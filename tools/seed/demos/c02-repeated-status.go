package server

import (
	"bytes"
	"testing"
)

// Messages are delivered as often as they were sent.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c, s := p.session(t, db, "user", "u", "database", "app")
	defer c.Close()
	defer s.Close()
	var all []byte
	for i := 0; i < 3; i++ {
		all = append(all, packet('S', []byte("TimeZone\x00UTC\x00"))...)
		all = append(all, packet('Z', []byte("I"))...)
	}
	s.Write(all)
	got, err := readN(c, len(all))
	if !bytes.Equal(got, all) {
		t.Fatalf("the client received %q: %v", got, err)
	}
}
