package server

import (
	"bytes"
	"testing"
)

// Many messages of the client in one burst reach the database byte for byte.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c, s := p.session(t, db, "user", "u", "database", "app")
	defer c.Close()
	defer s.Close()
	var all []byte
	for i := 0; i < 400; i++ {
		all = append(all, packet('d', bytes.Repeat([]byte{byte(i), byte(i >> 8)}, 20+i%7))...)
	}
	go c.Write(all)
	got, err := readN(s, len(all))
	if err != nil || !bytes.Equal(got, all) {
		t.Fatalf("the database received other bytes than the client sent (%d of %d, %v)", len(got), len(all), err)
	}
}
