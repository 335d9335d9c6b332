package server

import (
	"bytes"
	"testing"
	"time"
)

// Everything the database sent before it hung up is delivered to a client that reads a little later.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	for round := 0; round < 5; round++ {
		c, s := p.session(t, db, "user", "u", "database", "app")
		all := packet('E', []byte("SFATAL\x00C57P01\x00Mterminating connection\x00\x00"))
		s.Write(all)
		s.Close()
		time.Sleep(200 * time.Millisecond)
		got, err := readAll(c)
		c.Close()
		if !bytes.Equal(got, all) || err != nil {
			t.Fatalf("the client received %d of %d bytes: %v", len(got), len(all), err)
		}
	}
}
