package server

import (
	"bytes"
	"testing"
	"time"
)

// Everything the database sent before it hung up is delivered, to a slow client too.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	for round := 0; round < 5; round++ {
		c, s := p.session(t, db, "user", "u", "database", "app")
		var all []byte
		for i := 0; i < 300; i++ {
			all = append(all, packet('d', bytes.Repeat([]byte{byte(i)}, 30000))...)
		}
		go func() {
			s.Write(all)
			s.Close()
		}()
		time.Sleep(200 * time.Millisecond)
		got, _ := readAll(c)
		c.Close()
		if !bytes.Equal(got, all) {
			t.Fatalf("the client received %d of %d bytes", len(got), len(all))
		}
	}
}
