package server

import (
	"bytes"
	"testing"
	"time"
)

// A client that pauses for a while gets everything when it goes on reading.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c, s := p.session(t, db, "user", "u", "database", "app")
	defer c.Close()
	defer s.Close()
	m := packet('d', bytes.Repeat([]byte("x"), 1<<20))
	const n = 40
	go func() {
		for i := 0; i < n; i++ {
			s.Write(m)
		}
	}()
	time.Sleep(25 * time.Second)
	got, err := readN(c, n*len(m))
	if err != nil || !bytes.Equal(got, bytes.Repeat(m, n)) {
		t.Fatalf("the client received %d of %d bytes: %v", len(got), n*len(m), err)
	}
}
