package server

import (
	"testing"
	"time"
)

// While the client does not read, what it sends still reaches the database.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c, s := p.session(t, db, "user", "u", "database", "app")
	defer c.Close()
	defer s.Close()
	m := packet('d', make([]byte, 1<<16))
	go func() {
		for {
			if _, err := s.Write(m); err != nil {
				return
			}
		}
	}()
	time.Sleep(2 * time.Second) // queues and sockets towards the client fill up
	q := packet('Q', []byte("select 1\x00"))
	c.Write(q)
	if got, err := readN(s, len(q)); err != nil || string(got) != string(q) {
		t.Fatalf("the query did not reach the database: %v", err)
	}
}
