package server

import (
	"testing"
	"time"
)

// While the database does not read, the client is held back.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c, s := p.session(t, db, "user", "u", "database", "app")
	defer c.Close()
	defer s.Close()
	m := packet('d', make([]byte, 1<<14))
	total := 0
	c.SetWriteDeadline(time.Now().Add(20 * time.Second))
	for total < 300<<20 {
		c.SetWriteDeadline(time.Now().Add(3 * time.Second))
		n, err := c.Write(m)
		total += n
		if err != nil {
			return // it waits
		}
	}
	t.Fatalf("the proxy has taken %d bytes for a database that does not read", total)
}
