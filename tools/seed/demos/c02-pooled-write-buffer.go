package server

import (
	"bytes"
	"testing"
	"time"
)

// A client that is slow for a while gets exactly what its database sent, whatever other sessions do meanwhile.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	for round := 0; round < 3; round++ {
		c, s := p.session(t, db, "user", "u", "database", "app")
		var all []byte
		for i := 0; i < 12000; i++ {
			all = append(all, packet('d', bytes.Repeat([]byte{byte(i), byte(i >> 8)}, 500))...)
		}
		go s.Write(all)
		time.Sleep(300 * time.Millisecond)
		// other sessions
		for k := 0; k < 16; k++ {
			c, s := p.session(t, db, "user", "u", "database", "app")
			var o []byte
			for i := 0; i < 200; i++ {
				o = append(o, packet('d', bytes.Repeat([]byte{'x'}, 300))...)
			}
			go s.Write(o)
			go c.Write(o)
			readN(c, len(o))
			readN(s, len(o))
			c.Close()
			s.Close()
		}
		got, err := readN(c, len(all))
		c.Close()
		s.Close()
		if err != nil || !bytes.Equal(got, all) {
			t.Fatalf("the client received other bytes than its database sent (%d of %d, %v)", len(got), len(all), err)
		}
	}
}
