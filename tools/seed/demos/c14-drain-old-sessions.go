package server

import (
	"testing"
	"time"
)

// A session outlives a change of the listen address.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c, s := p.session(t, db, "user", "u", "database", "app")
	defer c.Close()
	defer s.Close()
	addr := freeAddr(t)
	p.src <- &Config{Listen: addr, DatabaseURL: "postgres://u@" + db.Addr().String() + "/app"}
	waitListening(t, addr)
	time.Sleep(13 * time.Second)
	m := packet('Q', []byte("select 1\x00"))
	c.Write(m)
	if got, err := readN(s, len(m)); err != nil || string(got) != string(m) {
		t.Fatalf("the database received %q: %v", got, err)
	}
}
