package server

import (
	"testing"
	"time"
)

// Bytes behind an SSL request and behind the startup message are not lost.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c := dial(t, p.addr)
	defer c.Close()
	st := startupPacket("user", "u", "database", "app")
	q := packet('Q', []byte("select 1\x00"))
	c.Write(append(append(append([]byte(nil), sslRequest...), st...), q...))
	s, err := accept(db)
	if err != nil {
		t.Fatalf("the proxy did not connect to the database: %v", err)
	}
	defer s.Close()
	s.SetReadDeadline(time.Now().Add(wait))
	if got, err := readN(s, len(st)+len(q)); err != nil || string(got) != string(st)+string(q) {
		t.Fatalf("the database received %q (%v)", got, err)
	}
}
