package server

import (
	"bytes"
	"testing"
	"time"
)

// Notices are delivered like everything else, when the client is slow too.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c, s := p.session(t, db, "user", "u", "database", "app")
	defer c.Close()
	defer s.Close()
	var all []byte
	for i := 0; i < 100; i++ {
		all = append(all, packet('d', bytes.Repeat([]byte{byte(i)}, 300000))...)
		all = append(all, packet('N', []byte("SNOTICE\x00C00000\x00Mthis is important\x00\x00"))...)
	}
	go s.Write(all)
	time.Sleep(500 * time.Millisecond)
	got, err := readN(c, len(all))
	if !bytes.Equal(got, all) {
		t.Fatalf("the client received something else (%d of %d bytes): %v", len(got), len(all), err)
	}
}
