package server

import (
	"net"
	"testing"
	"time"
)

// Close closes the connection to a database that has nothing more to say and does not listen either.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	a, b := p.session(t, db, "user", "u", "database", "app")
	defer a.Close()
	defer b.Close()
	go func() { // more than fits anywhere
		msg := packet('d', make([]byte, 1<<16))
		for i := 0; i < 1000; i++ {
			if _, err := a.Write(msg); err != nil {
				return
			}
		}
	}()
	time.Sleep(time.Second)
	b.(*net.TCPConn).CloseWrite()
	time.Sleep(time.Second)
	done := make(chan bool)
	go func() { p.srv.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(4 * time.Second):
		t.Fatal("Close does not return")
	}
}
