package server

import (
	"net"
	"testing"
	"time"
)

// When the host of the listen address changes, the old address is released.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	_, port, _ := net.SplitHostPort(p.addr)
	next := net.JoinHostPort("127.0.0.2", port)
	p.src <- &Config{Listen: next, DatabaseURL: "postgres://u@" + db.Addr().String() + "/app"}
	waitListening(t, next)
	for end := time.Now().Add(wait); ; time.Sleep(10 * time.Millisecond) {
		c, err := net.Dial("tcp", p.addr)
		if err != nil {
			return
		}
		c.Close()
		if time.Now().After(end) {
			t.Fatalf("the server still listens on %s", p.addr)
		}
	}
}
