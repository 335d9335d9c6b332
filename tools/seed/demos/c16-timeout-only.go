package server

import (
	"net"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// flakyListener fails as if connections were aborted before they are accepted.
type flakyListener struct {
	net.Listener
	errs int32
}

func (l *flakyListener) Accept() (net.Conn, error) {
	if atomic.AddInt32(&l.errs, -1) >= 0 {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: syscall.ECONNABORTED}
	}
	return l.Listener.Accept()
}

// Aborted connections do not stop the service.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	src := make(chan *Config, 1)
	src <- &Config{Listen: "x", DatabaseURL: "postgres://u@" + db.Addr().String() + "/app"}
	dist := NewConfigDistributor(src)
	defer dist.Close()
	srv := NewServer(dist)
	defer srv.Close()
	ln := listen(t)
	go srv.Serve(&flakyListener{ln, 3})
	time.Sleep(100 * time.Millisecond)
	p := &demoProxy{addr: ln.Addr().String()}
	c, s := p.session(t, db, "user", "u", "database", "app")
	c.Close()
	s.Close()
}
