package server

import (
	"net"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// flakyListener fails as if connections were aborted before they are accepted.
type flakyListener struct {
	net.Listener
	errs int32
}

func (l *flakyListener) Accept() (net.Conn, error) {
	if atomic.AddInt32(&l.errs, -1) >= 0 {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: syscall.ECONNABORTED}
	}
	return l.Listener.Accept()
}

// Aborted connections do not stop the service.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	src := make(chan *Config, 1)
	src <- &Config{Listen: "x", DatabaseURL: "postgres://u@" + db.Addr().String() + "/app"}
	dist := NewConfigDistributor(src)
	defer dist.Close()
	srv := NewServer(dist)
	ln := listen(t)
	go srv.Serve(&flakyListener{ln, 20})
	time.Sleep(100 * time.Millisecond)
	c := dial(t, ln.Addr().String())
	c.Write(startupPacket("user", "u", "database", "app"))
	db.(*net.TCPListener).SetDeadline(time.Now().Add(30 * time.Second))
	s, err := db.Accept()
	if err != nil {
		t.Fatalf("after twenty aborted connections clients are not served any more: %v", err)
	}
	s.Close()
	c.Close()
}
