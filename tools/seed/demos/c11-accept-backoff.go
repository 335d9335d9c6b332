package server

import (
	"net"
	"sync"
	"syscall"
	"testing"
	"time"
)

// failingListener fails once, with a temporary error.
type failingListener struct {
	net.Listener
	once sync.Once
}

func (l *failingListener) Accept() (c net.Conn, err error) {
	l.once.Do(func() { err = &net.OpError{Op: "accept", Net: "tcp", Err: syscall.EMFILE} })
	if err != nil {
		return nil, err
	}
	return l.Listener.Accept()
}

// After Close no goroutine of the server is left, even if accepting has just failed.
func TestDemo(t *testing.T) {
	srv := NewServer(NewConfigDistributor(make(chan *Config)))
	ret := make(chan error, 1)
	go func() { ret <- srv.Serve(&failingListener{Listener: listen(t)}) }()
	time.Sleep(200 * time.Millisecond)
	srv.Close()
	select {
	case <-ret:
	case <-time.After(wait):
		t.Fatal("Serve is still running five seconds after Close")
	}
}
