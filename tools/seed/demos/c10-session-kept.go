package server

import (
	"net"
	"runtime"
	"sync/atomic"
	"testing"
	"time"
)

// watchedConn tells when it is garbage.
type watchedConn struct{ net.Conn }

// Nothing is left of sessions that could not be connected to the database.
func TestDemo(t *testing.T) {
	src := make(chan *Config, 1)
	src <- &Config{Listen: "x", DatabaseURL: "postgres://u@" + freeAddr(t) + "/app"}
	srv := NewServer(NewConfigDistributor(src))
	defer srv.Close()
	var gone int32
	const n = 100
	for i := 0; i < n; i++ {
		a, b := net.Pipe()
		w := &watchedConn{b}
		runtime.SetFinalizer(w, func(*watchedConn) { atomic.AddInt32(&gone, 1) })
		done := make(chan error)
		go func() { done <- srv.ServeConn(w) }()
		a.Write(startupPacket("user", "u", "database", "app"))
		select {
		case <-done:
		case <-time.After(wait):
			t.Fatal("ServeConn does not return")
		}
		a.Close()
	}
	for end := time.Now().Add(wait); time.Now().Before(end) && atomic.LoadInt32(&gone) < n*9/10; {
		runtime.GC()
		time.Sleep(20 * time.Millisecond)
	}
	if k := atomic.LoadInt32(&gone); k < n*9/10 {
		t.Fatalf("%d of %d failed sessions are still in memory", n-k, n)
	}
	runtime.KeepAlive(srv)
}
