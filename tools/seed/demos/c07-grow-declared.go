package server

import (
	"runtime"
	"testing"
	"time"
)

// A few bytes of a client do not make the proxy allocate gigabytes.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	c := dial(t, p.addr)
	defer c.Close()
	c.Write([]byte{0x40, 0, 0, 0})
	time.Sleep(time.Second)
	runtime.ReadMemStats(&after)
	if n := after.TotalAlloc - before.TotalAlloc; n > 100<<20 {
		t.Fatalf("4 bytes of a client made the proxy allocate %d bytes", n)
	}
}
