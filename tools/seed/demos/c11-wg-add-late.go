package server

import (
	"runtime"
	"sync/atomic"
	"testing"
)

// When Close has returned no goroutine of the server is left that has yet to run.
func TestDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	for i := 0; i < 200; i++ {
		srv := NewServer(nil)
		var ended int32
		if !srv.do(func() { runtime.Gosched(); atomic.StoreInt32(&ended, 1) }) {
			t.Fatal("refused")
		}
		srv.Close()
		if atomic.LoadInt32(&ended) == 0 {
			t.Fatal("Close returned while a goroutine was still running")
		}
	}
}
