package server

import (
	"sync/atomic"
	"testing"
)

// When any Fire call has returned, Done is closed.
func TestDemo(t *testing.T) {
	const workers = 4
	var bad int32
	for round := 0; round < 150000 && atomic.LoadInt32(&bad) == 0; round++ {
		e := NewEvent()
		var at int32
		done := make(chan bool, workers)
		for k := 0; k < workers; k++ {
			go func() {
				atomic.AddInt32(&at, 1)
				for atomic.LoadInt32(&at) < workers {
				}
				e.Fire()
				select {
				case <-e.Done():
				default:
					atomic.StoreInt32(&bad, 1)
				}
				done <- true
			}()
		}
		for k := 0; k < workers; k++ {
			<-done
		}
	}
	if bad != 0 {
		t.Fatal("Fire has returned and Done is not closed")
	}
}
