package server

import (
	"sync"
	"testing"
)

// Whoever has seen Done closed also sees HasFired.
func TestDemo(t *testing.T) {
	for round := 0; round < 60; round++ {
		e := NewEvent()
		// many others wait for the event
		var wg, up sync.WaitGroup
		for i := 0; i < 3000; i++ {
			wg.Add(1)
			up.Add(1)
			go func() {
				up.Done()
				<-e.Done()
				wg.Done()
			}()
		}
		up.Wait()
		bad := make(chan bool)
		ready := make(chan bool)
		go func() {
			close(ready)
			for {
				select {
				case <-e.Done():
					bad <- !e.HasFired()
					return
				default:
				}
			}
		}()
		<-ready
		e.Fire()
		if <-bad {
			t.Fatal("Done is closed and HasFired is false")
		}
		wg.Wait()
	}
}
