package server

import (
	"sync"
	"testing"
	"time"
)

// Get never goes back to an older configuration.
func TestDemo(t *testing.T) {
	for round := 0; round < 20000; round++ {
		src := make(chan *Config)
		d := NewConfigDistributor(src)
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				d.Get()
			}()
		}
		// the distributor takes updates when somebody waits for the first one
		src <- &Config{Listen: "1"}
		src <- &Config{Listen: "2"}
		wg.Wait()
		var last string
		for end := time.Now().Add(wait); last != "2"; {
			c, err := d.Get()
			if err != nil {
				t.Fatal(err)
			}
			last = c.Listen
			if last != "2" && time.Now().After(end) {
				t.Fatalf("round %d: Get returns %s, which is not the last configuration", round, last)
			}
		}
		d.Close()
	}
}
