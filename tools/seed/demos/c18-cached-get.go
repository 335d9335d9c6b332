package server

import (
	"fmt"
	"runtime"
	"testing"
	"time"
)

// After the updates stop Get returns the last one.
func TestDemo(t *testing.T) {
	for round := 0; round < 20000; round++ {
		src := make(chan *Config, 2)
		d := NewConfigDistributor(src)
		done := make(chan struct{})
		for k := 0; k < 4; k++ {
			go func() {
				d.Get()
				done <- struct{}{}
			}()
		}
		runtime.Gosched()
		for i := 1; i <= 2; i++ {
			src <- &Config{Listen: fmt.Sprint(i)}
		}
		for k := 0; k < 4; k++ {
			<-done
		}
		end := time.Now().Add(wait)
		for {
			c, err := d.Get()
			if err != nil {
				t.Fatal(err)
			}
			if c.Listen == "2" {
				break
			}
			if time.Now().After(end) {
				t.Fatalf("round %d: Get keeps returning %s", round, c.Listen)
			}
			runtime.Gosched()
		}
		d.Close()
	}
}
