package server

import (
	"fmt"
	"runtime"
	"testing"
	"time"
)

// A subscriber that is busy for a while receives the updates in order.
func TestDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	for round := 0; round < 30; round++ {
		src := make(chan *Config, 8)
		d := NewConfigDistributor(src)
		ch := make(chan *Config)
		if err := d.Subscribe(ch); err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 8; i++ {
			src <- &Config{Listen: fmt.Sprint(i)}
		}
		time.Sleep(5 * time.Millisecond)
		for i := 0; i < 8; i++ {
			select {
			case c := <-ch:
				if c.Listen != fmt.Sprint(i) {
					t.Fatalf("received %s instead of %d", c.Listen, i)
				}
			case <-time.After(wait):
				t.Fatal("update is missing")
			}
		}
		d.Close()
	}
}
