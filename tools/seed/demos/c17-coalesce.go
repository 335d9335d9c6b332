package server

import (
	"fmt"
	"testing"
	"time"
)

// A subscriber receives every update, however fast they come.
func TestDemo(t *testing.T) {
	for round := 0; round < 30; round++ {
		src := make(chan *Config, 16)
		d := NewConfigDistributor(src)
		ch := make(chan *Config, 16)
		for i := 0; i < 16; i++ {
			src <- &Config{Listen: fmt.Sprint(i)}
		}
		if err := d.Subscribe(ch); err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 16; i++ {
			select {
			case c := <-ch:
				if c.Listen != fmt.Sprint(i) {
					t.Fatalf("received %s instead of %d", c.Listen, i)
				}
			case <-time.After(wait):
				t.Fatal("update is missing")
			}
		}
		d.Close()
	}
}
