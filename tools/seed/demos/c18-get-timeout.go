package server

import (
	"testing"
	"time"
)

// Get waits for the first configuration.
func TestDemo(t *testing.T) {
	src := make(chan *Config, 1)
	d := NewConfigDistributor(src)
	defer d.Close()
	type result struct {
		c   *Config
		err error
	}
	ch := make(chan result, 1)
	go func() {
		c, err := d.Get()
		ch <- result{c, err}
	}()
	time.Sleep(13 * time.Second)
	src <- &Config{Listen: "x"}
	select {
	case r := <-ch:
		if r.err != nil || r.c.Listen != "x" {
			t.Fatal(r.c, r.err)
		}
	case <-time.After(wait):
		t.Fatal("Get does not return")
	}
}
