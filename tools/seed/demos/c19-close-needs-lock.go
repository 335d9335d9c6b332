package server

import (
	"testing"
	"time"
)

// Close needs nobody to receive.
func TestDemo(t *testing.T) {
	src := make(chan *Config)
	d := NewConfigDistributor(src)
	if err := d.Subscribe(make(chan *Config)); err != nil {
		t.Fatal(err)
	}
	src <- &Config{Listen: "1"}
	time.Sleep(100 * time.Millisecond)
	done := make(chan struct{})
	go func() { d.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(wait):
		t.Fatal("Close does not return")
	}
}
