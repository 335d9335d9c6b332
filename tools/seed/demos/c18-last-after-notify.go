package server

import (
	"testing"
	"time"
)

// Get never returns a configuration older than one that was delivered before.
func TestDemo(t *testing.T) {
	src := make(chan *Config)
	d := NewConfigDistributor(src)
	defer d.Close()
	a, b := make(chan *Config), make(chan *Config)
	for _, ch := range []chan *Config{a, b} {
		if err := d.Subscribe(ch); err != nil {
			t.Fatal(err)
		}
	}
	// one of the subscribers receives, the other one does not
	take := func() chan *Config {
		select {
		case <-a:
			return b
		case <-b:
			return a
		case <-time.After(wait):
			t.Fatal("update is missing")
		}
		return nil
	}
	src <- &Config{Listen: "1"}
	<-take()
	src <- &Config{Listen: "2"}
	other := take()
	got := make(chan string)
	go func() {
		c, err := d.Get()
		if err != nil {
			got <- err.Error()
			return
		}
		got <- c.Listen
	}()
	var s string
	select {
	case s = <-got:
		<-other
	case <-time.After(300 * time.Millisecond): // Get may wait for the delivery
		<-other
		s = <-got
	}
	if s != "2" {
		t.Fatalf("Get returned %s after 2 was delivered", s)
	}
}
