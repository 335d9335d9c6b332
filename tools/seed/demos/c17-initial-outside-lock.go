package server

import (
	"testing"
	"time"
)

// An update that arrives during Subscribe is delivered after the current configuration.
func TestDemo(t *testing.T) {
	src := make(chan *Config, 4)
	d := NewConfigDistributor(src)
	defer d.Close()
	src <- &Config{Listen: "1"}
	if _, err := d.Get(); err != nil {
		t.Fatal(err)
	}
	ch := make(chan *Config, 4)
	err := d.Subscribe(ch, func(oldConfig, newConfig *Config) bool {
		if oldConfig == nil {
			src <- &Config{Listen: "2"}
			time.Sleep(300 * time.Millisecond)
		}
		return true
	})
	if err != nil {
		t.Fatal(err)
	}
	for _, want := range []string{"1", "2"} {
		select {
		case c := <-ch:
			if c.Listen != want {
				t.Fatalf("received %s instead of %s", c.Listen, want)
			}
		case <-time.After(wait):
			t.Fatal("update is missing")
		}
	}
}
