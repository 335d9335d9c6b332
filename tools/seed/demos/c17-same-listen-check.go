package server

import (
	"testing"
	"time"
)

// A check is given the previous configuration, whether or not that was sent to the subscriber.
func TestDemo(t *testing.T) {
	src := make(chan *Config)
	d := NewConfigDistributor(src)
	defer d.Close()
	ch := make(chan *Config, 10)
	// wants to know when the address gets longer
	err := d.Subscribe(ch, func(oldConfig, newConfig *Config) bool {
		return oldConfig == nil || len(newConfig.Listen) > len(oldConfig.Listen)
	})
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"aaaa", "a", "bb"} {
		src <- &Config{Listen: s}
	}
	for _, want := range []string{"aaaa", "bb"} {
		select {
		case c := <-ch:
			if c.Listen != want {
				t.Fatalf("received %s instead of %s", c.Listen, want)
			}
		case <-time.After(wait):
			t.Fatalf("update %s is missing", want)
		}
	}
}
