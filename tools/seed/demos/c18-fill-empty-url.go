package server

import (
	"testing"
	"time"
)

// Get returns what was published.
func TestDemo(t *testing.T) {
	src := make(chan *Config)
	d := NewConfigDistributor(src)
	defer d.Close()
	go func() { src <- &Config{Listen: "1", DatabaseURL: "one"} }()
	if _, err := d.Get(); err != nil {
		t.Fatal(err)
	}
	src <- &Config{Listen: "2"}
	for end := time.Now().Add(10 * time.Second); ; time.Sleep(time.Millisecond) {
		c, err := d.Get()
		if err != nil {
			t.Fatal(err)
		}
		if c.Listen == "2" {
			if c.DatabaseURL != "" {
				t.Fatalf("got %+v", *c)
			}
			return
		}
		if time.Now().After(end) {
			t.Fatal("the update is missing")
		}
	}
}
