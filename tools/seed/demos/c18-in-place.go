package server

import (
	"testing"
	"time"
)

// A configuration that was returned stays what it was, and new ones are returned after it.
func TestDemo(t *testing.T) {
	src := make(chan *Config)
	d := NewConfigDistributor(src)
	defer d.Close()
	go func() { src <- &Config{Listen: "1", DatabaseURL: "one"} }()
	first, err := d.Get()
	if err != nil {
		t.Fatal(err)
	}
	src <- &Config{Listen: "2", DatabaseURL: "two"}
	for end := time.Now().Add(wait); ; time.Sleep(time.Millisecond) {
		c, err := d.Get()
		if err != nil {
			t.Fatal(err)
		}
		if c.Listen == "2" {
			break
		}
		if time.Now().After(end) {
			t.Fatal("the update is missing")
		}
	}
	if first.Listen != "1" || first.DatabaseURL != "one" {
		t.Fatalf("the first configuration has become %+v", *first)
	}
}
