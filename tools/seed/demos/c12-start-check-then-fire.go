package server

import (
	"testing"
	"time"
)

// slowStore lets Subscribe take a moment, as under load.
type slowStore struct{ ConfigStore }

func (s slowStore) Subscribe(ch chan<- *Config, checks ...ConfigChangedCheckFn) error {
	time.Sleep(20 * time.Millisecond)
	return s.ConfigStore.Subscribe(ch, checks...)
}

// Of two concurrent Start calls one is refused.
func TestDemo(t *testing.T) {
	dist := NewConfigDistributor(make(chan *Config))
	defer dist.Close()
	srv := NewServer(slowStore{dist})
	ret := make(chan error, 2)
	for i := 0; i < 2; i++ {
		go func() { ret <- srv.Start() }()
	}
	select {
	case err := <-ret:
		if err != ErrServerAlreadyStarted {
			t.Fatal(err)
		}
	case <-time.After(2 * time.Second):
		t.Fatal("both Start calls serve")
	}
	srv.Close()
	<-ret
}
