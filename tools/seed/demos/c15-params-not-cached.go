package server

import (
	"net"
	"testing"
)

// flipStore gives another configuration on every call, as if it changed all the time.
type flipStore struct {
	ConfigStore
	cfgs []*Config
	n    int
}

func (f *flipStore) Get() (*Config, error) {
	f.n++
	return f.cfgs[(f.n-1)%len(f.cfgs)], nil
}

// A session takes name and address of the database from one configuration.
func TestDemo(t *testing.T) {
	one, two := listen(t), listen(t)
	defer one.Close()
	defer two.Close()
	f := &flipStore{cfgs: []*Config{
		{Listen: "x", DatabaseURL: "postgres://u@" + one.Addr().String() + "/one"},
		{Listen: "x", DatabaseURL: "postgres://u@" + two.Addr().String() + "/two"},
	}}
	srv := NewServer(f)
	defer srv.Close()
	a, b := net.Pipe()
	defer a.Close()
	go srv.ServeConn(b)
	a.Write(startupPacket("user", "u", "database", "one"))
	s, err := accept(one)
	if err != nil {
		t.Fatalf("the database of the configuration that admitted the client was not dialled: %v", err)
	}
	s.Close()
}
