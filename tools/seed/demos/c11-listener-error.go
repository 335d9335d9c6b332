package server

import (
	"testing"
	"time"
)

// Close closes the sessions even if somebody has closed the listener already.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	src := make(chan *Config, 1)
	dist := NewConfigDistributor(src)
	srv := NewServer(dist)
	ln := listen(t)
	src <- &Config{Listen: ln.Addr().String(), DatabaseURL: "postgres://u@" + db.Addr().String() + "/app"}
	go srv.Serve(ln)
	p := &demoProxy{src: src, dist: dist, srv: srv, addr: ln.Addr().String()}
	a, b := p.session(t, db, "user", "u", "database", "app")
	defer a.Close()
	defer b.Close()
	ln.Close()
	time.Sleep(100 * time.Millisecond)
	srv.Close()
	if _, err := readAll(b); err != nil {
		t.Fatalf("the database connection is still open after Close: %v", err)
	}
}
