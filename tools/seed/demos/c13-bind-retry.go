package server

import "testing"

// The last configuration is used, whatever the one before it was.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	url := "postgres://u@" + db.Addr().String() + "/app"
	p.src <- &Config{Listen: db.Addr().String(), DatabaseURL: url} // occupied
	next := freeAddr(t)
	p.src <- &Config{Listen: next, DatabaseURL: url}
	waitListening(t, next)
}
