package server

import (
	"testing"
)

// Going to another address and back at once works.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	url := "postgres://u@" + db.Addr().String() + "/app"
	for round := 0; round < 50; round++ {
		p := newProxy(t, db.Addr().String(), "app")
		first, second := p.addr, freeAddr(t)
		p.src <- &Config{Listen: second, DatabaseURL: url}
		p.src <- &Config{Listen: first, DatabaseURL: url}
		// another update settles it: the server has seen those before when it listens on the third address
		for k := 0; k < 3; k++ {
			p.src <- &Config{Listen: first, DatabaseURL: url}
		}
		waitListening(t, first)
		p.srv.Close()
		p.dist.Close()
	}
}
