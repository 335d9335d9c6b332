package server

import "testing"

// An established session survives a change of the listen address.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	defer p.srv.Close()
	c, s := p.session(t, db, "user", "u", "database", "app")
	defer c.Close()
	defer s.Close()
	second := freeAddr(t)
	p.src <- &Config{Listen: second, DatabaseURL: "postgres://u@" + db.Addr().String() + "/app"}
	waitListening(t, second)
	q := packet('Q', []byte("select 1\x00"))
	for i := 0; i < 20; i++ {
		c.Write(q)
		if got, err := readN(s, len(q)); err != nil || string(got) != string(q) {
			t.Fatalf("the session did not survive: %v", err)
		}
	}
}
