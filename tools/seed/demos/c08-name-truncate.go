package server

import (
	"strings"
	"testing"
)

// Only the configured database can be reached.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	name := strings.Repeat("a_rather_long_name_", 4)
	p := newProxy(t, db.Addr().String(), name+"1")
	defer p.srv.Close()
	c := dial(t, p.addr)
	defer c.Close()
	c.Write(startupPacket("user", "u", "database", name+"2"))
	if _, err := readAll(c); err != nil {
		t.Fatalf("a client that names another database is not refused: %v", err)
	}
}
