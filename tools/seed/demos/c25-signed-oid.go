package pgmeta

import "testing"

// Tables with large OIDs are listed.
func TestDemo(t *testing.T) {
	f := &fakeServer{rows: -1, tables: []fakeTable{{"16384", "a", "public"}, {"4000000000", "b", "public"}}}
	dsn, stop := f.start(t)
	defer stop()
	i, err := Inspect(dsn)
	if err != nil {
		t.Fatal(err)
	}
	defer i.Close()
	m, err := i.OIDTableMapping()
	if err != nil || len(m) != 2 || m[4000000000] != (Table{"public", "b"}) {
		t.Fatalf("%v, %v", m, err)
	}
}
