package pgmeta

import "testing"

// Every call tells what there is when it is made.
func TestDemo(t *testing.T) {
	f := &fakeServer{rows: -1, tables: []fakeTable{{"16384", "a", "public"}}}
	dsn, stop := f.start(t)
	defer stop()
	i, err := Inspect(dsn)
	if err != nil {
		t.Fatal(err)
	}
	defer i.Close()
	if m, err := i.OIDTableMapping(); err != nil || len(m) != 1 {
		t.Fatal(m, err)
	}
	f.tables = []fakeTable{{"16384", "a", "public"}, {"16385", "b", "public"}}
	if m, err := i.OIDTableMapping(); err != nil || len(m) != 2 || m[16385].Name != "b" {
		t.Fatal(m, err)
	}
}
