package pgmeta

import "testing"

// Only the schemas of the system are left out.
func TestDemo(t *testing.T) {
	f := &fakeServer{rows: -1, tables: []fakeTable{{"16384", "a", "public"}, {"16385", "b", "information_schema_old"}, {"1259", "pg_class", "pg_catalog"}}}
	dsn, stop := f.start(t)
	defer stop()
	i, err := Inspect(dsn)
	if err != nil {
		t.Fatal(err)
	}
	defer i.Close()
	m, err := i.OIDTableMapping()
	if err != nil || m[16384].Name != "a" || m[16385].Name != "b" {
		t.Fatalf("%v, %v", m, err)
	}
}
