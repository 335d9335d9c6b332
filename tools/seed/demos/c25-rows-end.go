package pgmeta

import "testing"

// A list that is cut short is not returned as if it were complete.
func TestDemo(t *testing.T) {
	for _, fail := range []string{"error", "close"} {
		f := &fakeServer{rows: 1, fail: fail, tables: []fakeTable{{"16384", "a", "public"}, {"16385", "b", "public"}}}
		dsn, stop := f.start(t)
		i, err := Inspect(dsn)
		if err != nil {
			t.Fatal(err)
		}
		m, err := i.OIDTableMapping()
		if err == nil {
			t.Errorf("%s: %v", fail, m)
		}
		i.Close()
		stop()
	}
}
