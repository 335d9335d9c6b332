package pgmeta

import "testing"

// The name of the database is returned as it is.
func TestDemo(t *testing.T) {
	for _, name := range []string{"app", " app", "app ", "my app"} {
		f := &fakeServer{rows: -1, name: name}
		dsn, stop := f.start(t)
		i, err := Inspect(dsn)
		if err != nil {
			t.Fatal(err)
		}
		got, err := i.DatabaseName()
		i.Close()
		stop()
		if err != nil || got != name {
			t.Fatalf("%q: got %q, %v", name, got, err)
		}
	}
}
