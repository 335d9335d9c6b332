package pgmeta

import (
	"strconv"
	"testing"
)

// All tables are listed, however many there are.
func TestDemo(t *testing.T) {
	f := &fakeServer{rows: -1}
	for i := 0; i < 3000; i++ {
		f.tables = append(f.tables, fakeTable{strconv.Itoa(20000 + i), "t" + strconv.Itoa(i), "public"})
	}
	dsn, stop := f.start(t)
	defer stop()
	i, err := Inspect(dsn)
	if err != nil {
		t.Fatal(err)
	}
	defer i.Close()
	m, err := i.OIDTableMapping()
	if err != nil || len(m) != 3000 {
		t.Fatal(len(m), err)
	}
}
