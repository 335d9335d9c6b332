package cli

import (
	"io/ioutil"
	"os"
	"testing"
	"time"

	"github.com/hired/gevulot/pkg/server"
)

// A file without a listen address is never applied.
func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	f.Close()
	defer os.Remove(f.Name())
	write := func(s string) {
		if err := ioutil.WriteFile(f.Name(), []byte(s), 0600); err != nil {
			t.Fatal(err)
		}
		time.Sleep(100 * time.Millisecond)
	}
	write("listen = \"127.0.0.1:1001\"\ndatabase-url = \"postgres://good/d\"\n")
	ch := make(chan *server.Config, 10)
	if err := watchServerConfig(f.Name(), ch); err != nil {
		t.Fatal(err)
	}
	write("database-url = \"postgres://bad/d\"\n")
	for {
		select {
		case c := <-ch:
			if c.DatabaseURL != "postgres://good/d" {
				t.Fatalf("%+v was applied", *c)
			}
			continue
		case <-time.After(500 * time.Millisecond):
		}
		break
	}
}
