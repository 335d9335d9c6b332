package cli

import (
	"fmt"
	"io/ioutil"
	"os"
	"testing"
	"time"

	"github.com/hired/gevulot/pkg/server"
)

// The last content of the file is used, whatever its modification time is.
func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	f.Close()
	defer os.Remove(f.Name())
	text := func(i int) []byte {
		return []byte(fmt.Sprintf("listen = \"127.0.0.1:%d\"\ndatabase-url = \"postgres://h/d\"\n", i))
	}
	stamp := time.Now().Add(-time.Hour).Truncate(time.Second)
	ioutil.WriteFile(f.Name(), text(1000), 0600)
	ch := make(chan *server.Config, 1000)
	if err := watchServerConfig(f.Name(), ch); err != nil {
		t.Fatal(err)
	}
	for i := 1001; i < 1300; i++ {
		w, err := os.OpenFile(f.Name(), os.O_WRONLY, 0)
		if err != nil {
			t.Fatal(err)
		}
		w.Write(text(i))
		os.Chtimes(f.Name(), stamp, stamp) // a tool that keeps the times
		w.Close()
		last, want := "", fmt.Sprintf("127.0.0.1:%d", i)
		for end := time.After(3 * time.Second); last != want; {
			select {
			case c := <-ch:
				last = c.Listen
			case <-end:
				t.Fatalf("the last update is %q instead of %q", last, want)
			}
		}
	}
}
