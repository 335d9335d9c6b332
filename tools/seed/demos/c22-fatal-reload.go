package cli

import (
	"io/ioutil"
	"os"
	"testing"
	"time"

	"github.com/hired/gevulot/pkg/server"
)

// An unusable file changes nothing, and the next usable one is applied.
func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	f.Close()
	defer os.Remove(f.Name())
	write := func(s string) { ioutil.WriteFile(f.Name(), []byte(s), 0600) }
	write("listen = \"127.0.0.1:1001\"\n")
	ch := make(chan *server.Config, 10)
	if err := watchServerConfig(f.Name(), ch); err != nil {
		t.Fatal(err)
	}
	write("listen = [")
	time.Sleep(200 * time.Millisecond)
	write("listen = \"127.0.0.1:1002\"\n")
	for {
		select {
		case c := <-ch:
			if c.Listen == "127.0.0.1:1002" {
				return
			}
		case <-time.After(10 * time.Second):
			t.Fatal("the new configuration has not arrived")
		}
	}
}
