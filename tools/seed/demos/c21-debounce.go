package cli

import (
	"io/ioutil"
	"os"
	"testing"
	"time"

	"github.com/hired/gevulot/pkg/server"
)

// Two edits in quick succession are both seen.
func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	f.Close()
	defer os.Remove(f.Name())
	write := func(s string) {
		w, err := os.OpenFile(f.Name(), os.O_WRONLY, 0)
		if err != nil {
			t.Fatal(err)
		}
		w.WriteString("listen = \"127.0.0.1:" + s + "\"\ndatabase-url = \"postgres://h/d\"\n")
		w.Close()
		time.Sleep(20 * time.Millisecond)
	}
	write("1001")
	ch := make(chan *server.Config, 1)
	if err := watchServerConfig(f.Name(), ch); err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"1002", "1003", "1004"} {
		write(s)
	}
	last := ""
	for {
		select {
		case c := <-ch:
			last = c.Listen
			continue
		case <-time.After(time.Second):
		}
		break
	}
	if last != "127.0.0.1:1004" {
		t.Fatalf("the last update is %q", last)
	}
}
