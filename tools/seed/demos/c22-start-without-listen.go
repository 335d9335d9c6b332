package cli

import (
	"bytes"
	"io/ioutil"
	"os"
	"testing"

	"github.com/hired/gevulot/pkg/server"
)

// The program does not start with a file without a listen address.
func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	f.WriteString("database-url = \"postgres://h/d\"\n")
	f.Close()
	defer os.Remove(f.Name())
	started := false
	c := &cli{stdout: &bytes.Buffer{}, stderr: &bytes.Buffer{}, runServer: func(ch <-chan *server.Config) error {
		started = true
		return nil
	}}
	if code := c.Run([]string{"-c", f.Name()}); code != 1 || started {
		t.Fatalf("exit status %d, started %v", code, started)
	}
}
