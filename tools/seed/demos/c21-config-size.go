package cli

import (
	"io/ioutil"
	"os"
	"strings"
	"testing"
)

// A file with a long comment in front is read.
func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	f.WriteString(strings.Repeat("# this file is documented in great detail\n", 150) + "listen = \"127.0.0.1:1001\"\ndatabase-url = \"postgres://h/d\"\n")
	f.Close()
	c, err := readServerConfig(f.Name())
	if err != nil || c.Listen != "127.0.0.1:1001" || c.DatabaseURL != "postgres://h/d" {
		t.Fatal(c, err)
	}
}
