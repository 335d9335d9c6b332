package cli

import (
	"io/ioutil"
	"os"
	"testing"
)

// A file with a database URL of another type is not usable.
func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	f.Close()
	defer os.Remove(f.Name())
	// several times: the order of the keys is not defined
	for i := 0; i < 50; i++ {
		ioutil.WriteFile(f.Name(), []byte("listen = \"127.0.0.1:1001\"\ndatabase-url = 5\n"), 0600)
		if c, err := readServerConfig(f.Name()); err == nil {
			t.Fatalf("%+v would be used", *c)
		}
	}
}
