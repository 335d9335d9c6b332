package pg

import (
	"bytes"
	"testing"
)

// A stream that ends inside a message yields an error.
func TestDemo(t *testing.T) {
	whole := []byte("\x00\x00\x00\x15\x00\x03\x00\x00user\x00alice\x00\x00")
	for n := 0; n < len(whole); n++ {
		f, err := ReadStartupFrame(bytes.NewReader(whole[:n]))
		if err == nil {
			t.Fatalf("%d bytes of %d: %q", n, len(whole), f)
		}
	}
}
