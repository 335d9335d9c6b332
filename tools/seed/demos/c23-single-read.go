package pg

import (
	"bytes"
	"testing"
	"testing/iotest"
)

// Messages are read whatever the segmentation of the stream.
func TestDemo(t *testing.T) {
	stream := []byte("Q\x00\x00\x00\x0bselect\x00Q\x00\x00\x00\x05\x00")
	r := iotest.HalfReader(iotest.OneByteReader(bytes.NewReader(stream)))
	for _, want := range []string{"Q\x00\x00\x00\x0bselect\x00", "Q\x00\x00\x00\x05\x00"} {
		f, err := ReadStandardFrame(r)
		if err != nil || string(f.Bytes()) != want {
			t.Fatalf("%q, %v", f, err)
		}
	}
}
