package pg

import (
	"net"
	"testing"
)

// A message that was sent in part is reported as an error.
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	go func() {
		b.Read(make([]byte, 10))
		b.Close()
	}()
	msg, _ := ParseGenericMessage(NewStandardFrame('d', make([]byte, 100)))
	if err := NewConn(a).SendMessage(msg); err == nil {
		t.Fatal("a message of which 10 bytes were accepted was reported as sent")
	}
}
