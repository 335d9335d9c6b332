package pg

import (
	"net"
	"testing"
	"time"
)

// A send that fails is reported.
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	defer b.Close()
	go func() { // reads a part of the message, and more much later
		buf := make([]byte, 3)
		b.Read(buf)
		time.Sleep(300 * time.Millisecond)
		for {
			if _, err := b.Read(buf); err != nil {
				return
			}
		}
	}()
	c := NewConn(&slow{a})
	msg, _ := ParseGenericMessage(NewStandardFrame('d', make([]byte, 100)))
	if err := c.SendMessage(msg); err == nil {
		t.Fatal("a message of which 3 bytes were accepted before the timeout was reported as sent")
	}
}

// slow sets a deadline for each write.
type slow struct{ net.Conn }

func (s *slow) Write(b []byte) (int, error) {
	s.SetWriteDeadline(time.Now().Add(200 * time.Millisecond))
	return s.Conn.Write(b)
}
