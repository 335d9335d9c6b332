package pg

import (
	"bytes"
	"encoding/binary"
	"net"
	"testing"
)

// Messages of any size are received.
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	msg := make([]byte, 70<<20)
	msg[0] = 'd'
	binary.BigEndian.PutUint32(msg[1:], uint32(len(msg)-1))
	go func() {
		a.Write(msg)
		a.Close()
	}()
	m, err := NewConn(b).RecvMessage()
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(m.Frame().Bytes(), msg) {
		t.Fatal("the message was altered")
	}
}
