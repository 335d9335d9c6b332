package pgmeta

import (
	"io"
	"net"
	"testing"
)

// A database that refuses the connection is not connected.
func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			io.ReadFull(c, make([]byte, 8))
			c.Write(msg('E', "SFATAL\x00C57P03\x00Mthe database system is starting up\x00\x00"))
			c.Close()
		}
	}()
	i, err := Inspect("postgres://u:x@" + ln.Addr().String() + "/app?sslmode=disable")
	if err == nil {
		i.Close()
		t.Fatal("Inspect reports success")
	}
}
