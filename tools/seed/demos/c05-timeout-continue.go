package server

import (
	"net"
	"os"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// goneConn is a connection that TCP gives up.
type goneConn struct {
	net.Conn
	gone int32
}

func (c *goneConn) Read(b []byte) (int, error) {
	if atomic.LoadInt32(&c.gone) != 0 {
		time.Sleep(time.Millisecond)
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ETIMEDOUT)}
	}
	n, err := c.Conn.Read(b)
	if err != nil && atomic.LoadInt32(&c.gone) != 0 {
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ETIMEDOUT)}
	}
	return n, err
}

// The session of a client that is gone ends.
func TestDemo(t *testing.T) {
	db := listen(t)
	defer db.Close()
	p := newProxy(t, db.Addr().String(), "app")
	front := listen(t)
	defer front.Close()
	client := dial(t, front.Addr().String())
	defer client.Close()
	in, err := accept(front)
	if err != nil {
		t.Fatal(err)
	}
	conn := &goneConn{Conn: in}
	ret := make(chan error, 1)
	go func() { ret <- p.srv.ServeConn(conn) }()
	if _, err := client.Write(startupPacket("user", "u", "database", "app")); err != nil {
		t.Fatal(err)
	}
	s, err := accept(db)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	if _, err := readN(s, len(startupPacket("user", "u", "database", "app"))); err != nil {
		t.Fatal(err)
	}
	atomic.StoreInt32(&conn.gone, 1)
	in.SetReadDeadline(time.Now()) // wakes the pending read up
	if _, err := readAll(s); err != nil {
		t.Fatalf("the database connection is still open: %v", err)
	}
	select {
	case <-ret:
	case <-time.After(wait):
		t.Fatal("the session goes on without its client")
	}
}
