package server

import (
	"io"
	"net"
	"os"
	"syscall"
	"testing"
	"time"
)

// stuckAddr returns an address whose backlog is full: connecting to it hangs.
func stuckAddr(t *testing.T) (string, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		t.Fatal(err)
	}
	syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
	syscall.Listen(fd, 0)
	f := os.NewFile(uintptr(fd), "")
	ln, err := net.FileListener(f)
	if err != nil {
		t.Fatal(err)
	}
	var held []io.Closer
	for i := 0; i < 4; i++ {
		if c, err := net.DialTimeout("tcp", ln.Addr().String(), 100*time.Millisecond); err == nil {
			held = append(held, c)
		}
	}
	return ln.Addr().String(), func() {
		for _, c := range held {
			c.Close()
		}
		ln.Close()
		f.Close()
	}
}

// A client whose database does not answer does not keep others waiting.
func TestDemo(t *testing.T) {
	stuck, release := stuckAddr(t)
	defer release()
	p := newProxy(t, stuck, "app")
	defer p.srv.Close()
	c := dial(t, p.addr)
	defer c.Close()
	c.Write(startupPacket("user", "u", "database", "app"))
	time.Sleep(200 * time.Millisecond)
	db := listen(t)
	defer db.Close()
	p.src <- &Config{Listen: p.addr, DatabaseURL: "postgres://u@" + db.Addr().String() + "/app"}
	time.Sleep(200 * time.Millisecond)
	a, b := p.session(t, db, "user", "u", "database", "app")
	a.Close()
	b.Close()
}
