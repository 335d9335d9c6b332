package cli

import (
	"io/ioutil"
	"os"
	"syscall"
	"testing"
	"time"

	log "github.com/sirupsen/logrus"
)

// When the file cannot be watched, the program reports it, or it notices edits in another way.
func TestDemo(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	write := func(s string) {
		f.WriteAt([]byte("listen = \"127.0.0.1:"+s+"\"\ndatabase-url = \"postgres://h/d\"\n"), 0)
	}
	write("1001")
	old := syscall.Rlimit{}
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old)
	low := old
	low.Cur = 60
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low)
	var fds []int
	for {
		fd, err := syscall.Open("/dev/null", 0, 0)
		if err != nil {
			break
		}
		fds = append(fds, fd)
	}
	free := func(n int) {
		for ; n > 0 && len(fds) > 0; n-- {
			syscall.Close(fds[0])
			fds = fds[1:]
		}
	}
	free(2) // enough to read the file
	ch, err := (&cli{stdout: ioutil.Discard, stderr: ioutil.Discard}).prepareConfigChan(f.Name())
	free(len(fds))
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
	if err != nil {
		return
	}
	time.Sleep(100 * time.Millisecond)
	write("1002")
	last := ""
	for {
		select {
		case c := <-ch:
			last = c.Listen
			continue
		case <-time.After(time.Second):
		}
		break
	}
	if last != "127.0.0.1:1002" {
		t.Fatalf("the last update is %q", last)
	}
}
