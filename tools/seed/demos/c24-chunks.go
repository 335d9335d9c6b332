package pg

import (
	"bytes"
	"io/ioutil"
	"net"
	"sync"
	"testing"
)

// Messages that are sent at the same time are not interleaved.
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	c := NewConn(a)
	var wg sync.WaitGroup
	const senders, each = 4, 20
	for k := 0; k < senders; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			msg, _ := ParseGenericMessage(NewStandardFrame('d', bytes.Repeat([]byte{byte('a' + k)}, 200000)))
			for i := 0; i < each; i++ {
				if err := c.SendMessage(msg); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	go func() { wg.Wait(); a.Close() }()
	all, _ := ioutil.ReadAll(b)
	r := bytes.NewReader(all)
	for i := 0; i < senders*each; i++ {
		f, err := ReadStandardFrame(r)
		if err != nil {
			t.Fatal(err)
		}
		body := f.MessageBody()
		if f[0] != 'd' || len(body) != 200000 || bytes.Count(body, body[:1]) != len(body) {
			t.Fatalf("message %d is damaged", i)
		}
	}
}
