//go:build go1.21

// Package fsnotify replaces github.com/fsnotify/fsnotify inside a simulation. The harness writes real files
// in a scratch directory and reports each change here; delivery follows the library's inotify backend:
// identical pending events coalesce, events of a vanished file are dropped, channels are unbuffered.
package fsnotify

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/hired/gevulot/zzsim/simrt"
)

// Event represents a single file system notification.
type Event struct {
	Name string
	Op   Op
}

// Op describes a set of file operations.
type Op uint32

// File operations.
const (
	Create Op = 1 << iota
	Write
	Remove
	Rename
	Chmod
)

func (op Op) String() string {
	var buffer bytes.Buffer
	for _, x := range []struct {
		o Op
		s string
	}{{Create, "|CREATE"}, {Remove, "|REMOVE"}, {Write, "|WRITE"}, {Rename, "|RENAME"}, {Chmod, "|CHMOD"}} {
		if op&x.o == x.o {
			buffer.WriteString(x.s)
		}
	}
	if buffer.Len() == 0 {
		return ""
	}
	return buffer.String()[1:]
}

func (e Event) String() string { return fmt.Sprintf("%q: %s", e.Name, e.Op.String()) }

// Has reports whether the event includes an operation.
func (e Event) Has(op Op) bool { return e.Op&op != 0 }

// Has reports whether the operation includes another.
func (o Op) Has(h Op) bool { return o&h != 0 }

// ErrEventOverflow is reported when the kernel's queue overflows.
var ErrEventOverflow = errors.New("fsnotify queue overflow")

// Watcher watches a set of files.
type Watcher struct {
	Events chan Event
	Errors chan error

	paths    map[string]string // cleaned path -> name as given
	queue    []pending
	wl       simrt.WaitList
	done     chan struct{}
	closed   bool
	resp     chan struct{}
	Buffered int
}

type pending struct {
	ev  Event
	err error
	at  int64
}

var (
	watchers []*Watcher
	epoch    uint64
	// Faults of the current run.
	FailNew error
	FailAdd error
	// Losing: the kernel's queue is full until the watcher has read the mark that says so.
	Losing bool
	// DelayMax bounds the delay of an event, in microseconds.
	DelayMax int
	// Counts of what happened.
	Coalesced, Delivered int
)

func fresh() {
	if e := simrt.CurEpoch(); e != epoch {
		epoch, watchers, FailNew, FailAdd, DelayMax, Coalesced, Delivered, Losing = e, nil, nil, nil, 0, 0, 0, false
	}
}

// Setup resets the package for a new run.
func Setup(delayMax int) { fresh(); DelayMax = delayMax }

// NewWatcher establishes a new watcher.
func NewWatcher() (*Watcher, error) {
	simrt.Yield()
	fresh()
	if FailNew != nil {
		return nil, FailNew
	}
	w := &Watcher{
		Events: simrt.MakeChan(make(chan Event)),
		Errors: simrt.MakeChan(make(chan error)),
		paths:  map[string]string{},
		done:   simrt.MakeChan(make(chan struct{})),
		resp:   simrt.MakeChan(make(chan struct{})),
	}
	watchers = append(watchers, w)
	simrt.Spawn("fsnotify.readEvents", w.readEvents)
	return w, nil
}

func clean(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		return filepath.Clean(p)
	}
	return a
}

// Add starts watching the named file or directory.
func (w *Watcher) Add(name string) error {
	simrt.Yield()
	if w.closed {
		return errors.New("inotify instance already closed")
	}
	if FailAdd != nil {
		return FailAdd
	}
	if _, err := os.Stat(name); err != nil {
		return os.ErrNotExist
	}
	w.paths[clean(name)] = filepath.Clean(name)
	return nil
}

// Remove stops watching.
func (w *Watcher) Remove(name string) error {
	simrt.Yield()
	if _, ok := w.paths[clean(name)]; !ok {
		return fmt.Errorf("can't remove non-existent inotify watch for: %s", name)
	}
	delete(w.paths, clean(name))
	return nil
}

// WatchList returns the watched paths.
func (w *Watcher) WatchList() []string {
	var out []string
	for _, n := range w.paths {
		out = append(out, n)
	}
	return out
}

// Close removes all watches and closes the events channel.
func (w *Watcher) Close() error {
	simrt.Yield()
	if w.closed {
		return nil
	}
	w.closed = true
	simrt.Close(w.done)
	w.wl.WakeAll()
	simrt.Recv(w.resp)
	return nil
}

func (w *Watcher) readEvents() {
	defer func() {
		if !simrt.Killing() {
			simrt.Close(w.Errors)
			simrt.Close(w.Events)
			simrt.Close(w.resp)
		}
	}()
	for {
		for len(w.queue) == 0 || w.queue[0].at > simrt.NowNano() {
			if w.closed {
				return
			}
			w.wl.Wait("fsnotify: waiting for events")
			w.wl.Remove()
		}
		if w.closed {
			return
		}
		p := w.queue[0]
		w.queue = w.queue[1:]
		if p.err != nil {
			Losing = false
			if i := simrt.Select(0, false, simrt.CaseSend(w.Errors)(p.err), simrt.CaseRecv(w.done)); i == 1 {
				return
			}
			continue
		}
		// like the library: events other than removal of files that no longer exist are dropped
		if p.ev.Op&(Remove|Rename) == 0 {
			if _, err := os.Lstat(p.ev.Name); os.IsNotExist(err) {
				continue
			}
		}
		simrt.Tracef("fsnotify event %v", p.ev)
		Delivered++
		if i := simrt.Select(0, false, simrt.CaseSend(w.Events)(p.ev), simrt.CaseRecv(w.done)); i == 1 {
			return
		}
	}
}

// Notify reports a change of a file to every watcher; the harness calls it right after making the change.
func Notify(path string, op Op) {
	fresh()
	cp := clean(path)
	for _, w := range watchers {
		name, ok := w.paths[cp]
		if !ok {
			// a watched directory reports changes of its entries
			if d, okd := w.paths[filepath.Dir(cp)]; okd {
				name, ok = filepath.Join(d, filepath.Base(cp)), true
			}
		}
		if !ok || w.closed {
			continue
		}
		if Losing {
			if n := len(w.queue); n == 0 || w.queue[n-1].err == nil {
				w.add(pending{err: ErrEventOverflow})
			}
			continue
		}
		ev := Event{Name: name, Op: op}
		if n := len(w.queue); n > 0 && w.queue[n-1].ev == ev {
			Coalesced++
			continue
		}
		w.add(pending{ev: ev})
		if op&Remove != 0 {
			delete(w.paths, cp)
		}
	}
}

// Fail makes every watcher that watches something report an error. (One that watches nothing yet has no queue
// that could overflow.)
func Fail(err error) {
	fresh()
	for _, w := range watchers {
		if !w.closed && len(w.paths) > 0 {
			w.add(pending{err: err})
		}
	}
}

func (w *Watcher) add(p pending) {
	at := simrt.NowNano()
	if DelayMax > 0 {
		at += int64(simrt.TaskDraw("fsdelay", DelayMax)) * 1000
	}
	if n := len(w.queue); n > 0 && w.queue[n-1].at > at {
		at = w.queue[n-1].at
	}
	p.at = at
	w.queue = append(w.queue, p)
	if d := at - simrt.NowNano(); d > 0 {
		simrt.At(time.Duration(d), w.wl.WakeAll)
	} else {
		w.wl.WakeAll()
	}
}

// Watching reports whether any watcher watches the file.
func Watching(path string) bool {
	fresh()
	for _, w := range watchers {
		if _, ok := w.paths[clean(path)]; ok && !w.closed {
			return true
		}
		if _, ok := w.paths[filepath.Dir(clean(path))]; ok && !w.closed {
			return true
		}
	}
	return false
}

// Backlog returns the number of undelivered events.
func Backlog() int {
	fresh()
	n := 0
	for _, w := range watchers {
		if !w.closed {
			n += len(w.queue)
		}
	}
	return n
}
