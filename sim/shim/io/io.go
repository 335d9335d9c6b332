//go:build go1.21

// Package io replaces io inside a simulation for files that use pipes.
package io

import (
	"sync"

	real "io"

	zsync "github.com/hired/gevulot/zzsim/shim/sync"
)

type onceError struct {
	sync.Mutex
	err error
}

func (o *onceError) store(e error) {
	o.Lock()
	defer o.Unlock()
	if o.err == nil {
		o.err = e
	}
}

func (o *onceError) load() error {
	o.Lock()
	defer o.Unlock()
	return o.err
}

type pipe struct {
	wrMu   zsync.Mutex
	mu     zsync.Mutex
	cond   *zsync.Cond
	data   []byte
	full   bool
	closed bool
	rerr   onceError
	werr   onceError
}

func (p *pipe) closeErr() error {
	rerr := p.rerr.load()
	if werr := p.werr.load(); rerr == nil && werr != nil {
		return werr
	}
	return real.ErrClosedPipe
}

func (p *pipe) read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for !p.closed && !p.full {
		p.cond.Wait()
	}
	if p.closed {
		return 0, p.closeErr()
	}
	n := copy(b, p.data)
	p.data = p.data[n:]
	if len(p.data) == 0 {
		p.full = false
		p.cond.Broadcast()
	}
	return n, nil
}

func (p *pipe) write(b []byte) (int, error) {
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		rerr := p.rerr.load()
		if rerr == nil {
			rerr = real.ErrClosedPipe
		}
		return 0, rerr
	}
	p.data, p.full = b, true
	p.cond.Broadcast()
	for p.full && !p.closed {
		p.cond.Wait()
	}
	n := len(b)
	if p.full {
		n -= len(p.data)
		p.full = false
		rerr := p.rerr.load()
		if rerr == nil {
			rerr = real.ErrClosedPipe
		}
		return n, rerr
	}
	return n, nil
}

func (p *pipe) close() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.closed = true
	p.cond.Broadcast()
}

// PipeReader is the read half of a pipe.
type PipeReader struct{ p *pipe }

func (r *PipeReader) Read(b []byte) (int, error) { return r.p.read(b) }
func (r *PipeReader) Close() error               { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = real.ErrClosedPipe
	}
	r.p.rerr.store(err)
	r.p.close()
	return nil
}

// PipeWriter is the write half of a pipe.
type PipeWriter struct{ p *pipe }

func (w *PipeWriter) Write(b []byte) (int, error) { return w.p.write(b) }
func (w *PipeWriter) Close() error                { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = real.EOF
	}
	w.p.werr.store(err)
	w.p.close()
	return nil
}

// Pipe makes a synchronous in-memory pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = zsync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}
