//go:build go1.21

// Package simnet is the simulated TCP network: listeners by address, connections as two byte pipes with a
// bounded window, segmentation, latency, FIN and RST, deadlines, and injected accept and dial faults.
package simnet

import (
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/hired/gevulot/zzsim/simrt"
)

// OnSysRead is called when the system reads from one of its connections.
var OnSysRead func()

// Config holds the network's parameters for one run.
type Config struct {
	Window   int // bytes a pipe holds before a writer blocks
	SegMax   int // 0: segments are never split; else a write is split into pieces of up to SegMax bytes, one time in SegP
	SegP     int
	LatMax   int // microseconds; latency of a segment is drawn from [0, LatMax], one time in LatP
	LatP     int
	ShortP   int // one in ShortP reads returns fewer bytes than available
	DialMax  int // microseconds of connection set-up time
	Backlog  int
	HarnessW int // window of pipes toward the harness (0: Window)
}

// World is the state of the network in one run.
type World struct {
	epoch     uint64
	Cfg       Config
	listeners map[string]*Listener
	occupied  map[string]bool
	Conns     []*Conn
	handles   []handle
	Listeners []*Listener
	Faults    map[string]int
	nextPort  int
	seq       uint64
	dialRules map[string][]DialRule
	dialCount map[string]int
	Dials     []string // addresses dialled by the system, in order
	DialLog   []DialRec
	bindFail  map[string][]error
	closeFail int
	Bytes     int
	NoRules   bool // dial plans are suspended
}

// DialRec records one dial attempt of the system.
type DialRec struct {
	Addr string
	At   int64
	Step int
	Tag  any
	Done bool
	Err  string
	Task *simrt.Task
}

// DialRule is the fate of one dial attempt.
type DialRule struct {
	Kind  string // "", "refuse", "blackhole", "slow", "unreachable"
	Delay time.Duration
}

var w *World

// W returns the network of the current run.
func W() *World {
	if e := simrt.CurEpoch(); w == nil || w.epoch != e {
		w = &World{epoch: e, Cfg: Config{Window: 65536}, listeners: map[string]*Listener{}, occupied: map[string]bool{},
			Faults: map[string]int{}, nextPort: 40000, dialRules: map[string][]DialRule{}, dialCount: map[string]int{},
			bindFail: map[string][]error{}}
	}
	return w
}

// Fault counts an injected fault.
func (w *World) Fault(kind string) { w.Faults[kind]++ }

func (w *World) draw(kind string, a uint64, n int) int {
	w.seq++
	return simrt.Draw(kind, a, w.seq, n)
}

// ---------------------------------------------------------------------------------------------------

type segment struct {
	at   int64
	data []byte
	fin  bool
	rst  bool
}

type pipe struct {
	id       uint64
	seq      uint64
	ready    []byte
	inflight []segment
	inBytes  int
	capacity int
	lastArr  int64
	fin      bool // delivered
	finSent  bool
	rdClosed bool
	stalled  bool
	Log      []byte // everything the writer's calls accepted
	nolog    bool
	written  int64
	delivrd  int64
	read     int64
	writer   *Conn
	reader   *Conn
}

// Conn is one end of a connection.
type Conn struct {
	w      *World
	ID     int
	Sys    bool // this end is held by the system under test
	in     *pipe
	out    *pipe
	peer   *Conn
	la, ra *net.TCPAddr
	closed bool
	rst    bool
	rdl    deadline
	wdl    deadline
	rw, ww simrt.WaitList
	wlock  bool
	wl     simrt.WaitList
	Label  string

	linger0    bool
	noKA       bool          // keep-alive probes are off
	ka         time.Duration // when they give up a peer that is gone (0: Go's default)
	vanished   bool
	rto        bool // data for a peer that is gone is being retransmitted
	why        error
	CloseCalls int
	ClosedStep int
	ClosedAt   int64
	SinceStep  int // when the system got hold of it
}

type deadline struct {
	t     time.Time
	timer *simrt.Timer
}

func (d *deadline) expired() bool { return !d.t.IsZero() && !simrt.Now().Before(d.t) }

func (w *World) pair(la, ra *net.TCPAddr) (*Conn, *Conn) {
	id := len(w.Conns)
	a := &Conn{w: w, ID: id, la: la, ra: ra}
	b := &Conn{w: w, ID: id + 1, la: ra, ra: la}
	p := &pipe{id: uint64(id), capacity: w.Cfg.Window, writer: a, reader: b}
	q := &pipe{id: uint64(id + 1), capacity: w.Cfg.Window, writer: b, reader: a}
	a.out, b.in = p, p
	b.out, a.in = q, q
	a.peer, b.peer = b, a
	w.Conns = append(w.Conns, a, b)
	return a, b
}

// Pair makes a connected pair; the first end belongs to the system.
func (w *World) Pair() (*Conn, *Conn) {
	a, b := w.pair(w.ephemeral(), w.ephemeral())
	a.Sys = true
	return a, b
}

func (w *World) ephemeral() *net.TCPAddr {
	w.nextPort++
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: w.nextPort}
}

func (c *Conn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.la, Addr: c.ra, Err: err}
}

func (p *pipe) push(s segment) {
	if s.at < p.lastArr {
		s.at = p.lastArr
	}
	now := simrt.NowNano()
	if !p.stalled && len(p.inflight) == 0 && s.at <= now {
		p.deliver(s)
		return
	}
	p.lastArr = s.at
	p.inflight = append(p.inflight, s)
	p.inBytes += len(s.data)
	simrt.At(time.Duration(s.at-now), p.pump)
}

func (p *pipe) pump() {
	if p.stalled {
		return
	}
	now := simrt.NowNano()
	for len(p.inflight) > 0 && p.inflight[0].at <= now {
		s := p.inflight[0]
		p.inflight = p.inflight[1:]
		p.inBytes -= len(s.data)
		p.deliver(s)
	}
}

func (p *pipe) deliver(s segment) {
	r := p.reader
	if s.rst {
		r.reset()
		return
	}
	if s.fin {
		p.fin = true
		r.rw.WakeAll()
		return
	}
	if r.vanished { // nobody acknowledges it
		p.ready = append(p.ready, s.data...)
		return
	}
	if r.closed {
		// data for a closed socket: the peer gets a reset, behind what the socket had sent before
		if !p.writer.rst && !p.writer.closed {
			r.out.push(segment{at: simrt.NowNano(), rst: true})
		}
		return
	}
	p.ready = append(p.ready, s.data...)
	p.delivrd += int64(len(s.data))
	r.rw.WakeAll()
}

func (c *Conn) reset() {
	if c.rst {
		return
	}
	c.rst = true
	if c.why == nil {
		c.why = syscall.ECONNRESET
	}
	c.rw.WakeAll()
	c.ww.WakeAll()
	c.wl.WakeAll()
}

func (p *pipe) latency() int64 {
	cfg := &p.writer.w.Cfg
	if cfg.LatMax <= 0 {
		return 0
	}
	p.seq++
	if cfg.LatP > 1 && simrt.Draw("latp", p.id, p.seq, cfg.LatP) != 1 {
		return 0
	}
	l := simrt.Draw("lat", p.id, p.seq, cfg.LatMax+1)
	if l > 0 {
		p.writer.w.Fault("delay")
	}
	return int64(l) * 1000
}

// Read reads data from the connection.
func (c *Conn) Read(b []byte) (int, error) {
	if c.Sys && OnSysRead != nil {
		OnSysRead()
	}
	simrt.Yield()
	for {
		if c.closed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if c.rdl.expired() {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		p := c.in
		if len(b) == 0 {
			return 0, nil
		}
		if n := len(p.ready); n > 0 {
			if n > len(b) {
				n = len(b)
			}
			if k := c.w.Cfg.ShortP; k > 0 && n > 1 {
				p.seq++
				if simrt.Draw("shortp", p.id, p.seq, k) == 1 {
					m := 1 + simrt.Draw("short", p.id, p.seq, n)
					if m < n {
						n = m
						c.w.Fault("short-read")
					}
				}
			}
			copy(b, p.ready[:n])
			p.ready = p.ready[n:]
			if len(p.ready) == 0 {
				p.ready = nil
			}
			p.read += int64(n)
			c.w.Bytes += n
			simrt.Note(uint64(c.ID)<<24 ^ uint64(n)<<8 ^ 0x52)
			p.writer.ww.WakeAll()
			if simrt.Tracing() && simrt.VerboseNet {
				simrt.Tracef("read %d bytes on %s", n, c)
			}
			return n, nil
		}
		if c.rst {
			return 0, c.opErr("read", os.NewSyscallError("read", c.why))
		}
		if p.fin || p.rdClosed {
			return 0, io.EOF
		}
		c.rw.Wait("net read " + c.name())
		c.rw.Remove()
	}
}

// Write writes data to the connection; concurrent writes do not interleave.
func (c *Conn) Write(b []byte) (int, error) {
	simrt.Yield()
	for c.wlock && !c.closed {
		c.wl.Wait("net write lock")
	}
	if c.closed {
		return 0, c.opErr("write", net.ErrClosed)
	}
	c.wlock = true
	defer func() { c.wlock = false; c.wl.WakeOne() }()
	p := c.out
	done := 0
	for {
		if c.closed {
			return done, c.opErr("write", net.ErrClosed)
		}
		if c.wdl.expired() {
			return done, c.opErr("write", os.ErrDeadlineExceeded)
		}
		if c.rst {
			return done, c.opErr("write", os.NewSyscallError("write", c.why))
		}
		if p.finSent {
			return done, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if done == len(b) {
			return done, nil
		}
		free := p.capacity - len(p.ready) - p.inBytes
		if c.peer.vanished {
			c.retransmit()
		} else if c.peer.closed {
			free = len(b)
		}
		if free <= 0 {
			c.ww.Wait("net write " + c.name())
			c.ww.Remove()
			continue
		}
		n := len(b) - done
		if n > free {
			n = free
		}
		cfg := &c.w.Cfg
		if cfg.SegP > 0 && n > 1 {
			p.seq++
			if simrt.Draw("segp", p.id, p.seq, cfg.SegP) == 1 {
				k := 1 + simrt.Draw("seg", p.id, p.seq, cfg.SegMax)
				if k < n {
					n = k
					c.w.Fault("segmentation")
				}
			}
		}
		chunk := append([]byte(nil), b[done:done+n]...)
		if !p.nolog {
			p.Log = append(p.Log, chunk...)
		}
		p.written += int64(n)
		done += n
		simrt.Note(uint64(c.ID)<<24 ^ uint64(n)<<8 ^ 0x57)
		p.push(segment{at: simrt.NowNano() + p.latency(), data: chunk})
		if done < len(b) {
			simrt.Yield()
		}
	}
}

// CloseWrite half-closes the connection.
func (c *Conn) CloseWrite() error {
	simrt.Yield()
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	if !c.out.finSent {
		c.out.finSent = true
		c.out.push(segment{at: simrt.NowNano() + c.out.latency(), fin: true})
		c.ww.WakeAll()
	}
	return nil
}

// CloseRead shuts down the reading side.
func (c *Conn) CloseRead() error {
	simrt.Yield()
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.in.rdClosed = true
	c.rw.WakeAll()
	return nil
}

// Close closes the connection.
func (c *Conn) Close() error {
	simrt.Yield()
	c.CloseCalls++
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	if c.linger0 {
		c.rdl.timer.Stop()
		c.wdl.timer.Stop()
		c.Abort()
		return nil
	}
	c.closed = true
	c.ClosedStep = simrt.Steps()
	c.ClosedAt = simrt.NowNano()
	simrt.Note(uint64(c.ID)<<24 ^ 0x43)
	if simrt.Tracing() {
		simrt.Tracef("close %s", c)
	}
	c.rdl.timer.Stop()
	c.wdl.timer.Stop()
	c.rw.WakeAll()
	c.ww.WakeAll()
	c.wl.WakeAll()
	unread := len(c.in.ready) > 0 || c.in.inBytes > 0
	c.in.ready = nil
	at := simrt.NowNano() + c.out.latency()
	if unread {
		c.out.push(segment{at: at, rst: true})
	} else if !c.out.finSent {
		c.out.push(segment{at: at, fin: true})
	}
	c.out.finSent = true
	c.peer.ww.WakeAll()
	return nil
}

// SetLinger with 0 makes Close discard what has not been delivered yet.
func (c *Conn) SetLinger(sec int) error {
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.linger0 = sec == 0
	return nil
}

// SyscallConn is not supported.
func (c *Conn) SyscallConn() (syscall.RawConn, error) { return nil, c.opErr("raw", syscall.EOPNOTSUPP) }

// MultipathTCP is never in use.
func (c *Conn) MultipathTCP() (bool, error) { return false, nil }

// SyscallConn is not supported.
func (l *Listener) SyscallConn() (syscall.RawConn, error) { return nil, syscall.EOPNOTSUPP }

// Abort resets the connection: data in flight is lost.
func (c *Conn) Abort() {
	simrt.Yield()
	if c.closed {
		return
	}
	c.closed = true
	c.ClosedStep = simrt.Steps()
	c.ClosedAt = simrt.NowNano()
	c.rw.WakeAll()
	c.ww.WakeAll()
	c.wl.WakeAll()
	c.in.ready = nil
	if len(c.out.inflight) > 0 {
		c.w.Fault("inflight-loss")
	}
	c.out.inflight = nil
	c.out.inBytes = 0
	c.out.finSent = true
	if simrt.Tracing() {
		simrt.Tracef("reset %s", c)
	}
	c.out.push(segment{at: simrt.NowNano(), rst: true})
}

// How long it takes TCP to give up a peer that is gone: Go's keep-alive (15 s, then 9 probes 15 s apart) if the
// connection is idle, Linux's retransmissions (tcp_retries2) if there is data to send.
const keepAlive, retransmission = 150 * time.Second, 924 * time.Second

// Vanish makes the host at this end disappear without a word: nothing arrives any more in either direction.
func (c *Conn) Vanish() {
	simrt.Yield()
	if c.closed {
		return
	}
	c.w.Fault("vanished-peer")
	c.closed, c.vanished = true, true
	c.ClosedStep = simrt.Steps()
	c.ClosedAt = simrt.NowNano()
	c.rw.WakeAll()
	c.ww.WakeAll()
	c.wl.WakeAll()
	c.out.inflight, c.out.inBytes = nil, 0
	if simrt.Tracing() {
		simrt.Tracef("host of %s is gone", c)
	}
	p := c.peer
	if len(p.out.inflight) > 0 || p.wlock {
		p.retransmit()
	}
	d := p.ka
	if d == 0 {
		d = keepAlive
	}
	simrt.At(d, func() {
		if !p.noKA && !p.rto && !p.closed {
			p.giveUp()
		}
	})
}

func (c *Conn) retransmit() {
	if !c.rto {
		c.rto = true
		simrt.At(retransmission, c.giveUp)
	}
}

func (c *Conn) giveUp() {
	if c.closed || c.rst {
		return
	}
	if simrt.Tracing() {
		simrt.Tracef("%s times out", c)
	}
	c.why = syscall.ETIMEDOUT
	c.reset()
}

// Probing sets how long keep-alive probes take to give up a peer that is gone, as net.Dialer and net.ListenConfig
// choose it.
func Probing(period time.Duration, cfg net.KeepAliveConfig) (off bool, total time.Duration) {
	if !cfg.Enable {
		if period < 0 {
			return true, 0
		}
		return false, period * 10
	}
	or := func(d, def, os time.Duration) time.Duration {
		switch {
		case d == 0:
			return def
		case d < 0:
			return os
		}
		return d
	}
	n := or(time.Duration(cfg.Count), 9, 9)
	return false, or(cfg.Idle, 15*time.Second, 7200*time.Second) + n*or(cfg.Interval, 15*time.Second, 75*time.Second)
}

// Stall stops (or resumes) delivery of what this end writes.
func (c *Conn) Stall(on bool) {
	p := c.out
	if p.stalled == on {
		return
	}
	p.stalled = on
	if on {
		c.w.Fault("partition")
		return
	}
	p.pump()
}

// LocalAddr returns the local address.
func (c *Conn) LocalAddr() net.Addr { return c.la }

// RemoteAddr returns the remote address.
func (c *Conn) RemoteAddr() net.Addr { return c.ra }

func (c *Conn) setDL(d *deadline, t time.Time, wl *simrt.WaitList) {
	d.timer.Stop()
	d.timer = nil
	d.t = t
	if !t.IsZero() {
		if dt := t.Sub(simrt.Now()); dt > 0 {
			d.timer = simrt.At(dt, wl.WakeAll)
		}
	}
	wl.WakeAll()
}

// SetDeadline sets both deadlines.
func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

// SetReadDeadline sets the read deadline.
func (c *Conn) SetReadDeadline(t time.Time) error {
	simrt.Yield()
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.setDL(&c.rdl, t, &c.rw)
	return nil
}

// SetWriteDeadline sets the write deadline.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	simrt.Yield()
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.setDL(&c.wdl, t, &c.ww)
	return nil
}

// SetKeepAlive turns keep-alive probes on or off.
func (c *Conn) SetKeepAlive(on bool) error {
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.noKA = !on
	return nil
}

// SetKeepAlivePeriod sets how long the connection is idle before it is probed.
func (c *Conn) SetKeepAlivePeriod(d time.Duration) error {
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	if d > 0 {
		c.ka = d + keepAlive
	}
	return nil
}

// SetKeepAliveConfig configures keep-alive probes.
func (c *Conn) SetKeepAliveConfig(k net.KeepAliveConfig) error {
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	if !k.Enable {
		c.noKA = true
		return nil
	}
	c.noKA, c.ka = Probing(0, k)
	return nil
}

// SetNoDelay and the other socket options have no effect.
func (c *Conn) SetNoDelay(bool) error    { return nil }
func (c *Conn) SetReadBuffer(int) error  { return nil }
func (c *Conn) SetWriteBuffer(int) error { return nil }

// ReadFrom implements io.ReaderFrom like *net.TCPConn.
func (c *Conn) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{c}, r)
}

// WriteTo implements io.WriterTo like *net.TCPConn.
func (c *Conn) WriteTo(dst io.Writer) (int64, error) {
	return io.Copy(dst, struct{ io.Reader }{c})
}

func (c *Conn) name() string { return fmt.Sprintf("#%d", c.ID) }

func (c *Conn) String() string {
	s := "#" + strconv.Itoa(c.ID)
	if c.Label != "" {
		s += "(" + c.Label + ")"
	}
	return s
}

// Peer returns the other end.
func (c *Conn) Peer() *Conn { return c.peer }

// IsClosed reports whether this end has been closed.
func (c *Conn) IsClosed() bool { return c.closed }

// WasReset reports whether this end received a reset.
func (c *Conn) WasReset() bool { return c.rst }

// Sent returns every byte this end's writes accepted so far.
func (c *Conn) Sent() []byte { return c.out.Log }

// SentCount returns how many bytes this end's writes accepted so far.
func (c *Conn) SentCount() int64 { return c.out.written }

// Unread returns how many bytes have arrived but were not read.
func (c *Conn) Unread() int { return len(c.in.ready) }

// ReadCount returns how many bytes this end has read.
func (c *Conn) ReadCount() int64 { return c.in.read }

// NoLog stops recording what this end writes.
func (c *Conn) NoLog() { c.out.nolog = true; c.out.Log = nil }

// SetWindow changes the capacity of the pipe toward this end.
func (c *Conn) SetWindow(n int) { c.in.capacity = n }

// SawEOF reports whether the peer's FIN reached this end.
func (c *Conn) SawEOF() bool { return c.in.fin }

// ---------------------------------------------------------------------------------------------------

// Listener is a simulated TCP listener.
type Listener struct {
	w       *World
	Sys     bool
	NoKA    bool // keep-alive probes are off on what is accepted
	KA      time.Duration
	addr    *net.TCPAddr
	key     string
	backlog []*Conn
	closed  bool
	wl      simrt.WaitList
	faults  []error
	Accepts int

	FirstAccept int // step of the first Accept call
	rawAddr     string

	BoundAt, ClosedAt     int64
	BoundStep, ClosedStep int
}

func splitAddr(network, address string) (host string, port int, err error) {
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return "", 0, net.UnknownNetworkError(network)
	}
	h, p, err := net.SplitHostPort(address)
	if err != nil {
		return "", 0, err
	}
	n := 0
	if p != "" {
		n, err = strconv.Atoi(p)
		if err != nil {
			return "", 0, &net.DNSError{Err: "unknown port", Name: network + "/" + p, IsNotFound: true}
		}
	}
	if n < 0 || n > 65535 {
		return "", 0, &net.AddrError{Err: "invalid port", Addr: p}
	}
	return h, n, nil
}

func normHost(h string) string {
	switch h {
	case "", "0.0.0.0", "::":
		return "*"
	case "localhost", "::1":
		return "127.0.0.1"
	}
	return strings.ToLower(h)
}

func key(h string, port int) string { return normHost(h) + ":" + strconv.Itoa(port) }

// Canon brings an address into a form that is the same for all its spellings.
func Canon(address string) string {
	h, p, err := splitAddr("tcp", address)
	if err != nil {
		return address
	}
	return key(h, p)
}

// Resolve returns the address of a host that is known: the local one, literals, and nothing else.
func Resolve(host string) (net.IP, error) {
	if ip := net.ParseIP(host); ip != nil {
		return ip, nil
	}
	if strings.EqualFold(host, "localhost") {
		return net.IPv4(127, 0, 0, 1), nil
	}
	return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
}

// FailBind makes the next binds of an address fail.
func (w *World) FailBind(addr string, errs ...error) {
	addr = Canon(addr)
	w.bindFail[addr] = append(w.bindFail[addr], errs...)
}

// FailCloses makes the next n closes of a listener of the system report an error (it is closed nevertheless).
func (w *World) FailCloses(n int) { w.closeFail = n }

// Occupy makes an address belong to some other process (until Vacate).
func (w *World) Occupy(addr string, on bool) {
	h, p, err := splitAddr("tcp", addr)
	if err != nil {
		return
	}
	if on {
		w.Fault("address-occupied")
	}
	w.occupied[key(h, p)] = on
}

// Listen announces on an address.
func (w *World) Listen(network, address string, sys bool) (*Listener, error) {
	simrt.Yield()
	host, port, err := splitAddr(network, address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	nh := normHost(host)
	ip := net.ParseIP(nh)
	if nh == "*" {
		ip = net.IPv6zero
	} else if ip == nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}}
	}
	ta := &net.TCPAddr{IP: ip, Port: port}
	fail := func(e error) (*Listener, error) {
		if simrt.Tracing() {
			simrt.Tracef("listen %s: %v", address, e)
		}
		return nil, &net.OpError{Op: "listen", Net: network, Addr: ta, Err: e}
	}
	if !ip.IsLoopback() && !ip.IsUnspecified() {
		return fail(os.NewSyscallError("bind", syscall.EADDRNOTAVAIL))
	}
	if f := w.bindFail[key(host, port)]; sys && len(f) > 0 {
		w.bindFail[key(host, port)] = f[1:]
		w.Fault("bind-error")
		return fail(f[0])
	}
	if port == 0 {
		w.nextPort++
		port = w.nextPort
		ta.Port = port
	}
	k := key(host, port)
	inUse := w.listeners[k] != nil || w.occupied[k]
	if nh == "*" {
		for kk := range w.listeners {
			if strings.HasSuffix(kk, ":"+strconv.Itoa(port)) {
				inUse = true
			}
		}
	} else if w.listeners[key("", port)] != nil || w.occupied[key("", port)] {
		inUse = true
	}
	if inUse {
		return fail(os.NewSyscallError("bind", syscall.EADDRINUSE))
	}
	l := &Listener{w: w, Sys: sys, addr: ta, key: k, rawAddr: address, BoundAt: simrt.NowNano(), BoundStep: simrt.Steps()}
	w.listeners[k] = l
	w.Listeners = append(w.Listeners, l)
	simrt.Note(uint64(port)<<8 | 0x4C)
	if simrt.Tracing() {
		simrt.Tracef("listening on %s", address)
	}
	return l, nil
}

// FailAccepts makes the next accepts fail with the given errors.
func (l *Listener) FailAccepts(errs ...error) {
	l.faults = append(l.faults, errs...)
	l.wl.WakeAll()
}

// Raw returns the address the listener was asked to bind.
func (l *Listener) Raw() string { return l.rawAddr }

// IsClosed reports whether the listener is closed.
func (l *Listener) IsClosed() bool { return l.closed }

// Pending returns the number of connections nobody has accepted.
func (l *Listener) Pending() int { return len(l.backlog) }

// Accept waits for the next connection.
func (l *Listener) Accept() (net.Conn, error) {
	c, err := l.AcceptConn()
	if err != nil {
		return nil, err
	}
	if l.Sys {
		return c.Handle(), nil
	}
	return c, nil
}

// AcceptTCP is Accept with a concrete type.
func (l *Listener) AcceptTCP() (*TCPConn, error) {
	c, err := l.AcceptConn()
	if err != nil {
		return nil, err
	}
	return c.Handle(), nil
}

// SetDeadline is not supported and has no effect.
func (l *Listener) SetDeadline(time.Time) error { return nil }

// AcceptConn waits for the next connection.
func (l *Listener) AcceptConn() (*Conn, error) {
	simrt.Yield()
	if l.FirstAccept == 0 {
		l.FirstAccept = simrt.Steps() + 1
	}
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if len(l.faults) > 0 {
			e := l.faults[0]
			l.faults = l.faults[1:]
			l.w.Fault("accept-error")
			if simrt.Tracing() {
				simrt.Tracef("accept fails: %v", e)
			}
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: e}
		}
		if len(l.backlog) > 0 {
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			c.Sys = l.Sys
			c.noKA, c.ka = l.NoKA, l.KA
			c.SinceStep = simrt.Steps()
			l.Accepts++
			simrt.Note(uint64(c.ID)<<8 | 0x41)
			if simrt.Tracing() {
				simrt.Tracef("accept %s", c)
			}
			return c, nil
		}
		l.wl.Wait("accept on " + l.rawAddr)
		l.wl.Remove()
	}
}

// Close stops listening; connections nobody accepted are reset.
func (l *Listener) Close() error {
	simrt.Yield()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	l.ClosedAt = simrt.NowNano()
	l.ClosedStep = simrt.Steps()
	simrt.Note(uint64(l.addr.Port)<<8 | 0x6C)
	if simrt.Tracing() {
		simrt.Tracef("listener %s closed", l.rawAddr)
	}
	if l.w.listeners[l.key] == l {
		delete(l.w.listeners, l.key)
	}
	l.wl.WakeAll()
	for _, c := range l.backlog {
		c.closed = true
		c.peer.reset()
	}
	l.backlog = nil
	if l.w.closeFail > 0 && l.Sys {
		l.w.closeFail--
		l.w.Fault("close-error")
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: os.NewSyscallError("close", syscall.EIO)}
	}
	return nil
}

// Addr returns the listener's address.
func (l *Listener) Addr() net.Addr { return l.addr }

// Find returns the listener bound to an address, or nil.
func (w *World) Find(address string) *Listener {
	h, p, err := splitAddr("tcp", address)
	if err != nil {
		return nil
	}
	if l := w.listeners[key(h, p)]; l != nil {
		return l
	}
	return w.listeners[key("", p)]
}

// SysListeners returns the system's open listeners.
func (w *World) SysListeners() []*Listener {
	var out []*Listener
	for _, l := range w.Listeners {
		if l.Sys && !l.closed {
			out = append(out, l)
		}
	}
	return out
}

// SysConns returns the connection ends the system holds and has not closed.
func (w *World) SysConns() []*Conn {
	var out []*Conn
	for _, c := range w.Conns {
		if c.Sys && !c.closed {
			out = append(out, c)
		}
	}
	return out
}

// DialPlan sets the fate of the system's coming dial attempts to an address, in order.
func (w *World) DialPlan(address string, rules ...DialRule) {
	h, p, err := splitAddr("tcp", address)
	if err != nil {
		return
	}
	w.dialRules[key(h, p)] = append(w.dialRules[key(h, p)], rules...)
}

// ClearDialPlan makes coming dial attempts to an address normal again.
func (w *World) ClearDialPlan(address string) {
	if h, p, err := splitAddr("tcp", address); err == nil {
		delete(w.dialRules, key(h, p))
	}
}

// DialOpts carries what a dialer was configured with.
type DialOpts struct {
	Sys     bool
	NoKA    bool          // keep-alive probes are off
	KA      time.Duration // when they give up a peer that is gone
	Timeout time.Duration
	Cancel  <-chan struct{}
	Done    <-chan struct{}
	CtxErr  func() error
	Label   string
}

type timeoutError struct{}

func (timeoutError) Error() string     { return "i/o timeout" }
func (timeoutError) Timeout() bool     { return true }
func (timeoutError) Temporary() bool   { return true }
func (timeoutError) Is(err error) bool { return err == os.ErrDeadlineExceeded }

// ErrCanceled is what a cancelled dial returns.
var errCanceled = fmt.Errorf("operation was canceled")

// Dial connects to an address.
func (w *World) Dial(network, address string, o DialOpts) (*Conn, error) {
	simrt.Yield()
	host, port, err := splitAddr(network, address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	k := key(host, port)
	if normHost(host) == "*" {
		k = key("127.0.0.1", port)
	}
	var rec *DialRec
	if o.Sys {
		w.Dials = append(w.Dials, address)
		w.DialLog = append(w.DialLog, DialRec{Addr: address, At: simrt.NowNano(), Step: simrt.Steps(), Tag: simrt.Tag(), Task: simrt.Cur()})
		i := len(w.DialLog) - 1
		defer func() { w.DialLog[i].Done = true }()
	}
	_ = rec
	ta := &net.TCPAddr{IP: net.ParseIP(normHost(host)), Port: port}
	if ta.IP == nil {
		ta.IP = net.IPv4(127, 0, 0, 1)
	}
	fail := func(e error) (*Conn, error) {
		if simrt.Tracing() {
			simrt.Tracef("dial %s: %v", address, e)
		}
		return nil, &net.OpError{Op: "dial", Net: network, Addr: ta, Err: e}
	}
	rule := DialRule{}
	if r := w.dialRules[k]; o.Sys && len(r) > 0 && !w.NoRules {
		rule = r[0]
		w.dialRules[k] = r[1:]
	}
	wait := rule.Delay
	if wait == 0 && w.Cfg.DialMax > 0 && o.Sys {
		wait = time.Duration(w.draw("dial", 0, w.Cfg.DialMax)) * time.Microsecond
	}
	switch rule.Kind {
	case "":
	case "blackhole":
		w.Fault("dial-blackhole")
		wait = 127 * time.Second
	case "slow":
		w.Fault("dial-slow")
	default:
		w.Fault("dial-" + rule.Kind)
	}
	if o.Timeout < 0 {
		return fail(timeoutError{})
	}
	if wait > 0 || o.Cancel != nil || o.Done != nil {
		timedOut := false
		if o.Timeout > 0 && o.Timeout < wait {
			wait, timedOut = o.Timeout, true
		}
		c := simrt.MakeChan(make(chan struct{}, 1))
		var t *simrt.Timer
		if wait > 0 {
			t = simrt.At(wait, func() { simrt.TrySendNow(c, struct{}{}) })
		} else {
			simrt.TrySendNow(c, struct{}{})
		}
		// cancellation wins when both are possible
		i := simrt.Select(0, true, simrt.CaseRecv(o.Cancel), simrt.CaseRecv(o.Done))
		if i < 0 {
			i = simrt.Select(0, false, simrt.CaseRecv(o.Cancel), simrt.CaseRecv(o.Done), simrt.CaseRecv((<-chan struct{})(c)))
		}
		t.Stop()
		switch i {
		case 0:
			return fail(errCanceled)
		case 1:
			e := error(errCanceled)
			if o.CtxErr != nil && o.CtxErr() != nil && strings.Contains(o.CtxErr().Error(), "deadline") {
				e = timeoutError{}
			}
			return fail(e)
		}
		if timedOut {
			return fail(timeoutError{})
		}
	}
	switch rule.Kind {
	case "blackhole":
		return fail(os.NewSyscallError("connect", syscall.ETIMEDOUT))
	case "refuse":
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	case "unreachable":
		return fail(os.NewSyscallError("connect", syscall.EHOSTUNREACH))
	}
	l := w.listeners[k]
	if l == nil {
		l = w.listeners[key("", port)]
	}
	if l == nil || w.Cfg.Backlog > 0 && len(l.backlog) >= w.Cfg.Backlog {
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	a, b := w.pair(w.ephemeral(), ta)
	a.Sys = o.Sys
	a.noKA, a.ka = o.NoKA, o.KA
	a.SinceStep = simrt.Steps()
	a.Label = o.Label
	if o.Sys {
		a.Label = "->" + address
	}
	b.Sys = false // until accepted
	l.backlog = append(l.backlog, b)
	l.wl.WakeAll()
	simrt.Note(uint64(a.ID)<<8 | 0x44)
	if simrt.Tracing() {
		simrt.Tracef("dial %s: connected as %s", address, a)
	}
	return a, nil
}
