//go:build go1.21

package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/hired/gevulot/pkg/cli"
	"github.com/hired/gevulot/pkg/server"
	"github.com/hired/gevulot/zzsim/shim/fsnotify"
	ssync "github.com/hired/gevulot/zzsim/shim/sync"
	"github.com/hired/gevulot/zzsim/simnet"
	"github.com/hired/gevulot/zzsim/simrt"
)

// Decisions is what a run decided.
type Decisions = simrt.Decisions

const nowhere = "127.0.0.1:1" // nobody listens there

const verZero = 0xffffffff // Client.Ver: protocol version 0

const tagParam = "application_name"

// env is the state of one run of a proxy scenario.
type env struct {
	sc   *Scenario
	w    *simnet.World
	hits map[string]int

	cls   []*client
	dbs   map[string]*dbServer
	conns []*dbConn

	gate   int
	gateWL simrt.WaitList
	evWL   simrt.WaitList

	dist     *server.ConfigDistributor
	srv      *server.Server
	ch       chan *server.Config
	pubQ     []int
	pubWL    simrt.WaitList
	pubIdle  bool
	pubDone  int // configurations handed to the proxy
	cur      int // index of the last configuration published (-1: none)
	settled  int // index of the newest configuration known to be in effect
	baseline map[string]int

	cfgPath  string
	lastGood int // cli: index of the last valid file content, -1 none

	apis     []*apiCall
	closing  bool // Close has been called
	closers  int  // Close calls in progress
	closeAt  int  // step of the first Close call
	warming  bool
	base     [5]int // what the warming-up session added to the counters
	closed   bool   // Close has returned
	srcClose bool
	boots    int
	cliExit  int
	cliDone  bool
	written  map[string]bool // listen addresses ever named by a configuration

	serveLn  *simnet.Listener
	probes   int
	torn     bool
	everTorn bool
}

// apiCall is a call into the system made by the harness, running as a system task.
type apiCall struct {
	name    string
	began   int // steps
	done    bool
	ended   int
	err     error
	afterCl bool // began after Close had returned
	cl      *client
	ln      *simnet.Listener
}

type client struct {
	e    *env
	i    int
	spec *Client
	conn *simnet.Conn
	err  error // connect error

	got     []byte
	rdErr   error
	rdDone  bool
	rdWL    simrt.WaitList
	stalled bool
	stWL    simrt.WaitList

	script   bool // finished
	closed   bool // the client closed or reset its connection
	closeOp  string
	closeAt  int // steps
	startLen int // bytes of negotiation (SSL requests and startup)
	startAt  int // offset of the startup message
	connAt   int // steps
	connCfg  int // newest configuration in effect when it connected
	probe    bool
	api      *apiCall
	dbc      []*dbConn
	finished bool
	estab    bool
	estabAt  int
	rawAt    int64 // bytes sent before the first raw (possibly malformed) bytes, -1: none yet
	msgs     int
	msgOff   int
	okOff    int // received bytes already checked
}

type dbServer struct {
	e    *env
	addr string
	name string
	ln   *simnet.Listener
}

type dbConn struct {
	e       *env
	srv     *dbServer
	conn    *simnet.Conn
	cl      *client
	got     []byte
	start   int // length of the startup packet, 0 while unknown
	rdErr   error
	rdDone  bool
	rdWL    simrt.WaitList
	stalled bool
	stWL    simrt.WaitList
	script  bool
	closed  bool
	closeOp string
	closeAt int
	msgs    int
	msgOff  int
	okOff   int // received bytes already checked
	rawAt   int64
}

func (e *env) hit(tag string) { e.hits[tag]++ }

// fail reports a violation if it concerns the property under check.
func (e *env) fail(props, class, format string, a ...any) {
	if !strings.Contains(props, e.sc.Prop) {
		return
	}
	simrt.Fail(class, format, a...)
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%q...(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

const relay = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C14 C15 C16 C21"

// ---------------------------------------------------------------------------------------------------
// The database side.

func (e *env) startDB(addr, name string) *dbServer {
	if d := e.dbs[addr]; d != nil {
		return d
	}
	d := &dbServer{e: e, addr: addr, name: name}
	e.dbs[addr] = d
	d.up()
	return d
}

func (d *dbServer) up() {
	ln, err := d.e.w.Listen("tcp", d.addr, false)
	if err != nil {
		simrt.HarnessBug("database cannot listen on %s: %v", d.addr, err)
	}
	d.ln = ln
	simrt.Spawn("db "+d.addr, func() {
		for {
			c, err := ln.AcceptConn()
			if err != nil {
				return
			}
			dc := &dbConn{e: d.e, srv: d, conn: c, rawAt: -1}
			c.Label = "db" + d.addr
			d.e.conns = append(d.e.conns, dc)
			d.e.hit("db-conn")
			d.e.evWL.WakeAll()
			if d.e.sc.P["killearly"] > 0 && d.e.gate < 2 && !d.e.warming {
				dc.killEarly()
				continue
			}
			simrt.Spawn(fmt.Sprintf("db-reader #%d", c.ID), dc.readLoop)
		}
	})
}

// killEarly ends a new connection before, while or right after the startup message arrives.
func (dc *dbConn) killEarly() {
	e := dc.e
	e.hit("killed-at-startup")
	mode := simrt.TaskDraw("killearly", 6)
	simrt.Spawn(fmt.Sprintf("db-killer #%d", dc.conn.ID), func() {
		if mode >= 2 {
			buf := make([]byte, 1+simrt.TaskDraw("killafter", 60))
			n, _ := dc.conn.Read(buf)
			dc.got = append(dc.got, buf[:n]...)
			dc.check()
		}
		dc.rdDone = true
		if mode%2 == 0 {
			dc.hang("rst")
		} else {
			dc.hang("close")
		}
	})
}

func (d *dbServer) down() {
	if d.ln != nil && !d.ln.IsClosed() {
		d.e.w.Fault("db-down")
		_ = d.ln.Close()
	}
}

func (dc *dbConn) readLoop() {
	buf := make([]byte, 8192)
	for {
		for dc.stalled && !dc.closed {
			dc.stWL.Wait("db stalled")
			dc.stWL.Remove()
		}
		n, err := dc.conn.Read(buf)
		if n > 0 {
			dc.got = append(dc.got, buf[:n]...)
			dc.check()
			dc.count()
			dc.rdWL.WakeAll()
			dc.e.evWL.WakeAll()
		}
		if err != nil {
			dc.rdErr, dc.rdDone = err, true
			dc.rdWL.WakeAll()
			dc.e.evWL.WakeAll()
			// a database closes its side when the other side is gone
			if !dc.closed && !dc.stalled {
				dc.sawEnd()
			}
			return
		}
	}
}

// sawEnd: the peer hung up; the database keeps its connection open until its script closes it.
func (dc *dbConn) sawEnd() {}

func (dc *dbConn) count() {
	if dc.start == 0 {
		return
	}
	if dc.msgOff == 0 {
		dc.msgOff = dc.start
	}
	for len(dc.got)-dc.msgOff >= 5 {
		b := dc.got[dc.msgOff:]
		n := int(int32(uint32(b[1])<<24|uint32(b[2])<<16|uint32(b[3])<<8|uint32(b[4]))) + 1
		if n < 5 || n > len(b) {
			return
		}
		dc.msgOff += n
		dc.msgs++
	}
}

func (e *env) clientByTag(tag string) *client {
	for _, c := range e.cls {
		if tag == fmt.Sprintf("c%d", c.i) {
			return c
		}
	}
	return nil
}

// check is the continuous oracle on what the database receives.
func (dc *dbConn) check() {
	e := dc.e
	if dc.start == 0 {
		if len(dc.got) < 4 {
			dc.checkOrphan()
			return
		}
		n := int(int32(uint32(dc.got[0])<<24 | uint32(dc.got[1])<<16 | uint32(dc.got[2])<<8 | uint32(dc.got[3])))
		if n < 8 || n > 1<<20 || len(dc.got) < n {
			dc.checkOrphan()
			return
		}
		_, ps, _ := parseStartup(dc.got[:n])
		tag := ""
		for _, p := range ps {
			if p.K == tagParam {
				tag = p.V
			}
		}
		cl := e.clientByTag(tag)
		if cl == nil || !bytes.HasPrefix(cl.stream(), dc.got[:n]) {
			for _, c := range e.cls { // a startup packet with a damaged tag
				if len(c.dbc) == 0 && c.spec.Pre != nil && bytes.HasPrefix(c.stream(), dc.got[:n]) {
					cl = c
					break
				}
			}
		}
		if cl == nil {
			e.fail(relay, "unknown-startup", "the database at %s received a startup packet no client sent: %s", dc.srv.addr, short(dc.got))
			dc.start = n
			return
		}
		dc.start = n
		dc.cl = cl
		cl.dbc = append(cl.dbc, dc)
		cl.estab, cl.estabAt = true, simrt.Steps()
		if len(cl.dbc) > 1 {
			e.fail("C01 C06", "two-db-connections", "client %d is relayed to %d database connections", cl.i, len(cl.dbc))
		}
		e.onStartup(dc)
		simrt.Spawn(fmt.Sprintf("db-writer #%d", dc.conn.ID), dc.run)
	}
	if dc.cl == nil {
		return
	}
	want := dc.cl.stream()
	if len(want) < len(dc.got) || !bytes.Equal(want[dc.okOff:len(dc.got)], dc.got[dc.okOff:]) {
		k := dc.okOff
		for k < len(want) && k < len(dc.got) && want[k] == dc.got[k] {
			k++
		}
		e.fail("C01 C06 C07 C09 C14", "db-stream", "database connection of client %d: received bytes differ from what the client sent at offset %d: got %s, sent %s",
			dc.cl.i, k, short(dc.got[k:]), short(want[k:]))
		return
	}
	dc.okOff = len(dc.got)
}

// checkOrphan: an incomplete startup packet must at least be the beginning of some client's.
func (dc *dbConn) checkOrphan() {
	for _, c := range dc.e.cls {
		if c.conn != nil && bytes.HasPrefix(c.stream(), dc.got) {
			return
		}
	}
	dc.e.fail("C01 C06", "unknown-startup", "the database received bytes no client sent: %s", short(dc.got))
}

// onStartup checks the admission properties.
func (e *env) onStartup(dc *dbConn) {
	cl := dc.cl
	ver, ps, okLayout := parseStartup(dc.got[:dc.start])
	eff := effectiveDB(ps)
	e.hit("established")
	if ver != 196608 {
		e.fail("C08", "protocol", "client %d with protocol %#x reached the database", cl.i, ver)
	}
	if cl.spec.Expect == "refused" {
		e.fail("C08", "admitted", "client %d, which must be refused, reached the database (effective database %q, %d parameters)", cl.i, eff, len(ps))
	}
	_ = okLayout
	// the configuration this connection was made for
	ok, nameOK := false, false
	newest := -1
	for i, c := range e.sc.Cfgs {
		if i > e.maxPublished() {
			break
		}
		if c.DBAddr == dc.srv.addr && c.DBName == eff {
			ok = true
			newest = i
		}
		if c.DBName == eff {
			nameOK = true
		}
	}
	if !nameOK {
		e.fail("C08", "admitted", "client %d reached the database with effective database %q, which no configuration names", cl.i, eff)
	}
	if !ok {
		e.fail("C15 C08", "mixed-config", "client %d was sent to %s with database %q: no configuration has that combination", cl.i, dc.srv.addr, eff)
	} else if newest < cl.connCfg {
		e.fail("C15 C21", "stale-config", "client %d connected when configuration %d was in effect and was served by the older configuration %d", cl.i, cl.connCfg, newest)
	}
}

func (e *env) maxPublished() int { return e.cur }

func (dc *dbConn) waitMsgs(n int) {
	for dc.msgs < n && !dc.rdDone && !dc.closed {
		dc.rdWL.Wait("db waits for messages")
		dc.rdWL.Remove()
	}
}

func (dc *dbConn) run() {
	for _, st := range dc.cl.spec.DB {
		if dc.closed {
			break
		}
		switch st.Op {
		case "recv":
			dc.waitMsgs(st.N)
		case "send":
			writeMsgs(dc.conn, st)
		case "raw":
			if dc.rawAt < 0 {
				dc.rawAt = dc.conn.SentCount()
				dc.e.hit("hostile")
			}
			writeAll(dc.conn, st.B, st.Chunk)
		case "sleep":
			simrt.Sleep(time.Duration(st.N) * time.Microsecond)
		case "spin":
			spin(st.N)
		case "stall":
			dc.stalled = true
			dc.e.w.Fault("stalled-reader")
		case "resume":
			dc.resume()
		case "gate":
			dc.e.waitGate(st.N)
		case "waiteof":
			for !dc.rdDone {
				dc.rdWL.Wait("db waits for the end")
				dc.rdWL.Remove()
			}
		case "close", "rst", "closewrite", "vanish":
			dc.hang(st.Op)
		case "partition":
			dc.conn.Stall(true)
			d := time.Duration(st.N) * time.Microsecond
			simrt.At(d, func() { dc.conn.Stall(false) })
		}
	}
	dc.script = true
	dc.e.evWL.WakeAll()
}

func (dc *dbConn) resume() {
	dc.stalled = false
	dc.stWL.WakeAll()
}

func (dc *dbConn) hang(op string) {
	if dc.closed {
		return
	}
	dc.closeOp = op
	dc.closeAt = simrt.Steps()
	dc.e.hit("db-" + op)
	switch op {
	case "close":
		dc.closed = true
		_ = dc.conn.Close()
	case "rst":
		dc.closed = true
		dc.e.w.Fault("reset")
		dc.conn.Abort()
	case "vanish":
		dc.closed = true
		dc.conn.Vanish()
	case "closewrite":
		_ = dc.conn.CloseWrite()
	}
	dc.stWL.WakeAll()
	dc.rdWL.WakeAll()
}

// ---------------------------------------------------------------------------------------------------
// The client side.

func writeAll(c *simnet.Conn, b []byte, chunk int) bool {
	for len(b) > 0 {
		n := len(b)
		if chunk > 0 && chunk < n {
			n = chunk
		}
		if _, err := c.Write(b[:n]); err != nil {
			return false
		}
		b = b[n:]
	}
	return true
}

func writeMsgs(c *simnet.Conn, st Step) bool {
	if st.Chunk < 0 {
		for _, m := range st.M {
			if !writeAll(c, m.Bytes(), 0) {
				return false
			}
		}
		return true
	}
	return writeAll(c, msgBytes(st.M), st.Chunk)
}

func msgBytes(ms []Msg) []byte {
	var b []byte
	for _, m := range ms {
		b = append(b, m.Bytes()...)
	}
	return b
}

func spin(n int) {
	for i := 0; i < n; i++ {
		simrt.Yield()
	}
}

func (e *env) addClient(spec *Client) *client {
	c := &client{e: e, i: len(e.cls), spec: spec, rawAt: -1}
	e.cls = append(e.cls, c)
	return c
}

// negotiation returns the bytes sent before the script, and where the startup message starts in them.
func (c *client) negotiation() ([]byte, int) {
	s := c.spec
	if s.Pre != nil {
		return s.Pre, len(s.Pre) + 1<<30
	}
	var b []byte
	for i := 0; i < s.SSL; i++ {
		b = append(b, sslRequest...)
	}
	at := len(b)
	ver := s.Ver
	switch ver {
	case 0:
		ver = 196608
	case verZero:
		ver = 0
	}
	b = append(b, startupBytes(ver, s.Params, !s.NoTerm, s.Tail)...)
	return b, at
}

// sslCount returns how many complete SSL requests lead the bytes the client has sent.
func (c *client) sslCount() int {
	if c.conn == nil {
		return 0
	}
	b := c.conn.Sent()
	n := 0
	for len(b) >= 8 && bytes.Equal(b[:8], sslRequest) {
		n++
		b = b[8:]
	}
	return n
}

// stream returns what the client has sent from its startup message on.
func (c *client) stream() []byte {
	if c.conn == nil {
		return nil
	}
	return c.conn.Sent()[8*c.sslCount():]
}

func (e *env) waitGate(n int) {
	for e.gate < n {
		e.gateWL.Wait("waits for the control script")
		e.gateWL.Remove()
	}
}

func (e *env) openGate(n int) {
	if n > e.gate {
		e.gate = n
		e.gateWL.WakeAll()
	}
}

func (c *client) target() string {
	if c.spec.Addr != "" {
		return c.spec.Addr
	}
	return c.e.currentAddr()
}

// currentAddr is the address at which the proxy should be reachable now.
func (e *env) currentAddr() string {
	if e.serveLn != nil {
		return e.serveLn.Raw()
	}
	best := nowhere
	for i := 0; i <= e.cur && i < len(e.sc.Cfgs); i++ {
		if !e.sc.Cfgs[i].Bad {
			best = e.sc.Cfgs[i].Listen
		}
	}
	return best
}

func (c *client) run() {
	e := c.e
	e.waitGate(c.spec.Gate)
	if c.spec.Delay > 0 {
		simrt.Sleep(time.Duration(c.spec.Delay) * time.Microsecond)
	}
	c.connCfg = e.settled
	c.connAt = simrt.Steps()
	if e.sc.Boot == "serveconn" || e.sc.Boot == "session" {
		a, b := e.w.Pair()
		a.Label, b.Label = fmt.Sprintf("proxy-side of client%d", c.i), fmt.Sprintf("client%d", c.i)
		c.conn = b
		held := a.Handle()
		call := e.call("ServeConn", c, func() error {
			h := held
			held = nil
			if e.sc.Boot == "session" {
				return server.NewSession(h, e.dist).Start()
			}
			return e.srv.ServeConn(h)
		})
		c.api = call
	} else {
		for try := 0; ; try++ {
			conn, err := e.w.Dial("tcp", c.target(), simnet.DialOpts{Label: fmt.Sprintf("client%d", c.i)})
			if err == nil {
				c.conn = conn
				break
			}
			if try >= 30 || e.closing {
				c.err = err
				c.finished = true
				c.script = true
				e.evWL.WakeAll()
				return
			}
			simrt.Sleep(time.Duration(1+try) * time.Millisecond)
			c.connCfg = e.settled
		}
	}
	e.hit("client-conn")
	e.evWL.WakeAll()
	if !c.spec.NoRead {
		simrt.Spawn(fmt.Sprintf("client-reader %d", c.i), c.readLoop)
	}
	neg, at := c.negotiation()
	c.startAt = at
	c.startLen = len(neg)
	steps := c.spec.Steps
	if cut := c.spec.Cut; cut != 0 {
		if cut > len(neg) {
			cut = len(neg)
		}
		if cut > 0 {
			writeAll(c.conn, neg[:cut], c.spec.Chunk)
		} else {
			e.hit("silent")
		}
		simrt.Yield()
		c.script = true
		if c.spec.EndOp != "" {
			c.hang(c.spec.EndOp)
		}
		e.evWL.WakeAll()
		return
	}
	early := []byte{}
	for i := 0; i < c.spec.Early && len(steps) > 0 && steps[0].Op == "send"; i++ {
		early = append(early, msgBytes(steps[0].M)...)
		steps = steps[1:]
	}
	ok := true
	if c.spec.Pre != nil && c.spec.Role == "hostile" {
		e.hit("hostile")
	}
	if c.spec.Pipeline || c.spec.Pre != nil {
		ok = writeAll(c.conn, append(append([]byte(nil), neg...), early...), c.spec.Chunk)
	} else {
		for i := 0; i < c.spec.SSL && ok; i++ {
			ok = writeAll(c.conn, sslRequest, c.spec.Chunk)
			for ok && len(c.got) <= i && !c.rdDone && !c.spec.NoRead {
				c.rdWL.Wait("client waits for the SSL answer")
				c.rdWL.Remove()
			}
			if c.rdDone {
				ok = false
			}
		}
		if ok {
			ok = writeAll(c.conn, append(append([]byte(nil), neg[8*c.spec.SSL:]...), early...), c.spec.Chunk)
		}
	}
	for _, st := range steps {
		if c.closed {
			break
		}
		switch st.Op {
		case "recv":
			for c.msgs < st.N && !c.rdDone && !c.closed {
				c.rdWL.Wait("client waits for messages")
				c.rdWL.Remove()
			}
		case "send":
			writeMsgs(c.conn, st)
		case "raw":
			if c.rawAt < 0 {
				c.rawAt = c.conn.SentCount()
				e.hit("hostile")
			}
			writeAll(c.conn, st.B, st.Chunk)
		case "sleep":
			simrt.Sleep(time.Duration(st.N) * time.Microsecond)
		case "spin":
			spin(st.N)
		case "stall":
			c.stalled = true
			e.w.Fault("stalled-reader")
		case "resume":
			c.resume()
		case "gate":
			e.waitGate(st.N)
		case "waiteof":
			for !c.rdDone {
				c.rdWL.Wait("client waits for the end")
				c.rdWL.Remove()
			}
		case "close", "rst", "closewrite", "vanish":
			c.hang(st.Op)
		case "partition":
			c.conn.Stall(true)
			simrt.At(time.Duration(st.N)*time.Microsecond, func() { c.conn.Stall(false) })
		}
	}
	c.script = true
	e.evWL.WakeAll()
}

func (c *client) resume() {
	c.stalled = false
	c.stWL.WakeAll()
}

func (c *client) hang(op string) {
	if c.closed || c.conn == nil {
		return
	}
	c.closeOp = op
	c.closeAt = simrt.Steps()
	c.e.hit("client-" + op)
	switch op {
	case "close":
		c.closed = true
		_ = c.conn.Close()
	case "rst":
		c.closed = true
		c.e.w.Fault("reset")
		c.conn.Abort()
	case "vanish":
		c.closed = true
		c.conn.Vanish()
	case "closewrite":
		_ = c.conn.CloseWrite()
	}
	c.stWL.WakeAll()
	c.rdWL.WakeAll()
}

func (c *client) readLoop() {
	buf := make([]byte, 8192)
	for {
		for c.stalled && !c.closed {
			c.stWL.Wait("client stalled")
			c.stWL.Remove()
		}
		n, err := c.conn.Read(buf)
		if n > 0 {
			c.got = append(c.got, buf[:n]...)
			if len(c.got) > 0 && c.sslCount() > 0 {
				e := c.e
				e.hit("ssl-answered")
			}
			c.check()
			c.count()
			c.rdWL.WakeAll()
			c.e.evWL.WakeAll()
		}
		if err != nil {
			c.rdErr, c.rdDone = err, true
			c.rdWL.WakeAll()
			c.e.evWL.WakeAll()
			return
		}
	}
}

func (c *client) count() {
	if c.dbConn() == nil {
		return
	}
	if c.msgOff == 0 {
		c.msgOff = c.sslCount()
	}
	for len(c.got)-c.msgOff >= 5 {
		b := c.got[c.msgOff:]
		n := int(int32(uint32(b[1])<<24|uint32(b[2])<<16|uint32(b[3])<<8|uint32(b[4]))) + 1
		if n < 5 || n > len(b) {
			return
		}
		c.msgOff += n
		c.msgs++
	}
}

func (c *client) dbConn() *dbConn {
	if len(c.dbc) == 0 {
		return nil
	}
	return c.dbc[0]
}

// check is the continuous oracle on what a client receives.
func (c *client) check() {
	e := c.e
	ssl := c.sslCount()
	k := 0
	for k < len(c.got) && k < ssl && c.got[k] == 'N' {
		k++
	}
	rest := c.got[k:]
	dc := c.dbConn()
	if len(rest) == 0 {
		return
	}
	if dc == nil {
		e.fail("C02 C06 C09", "client-stream", "client %d received %s before any database connection of its own (it sent %d SSL requests)", c.i, short(rest), ssl)
		return
	}
	if k < ssl {
		e.fail("C02 C09", "ssl-answers", "client %d sent %d SSL requests and got %d answers before %s", c.i, ssl, k, short(rest))
		return
	}
	want := dc.conn.Sent()
	if c.okOff > len(rest) {
		c.okOff = 0
	}
	if len(want) < len(rest) || !bytes.Equal(want[c.okOff:len(rest)], rest[c.okOff:]) {
		j := c.okOff
		for j < len(want) && j < len(rest) && want[j] == rest[j] {
			j++
		}
		e.fail("C02 C06 C07 C09 C14", "client-stream", "client %d: received bytes differ from what its database connection sent at offset %d: got %s, sent %s",
			c.i, j, short(rest[j:]), short(want[j:]))
		return
	}
	c.okOff = len(rest)
}

// ---------------------------------------------------------------------------------------------------
// Starting the system and calling into it.

func (e *env) call(name string, cl *client, f func() error) *apiCall {
	a := &apiCall{name: name, began: simrt.Steps(), cl: cl, afterCl: e.closed}
	e.apis = append(e.apis, a)
	simrt.GoNamed("api:"+name, func() {
		a.err = f()
		a.done = true
		a.ended = simrt.Steps()
		e.evWL.WakeAll()
	})
	return a
}

func (c Cfg) url() string {
	if c.URL != "" {
		return c.URL
	}
	return "postgres://proxy@" + c.DBAddr + "/" + c.DBName
}

func (e *env) config(i int) *server.Config {
	c := e.sc.Cfgs[i]
	return &server.Config{Listen: c.Listen, DatabaseURL: c.url()}
}

func (e *env) fileBody(i int) []byte {
	c := e.sc.Cfgs[i]
	b := fmt.Sprintf("listen = %q\ndatabase-url = %q\n", c.Listen, c.url())
	if st := e.sc.P["style"]; st > 0 { // other spellings of the same
		switch (st + i) % 8 {
		case 1:
			b = strings.ReplaceAll(b, "\n", "\r\n")
		case 2:
			b = fmt.Sprintf("database-url = %q\nlisten = %q\n", c.url(), c.Listen)
		case 3:
			b = fmt.Sprintf("# gevulot\n\n\tlisten='%s'  # clients\n\n  database-url\t= '%s'# database\n", c.Listen, c.url())
		case 4:
			b = "# listen = \"192.0.2.1:1\"\n" + b + "\n\n#database-url = \"postgres://x@192.0.2.1/x\"\n#"
		case 5:
			b = fmt.Sprintf("\"listen\" = \"\"\"%s\"\"\"\n'database-url' = '''%s'''\n", c.Listen, c.url())
		case 6:
			b = strings.TrimSuffix(b, "\n")
		}
	}
	if pad := e.sc.P["pad"]; pad > 0 { // a long comment at either end
		com := "#" + strings.Repeat(" gevulot", pad/8) + "\n"
		if i&1 == 0 {
			b = com + b
		} else {
			b += com
		}
	}
	return []byte(b)
}

// publisher hands configurations to the proxy one at a time, like the file watcher does.
func (e *env) publisher() {
	for {
		for len(e.pubQ) == 0 {
			e.pubIdle = true
			e.pubWL.Wait("publisher idle")
			e.pubWL.Remove()
		}
		e.pubIdle = false
		i := e.pubQ[0]
		e.pubQ = e.pubQ[1:]
		if i < 0 {
			simrt.Close(e.ch)
			e.srcClose = true
			continue
		}
		simrt.SendTo(e.ch)(e.config(i))
		e.pubDone++
	}
}

// noteChange counts configuration changes made while sessions are established.
func (e *env) noteChange() {
	for _, c := range e.cls {
		if c.estab && !c.disturbed() {
			e.hit("changed-under-session")
			return
		}
	}
}

func (e *env) publish(i int) {
	if i >= 0 {
		e.cur = i
		e.noteChange()
	}
	e.pubQ = append(e.pubQ, i)
	e.pubWL.WakeAll()
}

// ScratchDir is where configuration files of simulated runs live.
var ScratchDir string

// stampFile sets the modification time of the file: simulated, and as coarse as that of most file systems
// (a tick of the kernel's clock).
func (e *env) stampFile() {
	t := simrt.Now().Truncate(4 * time.Millisecond)
	if err := os.Chtimes(e.cfgPath, t, t); err != nil {
		simrt.HarnessBug("scratch: %v", err)
	}
}

func (e *env) writeFile(b []byte) {
	if err := os.WriteFile(e.cfgPath, b, 0o644); err != nil {
		simrt.HarnessBug("scratch: %v", err)
	}
	e.stampFile()
	fsnotify.Notify(e.cfgPath, fsnotify.Write)
	simrt.Yield()
}

func (e *env) appendFile(b []byte) {
	f, err := os.OpenFile(e.cfgPath, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0o644)
	if err == nil {
		_, err = f.Write(b)
		f.Close()
	}
	if err != nil {
		simrt.HarnessBug("scratch: %v", err)
	}
	e.stampFile()
	fsnotify.Notify(e.cfgPath, fsnotify.Write)
	simrt.Yield()
}

// cliArgs are the arguments of the program: the same in several forms.
func (e *env) cliArgs() []string {
	path := e.cfgPath
	os.Args[0] = program
	st := e.sc.P["args"]
	if st&8 != 0 {
		if wd, err := os.Getwd(); err == nil {
			if r, err := filepath.Rel(wd, path); err == nil {
				path = r
			}
		}
	}
	var a []string
	switch st & 7 {
	case 1:
		a = []string{"--config", path}
	case 2:
		a = []string{"-c", path}
	case 3:
		a = []string{"-c" + path}
	case 4: // the file beside the program
		os.Args[0] = filepath.Join(ScratchDir, "gevulot")
	default:
		a = []string{"--config=" + path}
	}
	switch st >> 4 {
	case 1:
		a = append(a, "-v")
	case 2:
		a = append([]string{"--verbose"}, a...)
	}
	return a
}

var program = os.Args[0]

func (e *env) boot(kind string) {
	e.boots++
	switch kind {
	case "cli":
		simrt.GoNamed("main", func() {
			e.cliExit = cli.Run(e.cliArgs())
			e.cliDone = true
			e.evWL.WakeAll()
		})
		return
	case "run":
		e.ch = simrt.MakeChan(make(chan *server.Config, 1))
		simrt.Spawn("publisher", e.publisher)
		e.call("Run", nil, func() error { return server.Run(e.ch) })
		return
	}
	if e.ch == nil {
		e.ch = simrt.MakeChan(make(chan *server.Config, e.sc.P["chcap"]))
		simrt.Spawn("publisher", e.publisher)
		e.dist = server.NewConfigDistributor(e.ch)
	}
	switch kind {
	case "start":
		e.srv = server.NewServer(e.dist)
		e.call("Start", nil, e.srv.Start)
	case "serve":
		e.srv = server.NewServer(e.dist)
		e.serveOn(e.sc.Cfgs[0].Listen)
	case "serveconn", "idle":
		e.srv = server.NewServer(e.dist)
	case "session":
	default:
		simrt.HarnessBug("unknown boot mode %q", kind)
	}
}

// serveOn makes a listener and passes it to Serve.
func (e *env) serveOn(addr string) *apiCall {
	ln, err := e.w.Listen("tcp", addr, true)
	if err != nil {
		return nil
	}
	if !e.closing {
		e.serveLn = ln
	}
	a := e.call("Serve", nil, func() error { return e.srv.Serve(ln) })
	a.ln = ln
	return a
}

var transientErrs = map[string]error{
	"emfile": os.NewSyscallError("accept4", syscall.EMFILE),
	"enfile": os.NewSyscallError("accept4", syscall.ENFILE),
	"again":  os.NewSyscallError("accept4", syscall.EAGAIN),
}

var permanentErrs = map[string]error{
	"einval": os.NewSyscallError("accept4", syscall.EINVAL),
	"ebadf":  os.NewSyscallError("accept4", syscall.EBADF),
}

// settle waits until nothing happens any more.
func (e *env) settle(d time.Duration) {
	simrt.Quiesce(d)
	if len(e.pubQ) == 0 && e.pubIdle {
		e.settled = e.cur
	}
	if e.sc.Boot == "cli" && !e.torn && e.boots > 0 {
		e.settled = e.lastGood
	}
}

// until waits for a condition on the run's progress; it gives up when nothing happens any more.
func (e *env) until(cond func() bool) {
	gaveUp := false
	t := simrt.At(30*time.Second, func() { gaveUp = true; e.evWL.WakeAll() })
	for !cond() && !gaveUp {
		e.evWL.Wait("control waits for an event")
		e.evWL.Remove()
	}
	t.Stop()
}

func (e *env) control(steps []Step) {
	for _, st := range steps {
		switch st.Op {
		case "gate":
			e.openGate(st.N)
		case "sleep":
			simrt.Sleep(time.Duration(st.N) * time.Microsecond)
		case "spin":
			spin(st.N)
		case "settle":
			e.settle(time.Duration(st.N) * time.Microsecond)
		case "config":
			e.publish(st.N)
		case "endsource":
			e.publish(-1)
		case "until-dials":
			e.until(func() bool { return len(e.w.Dials)-e.base[0] >= st.N })
		case "until-dbconns":
			e.until(func() bool { return len(e.conns)-e.base[1] >= st.N })
		case "until-estab":
			e.until(func() bool { return e.hits["established"]-e.base[2] >= st.N })
		case "until-clients":
			e.until(func() bool { return e.hits["client-conn"]-e.base[3] >= st.N })
		case "until-bytes":
			e.until(func() bool { return e.w.Bytes-e.base[4] >= st.N })
		case "until-listening":
			e.until(func() bool { return len(e.w.SysListeners()) > 0 })
		case "occupy":
			e.w.Occupy(st.A, true)
		case "vacate":
			e.w.Occupy(st.A, false)
		case "failaccept":
			e.hit("accept-errors")
			for _, l := range e.w.SysListeners() {
				for i := 0; i < st.N; i++ {
					er := transientErrs[st.A]
					if er == nil {
						er = permanentErrs[st.A]
					}
					l.FailAccepts(er)
				}
			}
		case "failbind":
			e.w.FailBind(st.A, os.NewSyscallError("bind", syscall.EACCES))
		case "failclose":
			e.w.FailCloses(st.N)
		case "lnclose": // whoever called Serve closes the listener
			if e.serveLn != nil {
				_ = e.serveLn.Close()
			}
		case "dial":
			for i := 0; i < st.N; i++ {
				e.w.DialPlan(string(st.B), simnet.DialRule{Kind: st.A, Delay: 0})
			}
		case "dialclear":
			e.w.ClearDialPlan(string(st.B))
		case "dialslow":
			e.w.DialPlan(string(st.B), simnet.DialRule{Kind: "slow", Delay: time.Duration(st.N) * time.Microsecond})
		case "dbdown":
			if d := e.dbs[st.A]; d != nil {
				d.down()
			}
		case "dbup":
			if d := e.dbs[st.A]; d != nil && d.ln.IsClosed() {
				d.up()
			}
		case "dbrst":
			for _, dc := range e.conns {
				if dc.srv.addr == st.A {
					dc.hang("rst")
				}
			}
		case "close":
			e.closeServer()
		case "closewait":
			e.closeServer()
			e.until(func() bool { return e.closed })
		case "start":
			e.call("Start", nil, e.srv.Start)
		case "checkstarts":
			e.settle(time.Second)
			e.checkStarts()
		case "serve":
			e.serveOn(st.A)
		case "serveconn":
			e.extraServeConn()
		case "close2":
			e.closeServer()
		case "distclose":
			e.call("dist.Close", nil, func() error { e.dist.Close(); return nil })
		case "baseline":
			// one complete session first: whatever the proxy starts once and keeps is then there
			if e.dist != nil {
				e.call("dist.Get", nil, func() error { _, err := e.dist.Get(); return err })
			}
			e.settle(time.Second)
			e.warming, e.w.NoRules = true, true
			e.probe("", "warming up")
			e.warming, e.w.NoRules = false, false
			e.base = [5]int{len(e.w.Dials), len(e.conns), e.hits["established"], e.hits["client-conn"], e.w.Bytes}
			e.baseline = countTasks()
		case "write":
			e.cliWrite(st)
		case "fslose":
			e.w.Fault("notifications-lost")
			fsnotify.Losing = true
		case "fserr":
			e.w.Fault("notification-error")
			fsnotify.Fail(errors.New("notify: poll error"))
		case "fsfail":
			e.w.Fault("watch-failed")
			err := os.NewSyscallError("inotify", syscall.EMFILE)
			if st.A == "new" {
				fsnotify.FailNew = err
			} else {
				fsnotify.FailAdd = err
			}
		case "remove":
			e.everTorn = true
			_ = os.Remove(e.cfgPath)
			simrt.Yield()
		case "boot":
			e.boot(e.sc.Boot)
		case "checkserve":
			for _, a := range e.apis {
				if a.name == "Serve" && a.ln == e.serveLn {
					e.hit("permanent-accept-error")
					if !a.done {
						e.fail("C16", "serve-stuck", "Serve is still running after a permanent accept error")
					} else if a.err == nil {
						e.fail("C16", "serve-result", "Serve reported no error after a permanent accept error")
					}
				}
			}
		case "checkwithin":
			e.settle(time.Duration(st.N) * time.Microsecond)
			if e.sc.P["patience"] <= 200 { // nobody idles that long
				e.checkLive(fmt.Sprintf("after %v", time.Duration(st.N)*time.Microsecond))
			}
		case "checksettled":
			e.settle(200 * time.Second)
			e.checkLive("settled")
		}
	}
}

// cliWrite rewrites the configuration file in place: truncate, then write the content in pieces.
func (e *env) cliWrite(st Step) {
	var body []byte
	if st.B != nil || st.A == "raw" {
		body = st.B
	} else {
		body = e.fileBody(st.N)
	}
	valid := st.A != "raw"
	if valid {
		e.written[simnet.Canon(e.sc.Cfgs[st.N].Listen)] = true
		e.cur = st.N
		e.lastGood = st.N
		e.torn = false
	} else {
		e.torn = true
		e.everTorn = true
		e.hit("bad-file")
	}
	e.noteChange()
	if st.Chunk == 0 {
		e.writeFile(body)
		return
	}
	e.everTorn = true
	e.writeFile(nil)
	e.hit("torn-write")
	for len(body) > 0 {
		n := st.Chunk
		if n > len(body) {
			n = len(body)
		}
		e.appendFile(body[:n])
		body = body[n:]
		if len(st.M) > 0 { // pause between pieces
			simrt.Sleep(time.Duration(st.M[0].N) * time.Microsecond)
		}
	}
}

func countTasks() map[string]int {
	m := map[string]int{}
	for _, b := range simrt.BlockedTasks(simrt.GroupSystem) {
		m[b.Name]++
	}
	return m
}

func (e *env) extraServeConn() {
	c := e.addClient(&Client{Expect: "any", Params: goodParams(e, len(e.cls))})
	a, b := e.w.Pair()
	a.Label, b.Label = fmt.Sprintf("proxy-side of client%d", c.i), fmt.Sprintf("client%d", c.i)
	c.conn = b
	h := a.Handle()
	c.api = e.call("ServeConn", c, func() error { return e.srv.ServeConn(h) })
	simrt.Spawn(fmt.Sprintf("client-reader %d", c.i), c.readLoop)
	simrt.Spawn(fmt.Sprintf("client %d", c.i), func() {
		neg, at := c.negotiation()
		c.startAt, c.startLen = at, len(neg)
		writeAll(c.conn, neg, 0)
		c.script = true
	})
}

func goodParams(e *env, i int) []Param {
	k := e.cur
	if k < 0 {
		k = 0
	}
	return []Param{{"user", "u"}, {"database", e.sc.Cfgs[k].DBName}, {tagParam, fmt.Sprintf("c%d", i)}}
}

// closeServer calls Close in its own task.
func (e *env) closeServer() {
	if e.srv == nil {
		return
	}
	if !e.closing {
		e.closeAt = simrt.Steps()
	}
	if !e.closing {
		for _, a := range e.apis {
			if a.name == "Start" && a.done && !errors.Is(a.err, server.ErrServerAlreadyStarted) && e.sc.Prop == "C12" {
				e.fail("C12", "start-result", "a Start call on a server that was not closed returned %v", a.err)
			}
		}
	}
	e.closing = true
	e.hit("close-called")
	e.closers++
	e.call("Close", nil, func() error {
		err := e.srv.Close()
		// a Close that finds the server closing returns at once, so the last one of concurrent calls counts
		if e.closers--; e.closers == 0 && !e.closed {
			e.closed = true
			e.atClosed()
		}
		return err
	})
}

// atClosed runs at the moment the first Close call returns.
func (e *env) atClosed() {
	e.hit("close-returned")
	// What calls still in progress open meanwhile is judged at rest.
	for _, l := range e.w.Listeners {
		if l.Sys && !l.IsClosed() && !e.foreignListener(l) && l.FirstAccept > 0 && l.FirstAccept < e.closeAt {
			e.fail("C11", "listener-open", "Close has returned and the listener on %s, which was in use when it was called, is still open", l.Raw())
		}
	}
	for _, cl := range e.cls {
		if dc := cl.dbConn(); dc != nil && cl.estabAt < e.closeAt {
			for _, c := range []*simnet.Conn{cl.conn.Peer(), dc.conn.Peer()} {
				if !c.IsClosed() && !e.foreignConn(c) {
					e.fail("C11", "connection-open", "Close has returned and connection %s of a session that was established when it was called is still open", c)
				}
			}
		}
	}
}

// foreignListener: a listener handed to Serve that Serve has not (yet) taken over.
func (e *env) foreignListener(l *simnet.Listener) bool {
	for _, a := range e.apis {
		if a.ln == l && !a.done {
			return true
		}
	}
	return false
}

// foreignConn: a connection handed to ServeConn by a call that has not returned yet (the caller still owns
// it until ServeConn has registered it).
func (e *env) foreignConn(c *simnet.Conn) bool {
	for _, cl := range e.cls {
		if cl.api != nil && cl.conn != nil && cl.conn.Peer() == c && !cl.api.done {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------------------------------
// Oracles at rest.

// disturbed: someone ended this session on purpose.
func (c *client) disturbed() bool {
	if c.closed || c.closeOp != "" || c.spec.Role == "hostile" {
		return true
	}
	dc := c.dbConn()
	return dc != nil && (dc.closed || dc.closeOp != "")
}

func (c *client) want() []byte {
	s := c.stream()
	if len(s) < 8 {
		return nil
	}
	n := c.startLen - c.startAt
	if c.spec.Pre != nil || n > len(s) {
		return nil
	}
	k, _ := completePrefix(s[n:])
	return s[:n+k]
}

func (dc *dbConn) want() []byte {
	s := dc.conn.Sent()
	k, _ := completePrefix(s)
	return s[:k]
}

func endReason(err error) string {
	if err == nil {
		return ""
	}
	if err == io.EOF {
		return "end of stream"
	}
	return err.Error()
}

// checkLive judges every session that nobody has ended.
func (e *env) checkLive(when string) {
	if e.closing || e.srcClose && e.sc.Boot != "start" {
		return
	}
	for _, c := range e.cls {
		c.checkLive(when)
	}
}

func (c *client) checkLive(when string) {
	e := c.e
	if c.conn == nil {
		if c.err != nil && c.spec.Expect == "" {
			e.fail("C04 C06 C07 C10 C13 C16 C21", "not-served", "%s: client %d could not connect to %s: %v", when, c.i, c.target(), c.err)
		}
		return
	}
	if c.finished || c.disturbed() {
		return
	}
	if c.spec.Cut != 0 || c.spec.Expect != "" && !(c.spec.Expect == "any" && c.estab && e.sc.P["perm"] > 0) {
		return
	}
	dc := c.dbConn()
	props := relay
	if dc == nil {
		if c.rdDone {
			e.fail(props, "not-served", "%s: client %d was disconnected (%s) without being connected to the database", when, c.i, endReason(c.rdErr))
		} else {
			e.fail(props, "not-served", "%s: client %d (%d bytes sent, %d received) is waiting and was never connected to the database", when, c.i, c.conn.SentCount(), len(c.got))
		}
		return
	}
	if c.rdDone && !c.stalled {
		e.fail(props, "session-ended", "%s: the session of client %d ended (%s) though neither side hung up", when, c.i, endReason(c.rdErr))
	}
	if dc.rdDone && !dc.stalled {
		e.fail(props, "session-ended", "%s: the database connection of client %d ended (%s) though neither side hung up", when, c.i, endReason(dc.rdErr))
	}
	if !dc.stalled {
		if w := c.want(); len(dc.got) < len(w) {
			e.fail("C01 C04 C06 C07 C09 C10 C14 C16", "client-to-db-incomplete", "%s: client %d sent %d bytes of complete messages, its database received %d%s",
				when, c.i, len(w), len(dc.got), stallNote(c.stalled, "client"))
		}
	}
	if !c.stalled {
		if w := dc.want(); len(c.got)-c.sslCount() < len(w) {
			e.fail("C02 C04 C06 C07 C09 C10 C14 C16", "db-to-client-incomplete", "%s: the database of client %d sent %d bytes of complete messages, the client received %d%s",
				when, c.i, len(w), len(c.got)-c.sslCount(), stallNote(dc.stalled, "database"))
		}
		if n := c.sslCount(); len(c.got) < n {
			e.fail("C09", "ssl-answers", "%s: client %d sent %d SSL requests and received %d bytes", when, c.i, n, len(c.got))
		}
	}
	if (!c.script || !dc.script) && !c.stalled && !dc.stalled {
		e.fail("C04", "no-progress", "%s: the dialogue of client %d did not run to its end (client done: %v, database done: %v)", when, c.i, c.script, dc.script)
	}
	e.hit("settled-session")
	if len(dc.got) > dc.start && len(c.got) > c.sslCount() {
		e.hit("both-ways")
	}
}

func stallNote(st bool, who string) string {
	if st {
		return " (the " + who + " is not reading, which must not matter)"
	}
	return ""
}

// checkHangup judges sessions that one side has ended, once everything is quiet.
func (e *env) checkHangup(when string) {
	if e.closing {
		return
	}
	for _, c := range e.cls {
		c.checkHangup(when)
	}
}

func (c *client) checkHangup(when string) {
	e := c.e
	if c.conn == nil {
		return
	}
	dc := c.dbConn()
	cEnd := c.closeOp != ""
	dEnd := dc != nil && dc.closeOp != ""
	if !cEnd && !dEnd {
		return
	}
	// Delivery of everything sent before an orderly hang-up.
	if dc != nil && cEnd && (c.closeOp == "close" || c.closeOp == "closewrite") && (!dEnd) && !dc.stalled {
		e.hit("hangup-delivery")
		if w := c.want(); len(dc.got) < len(w) {
			e.fail("C03", "lost-at-hangup", "%s: client %d sent %d bytes of complete messages and then closed; the database received only %d (then: %s)",
				when, c.i, len(w), len(dc.got), endReason(dc.rdErr))
		}
	}
	if dc != nil && dEnd && (dc.closeOp == "close" || dc.closeOp == "closewrite") && (!cEnd) && !c.stalled && !c.spec.NoRead {
		e.hit("hangup-delivery")
		if w := dc.want(); len(c.got)-c.sslCount() < len(w) {
			e.fail("C03", "lost-at-hangup", "%s: the database of client %d sent %d bytes of complete messages and then closed; the client received only %d (then: %s)",
				when, c.i, len(w), len(c.got)-c.sslCount(), endReason(c.rdErr))
		}
	}
	// The session must be over if the side that is left keeps reading (or has gone too).
	leftReads := true
	if cEnd && !dEnd && dc != nil && dc.stalled {
		leftReads = false
	}
	if dEnd && !cEnd && (c.stalled || c.spec.NoRead) {
		leftReads = false
	}
	if c.closeOp == "closewrite" && c.stalled || dEnd && dc.closeOp == "closewrite" && dc.stalled {
		leftReads = false
	}
	if !leftReads {
		return
	}
	e.hit("hangup-ends")
	if !c.conn.Peer().IsClosed() {
		e.fail("C05 C10", "client-conn-open", "%s: %s, but the proxy still holds client %d's connection open", when, c.who(), c.i)
	}
	for _, d := range c.dbc {
		if !d.conn.Peer().IsClosed() {
			e.fail("C05", "db-conn-open", "%s: %s, but the proxy still holds the database connection open", when, c.who())
		}
	}
	if c.api != nil && !c.api.done {
		e.fail("C05", "serve-call-stuck", "%s: %s, but the call serving the session has not returned", when, c.who())
	}
}

// lossy tells whether a connection's end may take what was under way with it.
func lossy(op string) bool { return op == "rst" || op == "vanish" }

// checkHostile judges that what preceded malformed bytes was relayed.
func (e *env) checkHostile(when string) {
	if e.closing {
		return
	}
	for _, c := range e.cls {
		dc := c.dbConn()
		if c.spec.Role != "hostile" || c.conn == nil || dc == nil {
			continue
		}
		if c.rawAt >= 0 && !lossy(c.closeOp) && dc.closeOp == "" && !dc.stalled && dc.rawAt < 0 {
			e.hit("hostile-prefix")
			if w := int(c.rawAt) - 8*c.sslCount(); len(dc.got) < w {
				e.fail("C07", "prefix-lost", "%s: client %d sent %d bytes of well-formed messages before malformed bytes; its database received %d", when, c.i, w, len(dc.got))
			}
		}
		if dc.rawAt >= 0 && !lossy(dc.closeOp) && c.closeOp == "" && !c.stalled && c.rawAt < 0 {
			e.hit("hostile-prefix")
			if w := int(dc.rawAt); len(c.got)-c.sslCount() < w {
				e.fail("C07", "prefix-lost", "%s: the database of client %d sent %d bytes of well-formed messages before malformed bytes; the client received %d", when, c.i, w, len(c.got)-c.sslCount())
			}
		}
	}
}

// watchResources installs the memory and stack oracles.
func (e *env) watchResources() {
	simrt.OnAlloc = func(n uint64) {
		if n <= 1<<20 {
			return
		}
		rcv := uint64(0)
		for _, c := range e.w.Conns {
			if c.Sys {
				rcv += uint64(c.ReadCount())
			}
		}
		if n > 1<<20+64*rcv {
			e.fail("C07 C23", "memory", "an allocation of %d bytes was made after %d bytes had been received in all", n, rcv)
		}
	}
	depth := strings.Contains("C07 C09", e.sc.Prop)
	if !depth && e.sc.P["held"] == 0 {
		return
	}
	var pcs [1200]uintptr
	simnet.OnSysRead = func() {
		if depth && runtime.Callers(0, pcs[:]) > 600 {
			e.fail("C07 C09", "stack", "a goroutine that reads from a connection is more than 600 calls deep: the stack grows with the bytes received")
		}
		if e.sc.P["held"] > 0 {
			e.checkHeld()
		}
	}
}

// What the proxy may hold for a party that does not read: messages of a session's direction, and bytes on top of that.
const heldMessages, heldBytes = 1000, 1 << 17

// checkHeld compares what the proxy has read from every party with what it has written to the other.
func (e *env) checkHeld() {
	max := int64(heldMessages*e.sc.P["held"] + heldBytes)
	for _, c := range e.cls {
		if c.conn == nil || c.closed {
			continue
		}
		p := c.conn.Peer()
		in, out := p.ReadCount(), int64(0)
		dc := c.dbConn()
		if dc != nil {
			q := dc.conn.Peer()
			out = q.SentCount()
			if r, w := q.ReadCount(), p.SentCount(); r-w > max && !dc.closed {
				e.fail("C28", "unbounded-queue", "client %d is not reading: the proxy has read %d bytes from the database and has written %d to the client", c.i, r, w)
			}
			if r, w := q.ReadCount(), p.SentCount(); r-w > 2000 {
				e.hit("held-back")
			}
		}
		if in-out > max {
			e.fail("C28", "unbounded-queue", "the database of client %d is not reading: the proxy has read %d bytes from the client and has written %d to the database", c.i, in, out)
		}
		if in-out > 2000 {
			e.hit("held-back")
		}
	}
}

func (c *client) who() string {
	dc := c.dbConn()
	var s []string
	if c.closeOp != "" {
		s = append(s, fmt.Sprintf("client %d hung up (%s)", c.i, c.closeOp))
	}
	if dc != nil && dc.closeOp != "" {
		s = append(s, fmt.Sprintf("the database of client %d hung up (%s)", c.i, dc.closeOp))
	}
	if len(s) == 0 {
		s = append(s, fmt.Sprintf("client %d must be disconnected", c.i))
	}
	return strings.Join(s, " and ")
}

// checkRefused judges clients that must not be let through.
func (e *env) checkRefused(when string) {
	if e.closing {
		return
	}
	for _, c := range e.cls {
		if c.spec.Expect != "refused" || c.conn == nil {
			continue
		}
		e.hit("refusal")
		if c.closeOp == "" && !c.rdDone && !c.spec.NoRead {
			e.fail("C08 C10 C05", "not-disconnected", "%s: client %d must be refused and is still connected", when, c.i)
		}
		if c.api != nil && !c.api.done {
			e.fail("C05 C10", "serve-call-stuck", "%s: the call serving refused client %d has not returned", when, c.i)
		}
		if c.conn.Peer() != nil && c.conn.Peer().Sys && !c.conn.Peer().IsClosed() {
			e.fail("C08 C10 C05", "client-conn-open", "%s: the proxy still holds refused client %d's connection", when, c.i)
		}
	}
}

// checkGone judges that nothing of ended sessions is left: connections and goroutines.
func (e *env) checkGone(when string) {
	if e.closing {
		return
	}
	alive := 0
	for _, c := range e.cls {
		if c.conn != nil && !c.conn.Peer().IsClosed() {
			alive++
		}
	}
	if alive > 0 {
		return
	}
	for _, c := range e.w.SysConns() {
		e.fail("C05 C10", "connection-leak", "%s: every client is gone and the proxy still holds connection %s", when, c)
	}
	if e.baseline != nil {
		now := countTasks()
		var extra []string
		for k, n := range now {
			if strings.HasPrefix(k, "api:") && k != "api:ServeConn" {
				continue
			}
			if n > e.baseline[k] {
				extra = append(extra, fmt.Sprintf("%s x%d", k, n-e.baseline[k]))
			}
		}
		sort.Strings(extra)
		if len(extra) > 0 {
			e.fail("C05 C10", "goroutine-leak", "%s: every session is over and these goroutines are left: %s", when, strings.Join(extra, ", "))
		}
		e.hit("gone")
		e.checkRetained(when)
	}
}

// checkRetained judges that the proxy does not remember sessions that are over. Some of their memory may
// be kept for reuse, so that the check needs many sessions.
func (e *env) checkRetained(when string) {
	if e.w.ClosedHandles() < 48 {
		return
	}
	e.hit("memory-looked-at")
	ssync.ClearPools()
	if closed, held := e.w.Retained(); held > closed/4 {
		e.fail("C05 C10", "session-retained", "%s: every session is over, and %d of the %d connections that the proxy has closed are still in its memory", when, held, closed)
	}
}

// checkListeners judges where the proxy listens once configuration updates have stopped.
func (e *env) checkListeners(when string) {
	if e.closing || e.sc.Boot == "serve" || e.sc.Boot == "serveconn" || e.sc.Boot == "session" || e.sc.Boot == "idle" {
		return
	}
	ls := e.w.SysListeners()
	var have []string
	for _, l := range ls {
		have = append(have, l.Raw())
	}
	want := ""
	for i := 0; i <= e.cur && i < len(e.sc.Cfgs); i++ {
		if !e.sc.Cfgs[i].Bad {
			want = e.sc.Cfgs[i].Listen
		}
	}
	if e.cur < 0 {
		return
	}
	if e.sc.Boot == "cli" && e.lastGood >= 0 {
		want = e.sc.Cfgs[e.lastGood].Listen
		if e.sc.Cfgs[e.lastGood].Bad {
			return
		}
	}
	e.hit("listeners-checked")
	if want == "" {
		if len(have) > 0 {
			e.fail("C13", "unexpected-listener", "%s: listening on %v but no configuration could be bound", when, have)
		}
		return
	}
	if len(have) != 1 || simnet.Canon(have[0]) != simnet.Canon(want) {
		e.fail("C13 C16 C21 C22", "wrong-listener", "%s: the proxy should listen on %s alone and listens on %v", when, want, have)
	}
}

// checkWritten judges that the proxy never listened where no configuration told it to.
func (e *env) checkWritten() {
	if e.sc.Boot != "cli" {
		return
	}
	for _, l := range e.w.Listeners {
		if l.Sys && !e.written[simnet.Canon(l.Raw())] {
			e.fail("C22 C21", "unnamed-address", "the proxy listened on %s, which no version of the configuration file names", l.Raw())
		}
	}
}

// checkClosed judges the state after Close, once everything is quiet.
func (e *env) checkClosed() {
	if !e.closing {
		return
	}
	if !e.closed {
		e.fail("C11", "close-stuck", "Close has not returned")
		return
	}
	for _, l := range e.w.SysListeners() {
		e.fail("C11", "listener-open", "after Close the listener on %s is open", l.Raw())
	}
	for _, c := range e.w.SysConns() {
		e.fail("C11", "connection-open", "after Close connection %s is open", c)
	}
}

// checkStarts judges the Start calls at rest, on a server that is not closed.
func (e *env) checkStarts() {
	if e.closing {
		return
	}
	starts, running := 0, 0
	for _, a := range e.apis {
		if a.name != "Start" {
			continue
		}
		starts++
		if !a.done {
			running++
		} else if !errors.Is(a.err, server.ErrServerAlreadyStarted) {
			e.fail("C12", "start-result", "a Start call on a server that was not closed returned %v", a.err)
		}
	}
	if running > 1 {
		e.fail("C12", "two-starts", "%d of %d Start calls are serving at the same time", running, starts)
	}
	if starts > 0 && running == 0 {
		e.fail("C12", "start-result", "none of %d Start calls serves, though the server was not closed", starts)
	}
	if starts > 1 {
		e.hit("starts-checked")
	}
}

// apiResults judges what Start, Serve, ServeConn and Close returned.
func (e *env) apiResults() {
	if !e.closing {
		return
	}
	served := 0
	for _, a := range e.apis {
		switch a.name {
		case "Start":
			if !a.done {
				e.fail("C11 C12", "start-stuck", "Start has not returned after Close")
				continue
			}
			switch {
			case errors.Is(a.err, server.ErrServerAlreadyStarted):
			case errors.Is(a.err, server.ErrServerClosed):
				served++
			default:
				e.fail("C12", "start-result", "Start returned %v", a.err)
			}
			if a.afterCl && !errors.Is(a.err, server.ErrServerClosed) {
				e.fail("C12", "start-result", "Start called after Close returned %v instead of the closed-server error", a.err)
			}
		case "Serve":
			if !a.done {
				e.fail("C11 C12", "serve-stuck", "Serve has not returned after Close")
				continue
			}
			if a.err == nil {
				e.fail("C12", "serve-result", "Serve returned no error")
			}
			if a.afterCl && !errors.Is(a.err, server.ErrServerClosed) {
				e.fail("C12", "serve-result", "Serve called after Close returned %v instead of the closed-server error", a.err)
			}
		case "ServeConn":
			if !a.done {
				e.fail("C11 C12", "serveconn-stuck", "ServeConn has not returned after Close")
				continue
			}
			if a.afterCl {
				e.hit("serveconn-after-close")
				if !errors.Is(a.err, server.ErrServerClosed) {
					e.fail("C12", "serveconn-result", "ServeConn called after Close returned %v instead of the closed-server error", a.err)
				}
				if a.cl != nil && len(a.cl.dbc) > 0 {
					e.fail("C12", "served-after-close", "ServeConn called after Close connected its client to the database")
				}
			}
		case "Close":
			if !a.done {
				e.fail("C11", "close-stuck", "Close has not returned")
				continue
			}
			if a.afterCl {
				e.hit("second-close")
				if a.err != nil {
					e.fail("C11", "second-close", "Close on a closed server returned %v", a.err)
				}
			}
		}
	}
}

// probe sends one more client through the proxy and expects it to be served.
func (e *env) probe(props, when string) {
	if e.closing || e.cur < 0 || e.currentAddr() == nowhere {
		return
	}
	k := e.cur
	if e.sc.Boot == "cli" && e.lastGood >= 0 {
		k = e.lastGood
	}
	e.probes++
	i := len(e.cls)
	spec := &Client{
		Params: []Param{{"user", "probe"}, {"database", e.sc.Cfgs[k].DBName}, {tagParam, fmt.Sprintf("c%d", i)}},
		SSL:    i % 2,
		Steps: []Step{
			{Op: "send", M: []Msg{{T: 'Q', K: "cstr", N: 17, S: uint64(i)}}},
			{Op: "recv", N: 2},
			{Op: "send", M: []Msg{{T: 'X', K: "empty"}}},
		},
		DB: []Step{
			{Op: "recv", N: 1},
			{Op: "send", M: []Msg{{T: 'D', K: "row", N: 12, S: 7}, {T: 'Z', K: "byte", S: 3}}},
			{Op: "recv", N: 2},
		},
		Role: "probe",
	}
	c := e.addClient(spec)
	c.probe = true
	simrt.Spawn(fmt.Sprintf("client %d", i), c.run)
	e.settle(200 * time.Second)
	if c.conn == nil {
		e.fail(props, "not-served", "%s: a new client could not connect to %s: %v", when, c.target(), c.err)
		return
	}
	dc := c.dbConn()
	if dc == nil {
		e.fail(props, "not-served", "%s: a new client was not connected to the database (its connection: %s)", when, endReason(c.rdErr))
		return
	}
	if dc.srv.addr != e.sc.Cfgs[k].DBAddr {
		e.fail("C15 C21", "stale-config", "%s: a new client was connected to %s instead of %s", when, dc.srv.addr, e.sc.Cfgs[k].DBAddr)
	}
	if len(dc.got) < len(c.want()) || len(c.got)-c.sslCount() < len(dc.want()) || !c.script || !dc.script {
		e.fail(props, "probe-incomplete", "%s: a new client's exchange did not complete (database received %d of %d bytes, client %d of %d)",
			when, len(dc.got), len(c.want()), len(c.got)-c.sslCount(), len(dc.want()))
	}
	e.hit("probe-served")
	c.hang("close")
	e.settle(time.Second)
}

// ---------------------------------------------------------------------------------------------------

// proxyMain runs a proxy scenario from start to end.
func (e *env) proxyMain() {
	sc := e.sc
	e.w = simnet.W()
	e.w.Cfg = sc.Net
	e.written = map[string]bool{}
	e.watchResources()
	fsnotify.Setup(sc.FsDelay)
	e.dbs = map[string]*dbServer{}
	e.cur, e.settled, e.lastGood = -1, -1, -1
	for _, c := range sc.Cfgs {
		if c.DBAddr != "" {
			e.startDB(c.DBAddr, c.DBName)
		}
	}
	if sc.Boot == "cli" {
		e.cfgPath = filepath.Join(ScratchDir, "gevulot.toml")
		_ = os.Remove(e.cfgPath)
	}
	for i := range sc.Clients {
		e.addClient(&sc.Clients[i])
	}
	direct := sc.Boot == "serveconn" || sc.Boot == "session" // the clients call into the server themselves
	if direct {
		e.boot(sc.Boot)
	}
	for i := range sc.Clients {
		c := e.cls[i]
		simrt.Spawn(fmt.Sprintf("client %d", c.i), c.run)
	}
	if sc.Boot != "cli" && !direct { // cli: the script writes the file first and then boots
		e.boot(sc.Boot)
	}
	e.control(sc.Ctl)
	e.epilogue()
}

// patience is how long the run is given to come to rest.
func (e *env) patience() time.Duration {
	if n := e.sc.P["patience"]; n > 200 {
		return time.Duration(n) * time.Second
	}
	return 200 * time.Second
}

func (e *env) epilogue() {
	sc := e.sc
	long := e.patience()
	e.settle(long)
	if e.closing {
		e.finishClosed()
		return
	}
	if !e.pubIdle && sc.Boot != "cli" && !e.srcClose && len(e.pubQ) > 0 {
		e.fail("C13 C19 C21", "config-stuck", "the proxy stopped taking configuration updates (%d waiting)", len(e.pubQ)+1)
	}
	if sc.Boot == "cli" && e.cliDone {
		e.cliEnded()
		return
	}
	if sc.P["badstart"] > 0 {
		e.hit("bad-start")
		e.fail("C22", "served-bad-config", "started with an unusable configuration file the proxy keeps running (listening on %d addresses)", len(e.w.SysListeners()))
		return
	}
	e.checkListeners("at rest")
	e.checkLive("at rest")
	e.checkHangup("at rest")
	e.checkRefused("at rest")
	e.checkHostile("at rest")
	e.checkWritten()
	if sc.P["nowake"] > 0 {
		e.lastly()
		return
	}
	// everyone resumes reading
	woke := false
	for _, c := range e.cls {
		if c.stalled {
			c.resume()
			woke = true
		}
	}
	for _, dc := range e.conns {
		if dc.stalled {
			dc.resume()
			woke = true
		}
	}
	if woke {
		e.settle(long)
		e.checkLive("after everyone resumed reading")
		e.checkHangup("after everyone resumed reading")
	}
	e.probe("C06 C07 C10 C13 C15 C16 C21 C22", "at rest")
	if sc.Hangup == "" || sc.Hangup == "none" {
		e.lastly()
		return
	}
	for _, c := range e.cls {
		if c.conn == nil || c.closeOp != "" {
			continue
		}
		if dc := c.dbConn(); sc.Hangup == "db" && dc != nil && dc.closeOp == "" {
			dc.hang("close")
		} else {
			c.hang("close")
		}
	}
	e.settle(long)
	e.checkHangup("after the remaining sessions were ended")
	e.checkGone("after the remaining sessions were ended")
	e.lastly()
}

func (e *env) lastly() {
	if e.srv == nil {
		return
	}
	e.closeServer()
	e.settle(100 * time.Second)
	e.finishClosed()
}

func (e *env) finishClosed() {
	e.settle(e.patience())
	e.checkClosed()
	if e.srv != nil && e.closed && e.sc.P["late"] > 0 {
		// calls after Close
		e.call("Start", nil, e.srv.Start)
		e.serveOn("127.0.0.1:6999")
		e.extraServeConn()
		e.call("Close", nil, e.srv.Close)
		e.settle(20 * time.Second)
		e.checkClosed()
	}
	e.apiResults()
	for _, c := range e.cls {
		if c.conn != nil && c.dbConn() == nil && c.spec.Expect == "refused" {
			e.hit("refusal")
		}
	}
	if e.dist != nil {
		a := e.call("dist.Close", nil, func() error { e.dist.Close(); return nil })
		e.settle(time.Second)
		if !a.done {
			e.fail("C19", "dist-close-stuck", "closing the configuration distributor does not return")
		}
		for _, b := range simrt.BlockedTasks(simrt.GroupSystem) {
			if strings.HasPrefix(b.Name, "api:") {
				continue
			}
			e.fail("C11 C19", "goroutine-left", "after Close, and after the configuration distributor was closed too, a goroutine is left: %s", b)
		}
	}
}

// cliEnded judges a command-line run that returned.
func (e *env) cliEnded() {
	if len(e.w.Listeners) > len(e.dbs) {
		any := false
		for _, l := range e.w.Listeners {
			any = any || l.Sys
		}
		if any && e.sc.P["badstart"] > 0 {
			e.fail("C22", "served-bad-config", "started with an unusable configuration file the proxy listened before it exited")
		}
	}
	if e.sc.P["badstart"] > 0 {
		e.hit("bad-start")
		if e.cliExit != 1 {
			e.fail("C22", "exit-status", "started with an unusable configuration file the proxy exited with status %d", e.cliExit)
		}
		return
	}
	if e.sc.P["watchfail"] > 0 && e.cliExit == 1 {
		e.hit("exit-at-start")
		return
	}
	if e.everTorn && e.cliExit == 1 {
		started := false
		for _, l := range e.w.Listeners {
			started = started || l.Sys
		}
		if !started { // it met an unfinished file when it started
			e.hit("exit-at-start")
			return
		}
	}
	e.fail("C21 C22 C13 C16", "proxy-exited", "the proxy exited with status %d", e.cliExit)
}
