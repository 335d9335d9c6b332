//go:build go1.21

package harness

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/hired/gevulot/pkg/pg"
	"github.com/hired/gevulot/zzsim/simnet"
	"github.com/hired/gevulot/zzsim/simrt"
)

// ---------------------------------------------------------------------------------------------------
// Reading messages from a connection.

// oddConn is a connection whose reads use the freedom net.Conn leaves them.
type oddConn struct {
	*simnet.Conn
	k     int // one read in k is odd
	last  int // bytes after which the stream ends (with its data), -1: unknown
	failN int // reads fail once that many bytes have been read, -1: never
	err   error
	n     int
}

func (c *oddConn) Read(b []byte) (int, error) {
	if c.failN >= 0 {
		if c.n >= c.failN {
			c.Conn.Read(nil)
			return 0, c.err
		}
		if len(b) > c.failN-c.n {
			b = b[:c.failN-c.n]
		}
	}
	if c.k > 0 {
		switch simrt.TaskDraw("odd-read", 3*c.k) {
		case 1:
			if len(b) > 0 {
				b = b[:1]
			}
		case 2:
			simnet.W().Fault("empty-read")
			return 0, nil // allowed, if discouraged
		}
	}
	n, err := c.Conn.Read(b)
	c.n += n
	if err == nil && c.last >= 0 && c.n == c.last && n > 0 {
		return n, io.EOF
	}
	if err == nil && c.failN >= 0 && c.n == c.failN && n > 0 && c.k == 1 {
		return n, c.err
	}
	return n, err
}

func (c *oddConn) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, struct{ io.Reader }{c}) }

type wireMsg struct {
	b       []byte
	startup bool
	end     int
}

func (e *env) frameMain() {
	e.w = simnet.W()
	e.w.Cfg = e.sc.Net
	var stream []byte
	var msgs []wireMsg
	if len(e.sc.Clients) > 0 {
		c := e.sc.Clients[0]
		b := c.Pre
		if b == nil {
			ver := c.Ver
			if ver == 0 {
				ver = 196608
			}
			b = startupBytes(ver, c.Params, !c.NoTerm, c.Tail)
		}
		stream = append(stream, b...)
		msgs = append(msgs, wireMsg{b: b, startup: true, end: len(stream)})
	}
	for _, m := range e.sc.Data {
		b := m.Bytes()
		stream = append(stream, b...)
		msgs = append(msgs, wireMsg{b: b, end: len(stream)})
	}
	if k := e.sc.P["cut"]; k > 0 && k <= len(stream) {
		stream = stream[:k-1]
	}
	sys, peer := e.w.Pair()
	var rd interface {
		io.Reader
	} = sys
	conn := pg.NewConn(sys)
	odd := &oddConn{Conn: sys, k: e.sc.P["odd"], last: -1, failN: -1}
	if e.sc.P["wrap"] > 0 {
		if e.sc.P["eofdata"] > 0 && e.sc.Note == "close" {
			odd.last = len(stream)
			e.w.Fault("data-with-eof")
		}
		if k := e.sc.P["fail"]; k > 0 && k-1 <= len(stream) {
			odd.failN = k - 1
			odd.err = []error{os.NewSyscallError("read", syscall.ECONNRESET), os.NewSyscallError("read", syscall.ETIMEDOUT), os.ErrDeadlineExceeded,
				errors.New("tls: bad record MAC"), io.ErrUnexpectedEOF}[e.sc.P["err"]%5]
			e.w.Fault("read-error")
		}
		rd = odd
		conn = pg.NewConn(odd)
	}
	next, off := 0, 0
	over := false
	simrt.GoNamed("api:reader", func() {
		if e.sc.Note == "deadline" {
			sys.SetReadDeadline(simrt.Now().Add(time.Duration(e.sc.P["deadline"]) * time.Microsecond))
			e.w.Fault("read-deadline")
		}
		for {
			st := next < len(msgs) && msgs[next].startup
			var got []byte
			var sm *pg.StartupMessage
			var err error
			name := ""
			switch {
			case st && e.sc.P["mode"] == 0:
				name = "RecvStartupMessage"
				sm, err = conn.RecvStartupMessage()
			case st:
				name = "ReadStartupFrame"
				var f pg.StartupFrame
				if f, err = pg.ReadStartupFrame(rd); err == nil {
					got = f.Bytes()
				}
			case e.sc.P["mode"] == 0:
				name = "RecvMessage"
				var m pg.Message
				if m, err = conn.RecvMessage(); err == nil {
					got = m.Frame().Bytes()
				}
			default:
				name = "ReadStandardFrame"
				var f pg.StandardFrame
				if f, err = pg.ReadStandardFrame(rd); err == nil {
					got = f.Bytes()
				}
			}
			if err != nil {
				over = true
				e.hit("read-ended")
				return
			}
			if next >= len(msgs) || msgs[next].end > len(stream) {
				e.fail("C23", "invented", "%s returned a message (%s) although the stream of %d bytes holds only %d complete ones", name, short(got), len(stream), next)
				return
			}
			m := msgs[next]
			if bad, why := impossible(m); bad {
				e.fail("C23", "bad-length", "%s accepted a message with an impossible length (%s: %s) and returned %s", name, why, short(m.b), short(got))
				return
			}
			if odd.failN >= 0 && m.end > odd.failN {
				e.fail("C23", "invented", "%s returned message %d (%s) although reading failed %d bytes before its end", name, next, short(got), m.end-odd.failN)
				return
			}
			if sm != nil {
				e.sameStartup(sm, m.b)
			} else if !bytes.Equal(got, m.b) {
				e.fail("C23", "altered", "%s returned %s for message %d, which is %s", name, short(got), next, short(m.b))
				return
			}
			e.hit("frame-read")
			next++
			off = m.end
			if rc := int(sys.ReadCount()); rc != off {
				e.fail("C23", "overread", "%s returned message %d and has consumed %d bytes of the stream; the message ends at %d", name, next-1, rc, off)
				return
			}
		}
	})
	simrt.Spawn("writer", func() {
		writeAll(peer, stream, e.sc.P["chunk"])
		switch e.sc.Note {
		case "close":
			peer.Close()
			e.w.Fault("cut-close")
		case "closewrite":
			peer.CloseWrite()
		case "rst":
			spin(e.sc.P["spin"])
			peer.Abort()
			e.w.Fault("cut-reset")
		}
	})
	simrt.Quiesce(100 * time.Second)
	bad := false
	full := 0
	for _, m := range msgs {
		if b, _ := impossible(m); b {
			bad = true
			break
		}
		if m.end > len(stream) {
			break
		}
		full++
	}
	if over && !bad && e.sc.Note != "rst" && e.sc.Note != "deadline" && odd.failN < 0 && next < full && !e.tolerated(msgs, next) {
		e.fail("C23", "lost", "reading stopped after %d messages; %d complete ones were written", next, full)
	}
	if !over && !bad {
		if next < full {
			e.fail("C23", "lost", "the reader returned %d messages; %d complete ones have arrived (%d bytes) and it still waits", next, full, len(stream))
		}
		if e.sc.Note == "close" || e.sc.Note == "closewrite" || e.sc.Note == "rst" || e.sc.Note == "deadline" {
			e.fail("C23", "no-error", "the stream has ended (%s) but the reader neither returned a message nor an error", e.sc.Note)
		}
	}
	if !over && bad && next >= full {
		// the length field has arrived and can be judged
		if e.badArrived(msgs, stream) {
			e.fail("C23", "bad-length", "a message with an impossible length has arrived but the reader does not report an error")
		}
	}
}

// impossible tells whether no message can have this length field.
func impossible(m wireMsg) (bool, string) {
	b := m.b
	if !m.startup {
		if len(b) < 5 {
			return false, ""
		}
		b = b[1:]
	}
	if len(b) < 4 {
		return false, ""
	}
	n := int32(binary.BigEndian.Uint32(b))
	return n < 4, fmt.Sprintf("length %d", n)
}

func (e *env) badArrived(msgs []wireMsg, stream []byte) bool {
	start := 0
	for _, m := range msgs {
		if b, _ := impossible(m); b {
			h := 5
			if m.startup {
				h = 4
			}
			return start+h <= len(stream)
		}
		start = m.end
	}
	return false
}

// tolerated: a startup message whose layout PostgreSQL would reject may be reported as malformed.
func (e *env) tolerated(msgs []wireMsg, i int) bool {
	if !msgs[i].startup || e.sc.P["mode"] != 0 {
		return false
	}
	_, _, ok := parseStartup(msgs[i].b)
	return !ok && !bytes.Equal(msgs[i].b, sslRequest)
}

func (e *env) sameStartup(m *pg.StartupMessage, b []byte) {
	ver, ps, ok := parseStartup(b)
	if !ok && len(b) != 8 {
		return // what such a packet means is not defined
	}
	bad := uint32(m.ProtocolVersion) != ver || len(m.Parameters) != len(ps)
	for i := 0; !bad && i < len(ps); i++ {
		bad = m.Parameters[i] == nil || m.Parameters[i].Name != ps[i].K || m.Parameters[i].Value != ps[i].V
	}
	if bad {
		e.fail("C23", "altered", "RecvStartupMessage returned version %#x with %d parameters for the packet %s", m.ProtocolVersion, len(m.Parameters), short(b))
	}
}

// giant makes a message around a size at which buffers, counters and limits tend to change.
func (g *gen) giant(fs []form) Msg {
	size := g.pick(1<<12, 1<<15, 1<<16, 1<<16, 1<<17, 1<<20)
	if g.p(20) {
		size = 1 << 24
	}
	m := g.msg(fs, 0)
	m.T, m.K, m.Raw = "QdX"[g.n(3)], g.str("blob", "cstr"), nil
	m.N = size + g.pick(-6, -5, -4, -1, 0, 1, 5, 1000)
	return m
}

func (g *gen) framing() {
	sc := g.sc
	sc.Kind = "frame"
	g.oneCfg()
	g.net(1)
	sc.P["mode"] = g.n(2)
	if g.p(60000) { // PostgreSQL's limit is a gigabyte
		sc.P["huge"] = 1
		sc.Data = g.msgs(backForms, g.in(0, 2), 0)
		sc.Data = append(sc.Data, Msg{T: "dD"[g.n(2)], K: "fill", N: g.pick(65, 101, 129, 257)<<20 + g.n(3)})
		sc.Data = append(sc.Data, g.msgs(backForms, 1, 0)...)
		sc.Net = simnet.Config{Window: 1 << 22}
		sc.Note = g.str("close", "")
		return
	}
	if g.p(2) {
		c := Client{}
		switch g.n(6) {
		case 0:
			c.Pre = sslRequest
		case 1:
			c.Pre = g.hostileStartup(0)
			if len(c.Pre) >= 4 {
				// only packets as long as they say
				if n := int(int32(binary.BigEndian.Uint32(c.Pre))); n >= 4 && n != len(c.Pre) {
					binary.BigEndian.PutUint32(c.Pre, uint32(len(c.Pre)))
				}
			} else {
				c.Pre = sslRequest
			}
		default:
			c.Params = g.params(g.str("app", "x"), 0)
			c.Ver = uint32(g.pick(196608, 196608, 131072, 196610))
		}
		sc.Clients = append(sc.Clients, c)
	}
	fs := frontForms
	if g.p(2) {
		fs = backForms
	}
	sc.Data = g.msgs(fs, g.in(0, 8), g.pick(0, 0, 3000, 70000))
	big := g.p(300)
	if big {
		sc.Data = append(sc.Data, g.giant(fs))
	}
	if len(sc.Clients) > 0 && sc.Clients[0].Pre == nil && g.p(30) { // as long as PostgreSQL accepts
		c := &sc.Clients[0]
		c.Params = append(c.Params, Param{"options", strings.ToValidUTF8(string(text(g.rng, g.pick(240, 256, 500, 1000, 4090, 9000))), "?")})
	}
	if g.p(6) { // an impossible length, with something behind it
		n := g.pick(0, 1, 2, 3, -1, -4, -2147483648, -5)
		sc.Data = append(sc.Data, Msg{Raw: append(append([]byte{g.pickB("QDTXpdZ")}, i32(n)...), blob(g.rng, g.n(40))...)})
	}
	total := 0
	for _, c := range sc.Clients {
		if c.Pre != nil {
			total += len(c.Pre)
		} else {
			total += len(startupBytes(196608, c.Params, true, nil))
		}
	}
	var marks []int
	for _, m := range sc.Data {
		marks = append(marks, total)
		total += len(m.Bytes())
	}
	sc.Note = g.str("", "close", "close", "closewrite", "rst", "deadline")
	if g.p(2) && total > 0 {
		cut := g.n(total + 1)
		if len(marks) > 0 && g.p(2) { // near the header of a message
			cut = marks[g.n(len(marks))] + g.n(8)
			if cut > total {
				cut = total
			}
		}
		sc.P["cut"] = cut + 1
	}
	sc.P["chunk"] = g.pick(0, 0, 1, 3, 5, 100)
	sc.P["spin"] = g.pick(0, 5, 60)
	sc.P["deadline"] = g.pick(1, 50, 2000)
	if g.p(2) {
		sc.P["wrap"] = 1
		sc.P["odd"] = g.pick(0, 1, 2, 8)
		sc.P["eofdata"] = g.n(2)
		if g.p(3) && total > 0 {
			at := g.n(total + 1)
			if len(marks) > 0 && g.p(2) {
				if at = marks[g.n(len(marks))] + g.n(7); at > total {
					at = total
				}
			}
			sc.P["fail"] = at + 1
			sc.P["err"] = g.n(5)
		}
	}
	if total > 6000 && (sc.P["chunk"] == 1 || sc.P["chunk"] == 3) {
		sc.P["chunk"] = 200
	}
	if total > 6000 && sc.Net.SegP > 0 && sc.Net.SegMax < 16 {
		sc.Net.SegMax = 200
	}
	if total > 6000 {
		sc.Net.Window = 65536
	}
	if big {
		sc.P["chunk"], sc.P["odd"] = 0, g.pick(0, 0, 2)
		sc.Net.Window, sc.Net.SegP, sc.Net.SegMax, sc.Net.ShortP = 65536, 0, 0, 0
	}
	g.exec(60000 + 20*total)
}

// ---------------------------------------------------------------------------------------------------
// Sending messages on a connection.

// failConn is a connection on which writing fails for good at some byte.
type failConn struct {
	*simnet.Conn
	left   int
	err    error
	broken bool
	e      *env
	locked bool
	wl     simrt.WaitList
	times  int // how often it fails when it is not for good (0: for good)
}

func (c *failConn) Write(b []byte) (int, error) {
	for c.locked { // like net.Conn: concurrent writes do not interleave
		c.wl.Wait("write lock")
		c.wl.Remove()
	}
	c.locked = true
	defer func() { c.locked = false; c.wl.WakeAll() }()
	if c.broken {
		simrt.Yield()
		return 0, c.err
	}
	if c.left < 0 || len(b) <= c.left {
		if c.left >= 0 {
			c.left -= len(b)
		}
		return c.Conn.Write(b)
	}
	n := c.left
	if c.times > 0 {
		c.e.w.Fault("temporary-write-error")
		if c.times--; c.times == 0 {
			c.left = -1
		} else {
			c.left = len(b) / 3
		}
	} else {
		c.broken = true
		c.e.w.Fault("partial-write")
	}
	if n > 0 {
		if k, err := c.Conn.Write(b[:n]); err != nil {
			return k, err
		}
	}
	simrt.Yield()
	return n, c.err
}

type sendRec struct {
	who, i int
	b      []byte
	done   bool
	err    error
}

func (e *env) sendMain() {
	e.w = simnet.W()
	e.w.Cfg = e.sc.Net
	sys, peer := e.w.Pair()
	conn := pg.NewConn(sys)
	if k := e.sc.P["failat"]; k > 0 {
		conn = pg.NewConn(&failConn{Conn: sys, left: k - 1, e: e,
			err: []error{os.NewSyscallError("write", syscall.ECONNRESET), os.NewSyscallError("write", syscall.EPIPE), os.ErrDeadlineExceeded, io.ErrShortWrite,
				os.NewSyscallError("write", syscall.ENOBUFS)}[e.sc.P["err"]%5]})
	}
	flaky := e.sc.P["flaky"] > 0
	if k := e.sc.P["flaky"]; flaky {
		conn = pg.NewConn(&failConn{Conn: sys, left: k - 1, e: e, times: 1 + e.sc.P["times"],
			err: []error{&net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EAGAIN)},
				os.NewSyscallError("write", syscall.EINTR), os.ErrDeadlineExceeded, os.NewSyscallError("write", syscall.ENOBUFS), io.ErrShortWrite}[e.sc.P["err"]%6]})
	}
	// exact compares what one call put on the connection with its message; there is no other call meanwhile.
	exact := func(r *sendRec, start int) {
		if got := sys.Sent()[start:]; flaky && r.err == nil && !bytes.Equal(got, r.b) {
			e.fail("C24", "false-success", "sender %d was told that its message %d (%s) was sent, but the connection accepted %s from that call", r.who, r.i, short(r.b), short(got))
		}
	}
	var recs []*sendRec
	closed := false
	for i, t := range e.sc.Ops {
		i, t := i, t
		simrt.GoNamed(fmt.Sprintf("api:sender%d", i), func() {
			n := 0
			for _, st := range t {
				switch st.Op {
				case "spin":
					spin(st.N)
				case "sleep":
					simrt.Sleep(time.Duration(st.N) * time.Microsecond)
				case "send":
					for _, m := range st.M {
						b := m.Bytes()
						r := &sendRec{who: i, i: n, b: b}
						n++
						msg := e.message(b, m.K == "startup")
						recs = append(recs, r)
						start := len(sys.Sent())
						r.err = conn.SendMessage(msg)
						r.done = true
						exact(r, start)
						e.hit("sent")
					}
				case "byte":
					r := &sendRec{who: i, i: n, b: []byte{0xff, byte(i)}[:1]}
					n++
					recs = append(recs, r)
					start := len(sys.Sent())
					r.err = conn.SendByte(0xff)
					r.done = true
					exact(r, start)
				case "close":
					closed = true
					e.w.Fault("close-while-sending")
					conn.Close()
				case "deadline":
					e.w.Fault("write-deadline")
					sys.SetWriteDeadline(simrt.Now().Add(time.Duration(st.N) * time.Microsecond))
				}
			}
		})
	}
	simrt.Spawn("peer", func() {
		left := e.sc.P["peerreads"]
		if left == 0 {
			left = 1 << 40
		}
		buf := make([]byte, 4096)
		for left > 0 {
			b := buf
			if len(b) > left {
				b = b[:left]
			}
			n, err := peer.Read(b)
			if err != nil {
				return
			}
			left -= n
		}
		switch e.sc.Note {
		case "close":
			peer.Close()
			e.w.Fault("peer-close")
		case "rst":
			peer.Abort()
			e.w.Fault("peer-reset")
		}
	})
	simrt.Quiesce(time.Second)
	if !flaky {
		e.checkSent(recs, sys)
	}
	if closed {
		for _, r := range recs {
			if !r.done {
				e.fail("C24", "stuck-send", "the connection is closed but sender %d's message %d is still being sent: %v", r.who, r.i, stuck())
			}
		}
	}
}

func (e *env) message(b []byte, startup bool) pg.Message {
	if startup {
		m, err := pg.ParseStartupMessage(pg.StartupFrame(b))
		if err != nil || !bytes.Equal(m.Frame().Bytes(), b) {
			simrt.HarnessBug("cannot build a startup message: %v", err)
		}
		return m
	}
	f := pg.StandardFrame(b)
	var m pg.Message
	var err error
	switch b[0] {
	case 'Q':
		m, err = pg.ParseQueryMessage(f)
	case 'D':
		m, err = pg.ParseDataRowMessage(f)
	case 'T':
		m, err = pg.ParseRowDescriptionMessage(f)
	case 'C':
		m, err = pg.ParseCommandCompleteMessage(f)
	case 'N':
		m, err = pg.ParseNoticeResponseMessage(f)
	default:
		m, err = pg.ParseGenericMessage(f)
	}
	if err != nil || !bytes.Equal(m.Frame().Bytes(), b) {
		m, err = pg.ParseGenericMessage(f)
	}
	if err != nil {
		simrt.HarnessBug("cannot build a message: %v", err)
	}
	return m
}

// checkSent decomposes what the connection accepted into the messages that were sent.
func (e *env) checkSent(recs []*sendRec, sys *simnet.Conn) {
	log := sys.Sent()
	used := map[*sendRec]bool{}
	lastOf := map[int]int{}
	off := 0
	for off < len(log) {
		var hit *sendRec
		for _, r := range recs {
			if !used[r] && bytes.HasPrefix(log[off:], r.b) && (hit == nil || better(r, hit)) {
				hit = r
			}
		}
		if hit == nil {
			for _, r := range recs {
				// the start of a message whose sending failed or has not finished, at the very end of the stream
				if !used[r] && (!r.done || r.err != nil) && bytes.HasPrefix(r.b, log[off:]) {
					hit = r
				}
			}
			if hit == nil {
				e.fail("C24", "torn", "after %d bytes the connection carries %s, which is no message that was sent (and had not been sent already): messages were interleaved, altered, repeated or cut short",
					off, short(log[off:]))
				return
			}
			off = len(log)
			break
		}
		used[hit] = true
		off += len(hit.b)
		same := 0
		for _, r := range recs {
			if bytes.Equal(r.b, hit.b) {
				same++
			}
		}
		if same > 1 {
			continue // which of them it is cannot be told
		}
		if l, ok := lastOf[hit.who]; ok && hit.i < l {
			e.fail("C24", "order", "message %d of sender %d is on the connection after its message %d", hit.i, hit.who, l)
			return
		}
		lastOf[hit.who] = hit.i
	}
	for _, r := range recs {
		if r.done && r.err == nil && !used[r] {
			e.fail("C24", "false-success", "sender %d was told that its message %d (%s) was sent, but the connection did not accept all of it", r.who, r.i, short(r.b))
			return
		}
		if r.done && r.err != nil {
			e.hit("send-failed")
		}
	}
}

// better prefers, among equal messages, one that must be there.
func better(a, b *sendRec) bool {
	if (a.done && a.err == nil) != (b.done && b.err == nil) {
		return a.done && a.err == nil
	}
	return a.i < b.i
}

func (g *gen) sending() {
	sc := g.sc
	sc.Kind = "send"
	g.net(1)
	sc.Net.Window = g.pick(65536, 2000, 100, 17)
	total := 0
	senders := g.in(1, 4)
	for s := 0; s < senders; s++ {
		var ops []Step
		for k := g.in(1, 4); k > 0; k-- {
			switch g.n(7) {
			case 0:
				ops = append(ops, Step{Op: "spin", N: g.pick(1, 7, 40)})
			case 1:
				ops = append(ops, Step{Op: "byte"})
				total++
			case 2:
				if s == 0 && len(ops) == 0 {
					b := startupBytes(196608, g.params("app", s), true, nil)
					ops = append(ops, Step{Op: "send", M: []Msg{{K: "startup", Raw: b}}})
					total += len(b)
					continue
				}
				fallthrough
			default:
				ms := g.msgs(backForms[:len(backForms)-1], g.in(1, 4), g.pick(0, 200, 5000))
				for i := range ms {
					if ms[i].T == 0 || ms[i].T == 0xff {
						ms[i].T = 'd'
					}
					total += len(ms[i].Bytes())
				}
				ops = append(ops, Step{Op: "send", M: ms})
			}
		}
		sc.Ops = append(sc.Ops, ops)
	}
	if g.p(400) {
		sc.Net.Window, sc.Net.SegP, sc.Net.SegMax, sc.Net.ShortP = 65536, 0, 0, 0
		for s := range sc.Ops {
			m := g.giant(backForms)
			total += len(m.Bytes())
			sc.Ops[s] = insertStep(g.rng, sc.Ops[s], Step{Op: "send", M: []Msg{m}})
		}
	}
	switch g.n(8) {
	case 7: // one sender at a time, so that what each call wrote is known
		sc.Ops = sc.Ops[:1]
		sc.P["flaky"] = 1 + g.n(total+1)
		if g.p(2) {
			sc.P["flaky"] = 1 + g.n(60)
		}
		sc.P["times"] = g.pick(0, 0, 1, 2)
		sc.P["err"] = g.n(6)
	case 0:
		sc.Ops = append(sc.Ops, []Step{{Op: "spin", N: g.pick(1, 10, 60, 200)}, {Op: "close"}})
	case 1:
		sc.Ops = append(sc.Ops, []Step{{Op: "sleep", N: g.pick(1, 100)}, {Op: "close"}})
		sc.P["peerreads"] = 1 + g.n(total+1)
	case 2:
		sc.Ops = append(sc.Ops, []Step{{Op: "spin", N: g.pick(1, 10, 60)}, {Op: "deadline", N: g.pick(0, 1, 300)}})
		sc.P["peerreads"] = 1 + g.n(total+1)
	case 3:
		sc.P["peerreads"] = 1 + g.n(total+1)
		sc.Note = g.str("close", "rst")
	case 4, 5:
		sc.P["failat"] = 1 + g.n(total+1)
		sc.P["err"] = g.n(5)
	}
	g.exec(60000)
}
