//go:build go1.21

package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/hired/gevulot/pkg/pgmeta"
	"github.com/hired/gevulot/zzsim/simnet"
	"github.com/hired/gevulot/zzsim/simrt"
)

// ---------------------------------------------------------------------------------------------------
// Reading metadata from a simulated PostgreSQL server that fails in every way a server and its connection can.

func init() {
	for _, kv := range os.Environ() {
		if k := strings.SplitN(kv, "=", 2)[0]; strings.HasPrefix(k, "PG") {
			os.Unsetenv(k)
		}
	}
}

const metaAddr = "127.0.0.3:5432"

type pgClass struct {
	oid, ns uint32
	name    string
	kind    string
}

type metaEnv struct {
	e         *env
	dbname    string
	ns        map[uint32]string
	nsOrder   []uint32
	classes   []pgClass
	plans     []Step
	conns     int
	ready     int // connections whose start-up has been completed
	faulty    bool
	undecided string // a query the emulated server cannot evaluate
	want      map[uint32]pgmeta.Table
	wants     []map[uint32]pgmeta.Table // every state the catalog has had
	r         *rng
	calls     []*distCall
}

func (e *env) metaMain() {
	e.w = simnet.W()
	e.w.Cfg = e.sc.Net
	m := &metaEnv{e: e, dbname: e.sc.Cfgs[0].DBName}
	m.catalog()
	if len(e.sc.Ops) > 0 {
		m.plans = e.sc.Ops[0]
	}
	for _, p := range m.plans {
		if p.Op != "" {
			m.faulty = true
		}
	}
	if k := e.sc.P["refuse"]; k > 0 {
		m.faulty = true
		var rules []simnet.DialRule
		for i := 0; i < k; i++ {
			rules = append(rules, simnet.DialRule{Kind: []string{"refuse", "unreachable", "blackhole"}[e.sc.P["dialkind"]%3]})
		}
		e.w.DialPlan(metaAddr, rules...)
	}
	ln, err := e.w.Listen("tcp", metaAddr, false)
	if err != nil {
		simrt.HarnessBug("emulated database: %v", err)
	}
	simrt.Spawn("database", func() {
		for {
			c, err := ln.AcceptConn()
			if err != nil {
				return
			}
			plan := Step{}
			if m.conns < len(m.plans) {
				plan = m.plans[m.conns]
			}
			m.conns++
			pc := &pgConn{m: m, c: c, plan: plan}
			simrt.Spawn(fmt.Sprintf("database:%d", m.conns), pc.serve)
		}
	})
	var insp *pgmeta.Inspector
	simrt.GoNamed("api:inspect", func() {
		c := m.begin("Inspect")
		i, err := pgmeta.Inspect(e.sc.Cfgs[0].URL)
		c.done = true
		if e.hit("meta-answer"); err != nil {
			e.hit("meta-error")
		}
		if m.undecided != "" {
			return
		}
		switch {
		case err == nil && i == nil:
			e.fail("C25", "no-inspector", "Inspect returned neither an inspector nor an error")
		case err == nil && m.ready == 0:
			e.fail("C25", "false-success", "Inspect reported success although no connection to the database was ever established (%d attempts)", m.conns)
		case err != nil && !m.faulty && e.sc.P["nossl"] == 0:
			e.fail("C25", "spurious-error", "Inspect failed on a healthy database: %v", err)
		case err == nil && e.sc.P["nossl"] != 0:
			e.fail("C25", "false-success", "Inspect reported success although the server refused the required encryption")
		}
		insp = i
		if err != nil {
			insp = nil
		}
	})
	simrt.Quiesce(5000 * time.Second)
	m.stuck("Inspect")
	if insp == nil {
		return
	}
	for i, t := range e.sc.Ops {
		if i == 0 {
			continue
		}
		t := t
		simrt.GoNamed(fmt.Sprintf("api:%d", i), func() {
			for _, st := range t {
				switch st.Op {
				case "name":
					m.name(insp)
				case "tables":
					m.tables(insp)
				case "alter":
					m.alter()
				case "spin":
					spin(st.N)
				}
			}
		})
	}
	simrt.Quiesce(5000 * time.Second)
	m.stuck("the calls")
	simrt.GoNamed("api:close", func() {
		c := m.begin("Close")
		insp.Close()
		c.done = true
		n, err := insp.DatabaseName()
		if err == nil && n != m.dbname {
			e.fail("C25", "wrong-name", "DatabaseName on a closed inspector returned %q without an error", n)
		}
		t, err := insp.OIDTableMapping()
		if err == nil {
			m.check(t)
		}
	})
	simrt.Quiesce(5000 * time.Second)
	m.stuck("Close")
}

func (m *metaEnv) begin(what string) *distCall {
	c := &distCall{what: what}
	m.calls = append(m.calls, c)
	return c
}

func (m *metaEnv) stuck(when string) {
	for _, c := range m.calls {
		if !c.done && m.undecided == "" {
			m.e.fail("C25", "stuck", "%s does not return although its connection is dead or answered: %v", c.what, stuck())
			return
		}
	}
}

func (m *metaEnv) name(i *pgmeta.Inspector) {
	c := m.begin("DatabaseName")
	n, err := i.DatabaseName()
	c.done = true
	m.e.hit("meta-answer")
	if err != nil {
		m.e.hit("meta-error")
	}
	if m.undecided != "" {
		return
	}
	if err == nil && n != m.dbname {
		m.e.fail("C25", "wrong-name", "DatabaseName returned %q without an error; the database is %q", n, m.dbname)
	}
	if err != nil && !m.faulty {
		m.e.fail("C25", "spurious-error", "DatabaseName failed on a healthy database: %v", err)
	}
}

func (m *metaEnv) tables(i *pgmeta.Inspector) {
	c := m.begin("OIDTableMapping")
	v := len(m.wants) - 1
	t, err := i.OIDTableMapping()
	c.done = true
	m.e.hit("meta-answer")
	if err != nil {
		m.e.hit("meta-error")
		if !m.faulty && m.undecided == "" {
			m.e.fail("C25", "spurious-error", "OIDTableMapping failed on a healthy database: %v", err)
		}
		return
	}
	got := map[uint32]pgmeta.Table{}
	for k, v := range t {
		got[uint32(k)] = v
	}
	m.checkMap(got, m.wants[v:])
}

func (m *metaEnv) check(t any) { // a closed inspector has nothing to say
	m.e.fail("C25", "closed", "OIDTableMapping on a closed inspector returned %v without an error", t)
}

// checkMap judges an answer by the states the catalog had during the call: what was there all the time must be
// in it, and nothing that never was.
func (m *metaEnv) checkMap(got map[uint32]pgmeta.Table, states []map[uint32]pgmeta.Table) {
	if m.undecided != "" {
		return
	}
	want := states[len(states)-1]
	var bad []string
	for _, o := range sortedOids(want) {
		always, known := true, false
		for _, s := range states {
			w, ok := s[o]
			always = always && ok
			known = known || ok && w == got[o]
		}
		if g, ok := got[o]; !ok && always {
			bad = append(bad, fmt.Sprintf("%d (%s.%s) is missing", o, want[o].Schema, want[o].Name))
		} else if ok && !known {
			bad = append(bad, fmt.Sprintf("%d is %s.%s instead of %s.%s", o, g.Schema, g.Name, want[o].Schema, want[o].Name))
		}
	}
	for _, o := range sortedOids(got) {
		if _, ok := want[o]; ok {
			continue
		}
		known := false
		for _, s := range states {
			w, ok := s[o]
			known = known || ok && w == got[o]
		}
		if !known {
			bad = append(bad, fmt.Sprintf("%d (%s.%s) is no user table", o, got[o].Schema, got[o].Name))
		}
	}
	if len(bad) > 0 {
		cls := "wrong-tables"
		if len(got) < len(want) {
			cls = "partial"
		}
		n := len(bad)
		if n > 3 {
			bad = append(bad[:3], "...")
		}
		m.e.fail("C25", cls, "OIDTableMapping returned %d of %d tables without an error, %d wrong: %s", len(got), len(want), n, strings.Join(bad, "; "))
	}
}

// userTables is the answer for the catalog as it is.
func (m *metaEnv) userTables() {
	m.want = map[uint32]pgmeta.Table{}
	for _, c := range m.classes {
		n := m.ns[c.ns]
		if n != "information_schema" && !strings.HasPrefix(n, "pg_") && strings.Contains("rmvpf", c.kind) {
			m.want[c.oid] = pgmeta.Table{Schema: n, Name: c.name}
		}
	}
	m.wants = append(m.wants, m.want)
}

// alter changes the catalog as somebody's DDL would.
func (m *metaEnv) alter() {
	r := m.r
	m.e.hit("meta-altered")
	m.classes = append([]pgClass{}, m.classes...)
	for k := 1 + r.n(3); k > 0; k-- {
		i := -1
		if len(m.classes) > 0 {
			i = r.n(len(m.classes))
		}
		switch op := r.n(5); {
		case i < 0 || op == 0: // CREATE TABLE
			top := uint32(16400)
			for _, c := range m.classes {
				if c.oid > top {
					top = c.oid
				}
			}
			m.classes = append(m.classes, pgClass{oid: top + 1, ns: 2200, kind: r.str("r", "v", "p"), name: fmt.Sprintf("new_%d", len(m.wants))})
		case op == 1: // DROP TABLE
			m.classes = append(m.classes[:i], m.classes[i+1:]...)
		case op == 2: // ALTER TABLE ... RENAME
			m.classes[i].name = fmt.Sprintf("renamed_%d", len(m.wants))
		case op == 3: // ALTER TABLE ... SET SCHEMA
			m.classes[i].ns = m.nsOrder[r.n(len(m.nsOrder))]
		case op == 4: // ALTER SCHEMA ... RENAME
			if o := m.nsOrder[r.n(len(m.nsOrder))]; o >= 2200 && o != 13000 && o != 99000 {
				m.ns[o] = fmt.Sprintf("schema_%d", len(m.wants))
			}
		}
	}
	m.userTables()
}

func sortedOids(m map[uint32]pgmeta.Table) []uint32 {
	var l []uint32
	for o := range m {
		l = append(l, o)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// uint32of picks one of the values, and mostly v.
func (r *rng) uint32of(vs []uint32, v uint32) uint32 {
	if r.p(3) {
		return vs[r.n(len(vs))]
	}
	return v
}

// catalog fills the system catalog.
func (m *metaEnv) catalog() {
	r := newRng(uint64(m.e.sc.P["catalog"]))
	m.ns = map[uint32]string{}
	add := func(o uint32, n string) { m.ns[o] = n; m.nsOrder = append(m.nsOrder, o) }
	add(11, "pg_catalog")
	add(99, "pg_toast")
	add(13000, "information_schema")
	add(2200, "public")
	extra := []string{"sales", "pgboss", "pga", "Ünicode schema", "pg", "information_schema2", "PG_upper", "a", "PUBLIC", "pgq_x", "temp_pg_"}
	for i, n := range extra {
		if r.p(3) {
			add(uint32(16384+i), n)
		}
	}
	if r.p(3) {
		add(99000, "pg_temp_3")
	}
	oid := uint32(r.pick(16500, 16500, 2147483000, 4294966000))
	for k := m.e.sc.P["tables"]; k > 0; k-- {
		ns := m.nsOrder[r.n(len(m.nsOrder))]
		if r.p(3) {
			ns = 2200
		}
		c := pgClass{oid: oid, ns: ns, kind: r.str("r", "r", "r", "v", "m", "p", "f", "i", "S", "c", "t", "I")}
		oid += uint32(1 + r.n(3))
		switch r.n(8) {
		case 0:
			c.name = "tab le's \"x\"" + strconv.Itoa(k)
		case 1:
			c.name = strings.Repeat("ü", 31)
		case 2:
			c.name = "users"
		case 3: // named as a schema is
			c.name = m.ns[r.uint32of(m.nsOrder, ns)]
		default:
			c.name = fmt.Sprintf("t_%d", k)
		}
		m.classes = append(m.classes, c)
	}
	m.r = r
	m.userTables()
}

// ---------------------------------------------------------------------------------------------------
// The emulated server's side of a connection.

type pgConn struct {
	m     *metaEnv
	c     *simnet.Conn
	plan  Step
	in    []byte
	sent  int
	msgs  int
	ended bool
	out   []byte
	query string
	args  []string
	fmts  []int16
	errd  bool
}

// put writes bytes, carrying out the plan of the connection at its byte.
func (p *pgConn) put(b []byte) bool {
	if p.ended {
		return false
	}
	switch p.plan.Op {
	case "cut", "rst", "stall", "vanish":
		if at := p.plan.N - p.sent; at <= len(b) {
			b = b[:at]
			p.flush(b)
			p.ended = true
			if p.plan.Chunk > 0 {
				p.m.e.w.Fault("stall")
				simrt.Sleep(time.Duration(p.plan.Chunk) * time.Millisecond)
			}
			p.m.e.w.Fault("connection-" + p.plan.Op)
			switch p.plan.Op {
			case "rst":
				p.c.Abort()
			case "vanish":
				p.c.Vanish()
			default:
				p.c.Close()
			}
			return false
		}
	}
	p.sent += len(b)
	return p.flush(b)
}

func (p *pgConn) flush(b []byte) bool {
	return len(b) == 0 || writeAll(p.c, b, p.m.e.sc.P["chunk"])
}

// msg sends one message; the plan may replace it by an error.
func (p *pgConn) msg(t byte, body []byte) bool {
	p.msgs++
	if (p.plan.Op == "error" || p.plan.Op == "fatal") && p.msgs == p.plan.N {
		sev := "ERROR"
		if p.plan.Op == "fatal" {
			sev = "FATAL"
		}
		p.m.e.w.Fault("error-response")
		p.put(frame('E', []byte("S"+sev+"\x00C"+p.plan.A+"\x00Mthe database does not feel well\x00\x00")))
		if p.plan.Op == "fatal" || p.query == "" {
			p.ended = true
			p.c.Close()
		} else {
			p.errd = true
		}
		return false
	}
	return p.put(frame(t, body))
}

func (p *pgConn) readyForQuery() {
	if !p.msg('Z', []byte{'I'}) && !p.ended {
		p.msg('Z', []byte{'I'})
	}
}

func (p *pgConn) need(n int) bool {
	buf := make([]byte, 4096)
	for len(p.in) < n {
		k, err := p.c.Read(buf)
		if err != nil {
			return false
		}
		p.in = append(p.in, buf[:k]...)
	}
	return true
}

func (p *pgConn) take(n int) []byte {
	b := p.in[:n]
	p.in = p.in[n:]
	return b
}

func (p *pgConn) packet() ([]byte, bool) {
	if !p.need(4) {
		return nil, false
	}
	n := int(binary.BigEndian.Uint32(p.in))
	if n < 4 || n > 1<<20 || !p.need(n) {
		return nil, false
	}
	return p.take(n)[4:], true
}

func (p *pgConn) message() (byte, []byte, bool) {
	if !p.need(5) {
		return 0, nil, false
	}
	n := int(binary.BigEndian.Uint32(p.in[1:]))
	if n < 4 || n > 1<<20 || !p.need(n+1) {
		return 0, nil, false
	}
	b := p.take(n + 1)
	return b[0], b[5:], true
}

func (p *pgConn) serve() {
	defer p.c.Close()
	b, ok := p.packet()
	if ok && len(b) == 4 && binary.BigEndian.Uint32(b) == 80877103 {
		if !p.put([]byte{'N'}) {
			return
		}
		b, ok = p.packet()
	}
	if !ok || len(b) < 4 {
		return
	}
	_, ps, good := parseStartup(append(i32(len(b)+4), b...))
	if !good {
		return
	}
	if db := effectiveDB(ps); db != p.m.dbname {
		p.put(frame('E', []byte("SFATAL\x00C3D000\x00Mdatabase \""+db+"\" does not exist\x00\x00")))
		return
	}
	switch p.m.e.sc.P["auth"] {
	case 1, 2:
		a := i32(3)
		if p.m.e.sc.P["auth"] == 2 {
			a = append(i32(5), 1, 2, 3, 4)
		}
		if !p.msg('R', a) {
			return
		}
		if t, _, ok := p.message(); !ok || t != 'p' {
			return
		}
	}
	for _, f := range [][]byte{frame('R', i32(0)), frame('S', []byte("server_version\x0011.5\x00")), frame('S', []byte("client_encoding\x00UTF8\x00")),
		frame('S', []byte("TimeZone\x00UTC\x00")), frame('K', append(i32(77), i32(4711)...))} {
		if !p.msg(f[0], f[5:]) {
			return
		}
	}
	if !p.msg('Z', []byte{'I'}) {
		return
	}
	p.m.ready++
	skip := false // until Sync, after an error in the extended protocol
	for !p.ended {
		t, b, ok := p.message()
		if !ok || t == 'X' {
			return
		}
		if skip && t != 'S' {
			continue
		}
		p.errd = false
		switch t {
		case 'Q':
			q, _ := cs(b)
			p.query = q
			p.rows(q, nil, true)
			p.readyForQuery()
		case 'P':
			_, n := cs(b)
			q, _ := cs(b[n:])
			p.query = q
			p.msg('1', nil)
		case 'B':
			p.bind(b)
			p.msg('2', nil)
		case 'D':
			if len(b) > 0 && b[0] == 'S' {
				k := strings.Count(p.query, "$")
				d := i16(k)
				for ; k > 0; k-- {
					d = append(d, i32(25)...)
				}
				if !p.msg('t', d) {
					break
				}
			}
			cols, _, why := p.m.eval(p.query, p.args, true)
			if why != "" {
				p.unsupported(why)
				break
			}
			p.msg('T', rowDesc(cols))
		case 'E':
			p.rows(p.query, p.args, false)
		case 'C':
			p.msg('3', nil)
		case 'S':
			skip = false
			p.errd = false
			p.readyForQuery()
			continue
		case 'H':
		default:
			p.unsupported(fmt.Sprintf("message %q", t))
		}
		if p.errd && t != 'Q' {
			skip = true
		}
	}
}

func (p *pgConn) bind(b []byte) {
	p.args = nil
	_, n := cs(b)
	_, k := cs(b[n:])
	b = b[n+k:]
	if len(b) < 2 {
		return
	}
	b = b[2+2*int(binary.BigEndian.Uint16(b)):]
	c := int(binary.BigEndian.Uint16(b))
	b = b[2:]
	for ; c > 0 && len(b) >= 4; c-- {
		l := int(int32(binary.BigEndian.Uint32(b)))
		b = b[4:]
		if l < 0 {
			l = 0
		}
		p.args = append(p.args, string(b[:l]))
		b = b[l:]
	}
}

func (p *pgConn) unsupported(why string) {
	p.m.undecided = why
	p.put(frame('E', []byte("SERROR\x00C0A000\x00Mthe emulated server does not support "+why+"\x00\x00")))
	p.errd = true
}

type column struct {
	name string
	oid  int
}

func rowDesc(cols []column) []byte {
	b := i16(len(cols))
	for _, c := range cols {
		b = append(b, append([]byte(c.name), 0)...)
		b = append(b, i32(0)...)
		b = append(b, i16(0)...)
		b = append(b, i32(c.oid)...)
		b = append(b, i16(-1)...)
		b = append(b, i32(-1)...)
		b = append(b, i16(0)...)
	}
	return b
}

// rows answers a query.
func (p *pgConn) rows(q string, args []string, desc bool) {
	cols, rows, why := p.m.eval(q, args, false)
	if why != "" {
		p.unsupported(why)
		return
	}
	if len(cols) == 0 {
		p.msg('I', nil)
		return
	}
	if desc && !p.msg('T', rowDesc(cols)) {
		return
	}
	for _, r := range rows {
		b := i16(len(r))
		for _, v := range r {
			b = append(b, i32(len(v))...)
			b = append(b, v...)
		}
		if !p.msg('D', b) {
			return
		}
	}
	p.msg('C', []byte(fmt.Sprintf("SELECT %d\x00", len(rows))))
}

// ---------------------------------------------------------------------------------------------------
// Just enough SQL to answer questions about pg_class and pg_namespace.

var sqlToken = regexp.MustCompile(`(?s)^(?:\s+|--[^\n]*)|^(?:'(?:[^']|'')*'|"[^"]*"|\$\d+|[A-Za-z_][A-Za-z0-9_]*|\d+|<>|!=|!~|::|[(),.;=~*])`)

type sqlParser struct {
	toks []string
	pos  int
	why  string
	m    *metaEnv
	args []string
}

type sqlRow map[string]map[string]string // alias -> column -> value

type sqlVal func(r sqlRow) string
type sqlCond func(r sqlRow) bool

func (s *sqlParser) bad(f string, a ...any) {
	if s.why == "" {
		s.why = fmt.Sprintf(f, a...)
	}
}

func (s *sqlParser) peek() string {
	if s.pos < len(s.toks) {
		return s.toks[s.pos]
	}
	return ""
}

func (s *sqlParser) next() string { t := s.peek(); s.pos++; return t }

func (s *sqlParser) is(words ...string) bool {
	for i, w := range words {
		if s.pos+i >= len(s.toks) || !strings.EqualFold(s.toks[s.pos+i], w) {
			return false
		}
	}
	s.pos += len(words)
	return true
}

func (s *sqlParser) want(w string) {
	if !s.is(w) {
		s.bad("%q where %q is expected", s.peek(), w)
	}
}

func sqlIdent(t string) string {
	if strings.HasPrefix(t, `"`) {
		return strings.Trim(t, `"`)
	}
	return strings.ToLower(t)
}

var sqlWord = regexp.MustCompile(`^(?:[A-Za-z_][A-Za-z0-9_]*|"[^"]*")$`)

// eval answers a query.
func (m *metaEnv) eval(q string, args []string, describe bool) (cols []column, rows [][]string, why string) {
	s := &sqlParser{m: m, args: args}
	if describe && args == nil {
		s.args = make([]string, 20)
	}
	for rest := q; rest != ""; {
		t := sqlToken.FindString(rest)
		if t == "" {
			return nil, nil, "a query that contains " + strconv.Quote(rest[:1])
		}
		rest = rest[len(t):]
		if strings.TrimSpace(t) != "" && !strings.HasPrefix(t, "--") {
			s.toks = append(s.toks, t)
		}
	}
	for len(s.toks) > 0 && s.toks[len(s.toks)-1] == ";" {
		s.toks = s.toks[:len(s.toks)-1]
	}
	if len(s.toks) == 0 {
		return nil, nil, ""
	}
	s.want("SELECT")
	distinct := s.is("DISTINCT")
	type item struct {
		c column
		v sqlVal
	}
	var items []item
	for s.why == "" {
		start := s.pos
		v := s.value()
		last := s.toks[s.pos-1]
		c := column{sqlIdent(last), 19}
		if last == ")" {
			c.name = sqlIdent(s.toks[start])
		}
		if c.name == "oid" || c.name == "relnamespace" {
			c.oid = 26
		} else if strings.HasPrefix(last, "'") {
			c.name, c.oid = "?column?", 25
		}
		for s.is("::") {
			switch ty := strings.ToLower(s.next()); ty {
			case "oid":
				c.oid = 26
			case "text", "varchar":
				c.oid = 25
			case "int8", "bigint":
				c.oid = 20
			case "name", "regclass":
			default:
				s.bad("the type %q", ty)
			}
		}
		if s.is("AS") {
			c.name = sqlIdent(s.next())
		} else if t := s.peek(); t != "" && t != "," && !strings.EqualFold(t, "FROM") {
			s.bad("%q in a select list", t)
		}
		items = append(items, item{c, v})
		if !s.is(",") {
			break
		}
	}
	for _, it := range items {
		cols = append(cols, it.c)
	}
	all := []sqlRow{{}}
	if s.is("FROM") {
		for s.why == "" {
			tab := sqlIdent(s.next())
			if s.is(".") {
				if tab != "pg_catalog" {
					s.bad("the schema %q", tab)
				}
				tab = sqlIdent(s.next())
			}
			alias := tab
			s.is("AS")
			if t := s.peek(); sqlWord.MatchString(t) && !sqlKeyword(t) {
				alias = sqlIdent(s.next())
			}
			data := m.table(tab)
			if data == nil {
				s.bad("the table %q", tab)
				break
			}
			var prod []sqlRow
			for _, l := range all {
				for _, r := range data {
					n := sqlRow{alias: r}
					for k, v := range l {
						n[k] = v
					}
					prod = append(prod, n)
				}
			}
			all = prod
			if s.is("ON") {
				all = filter(all, s.or(), s)
			}
			if s.is(",") || s.is("JOIN") || s.is("INNER", "JOIN") || s.is("CROSS", "JOIN") {
				continue
			}
			break
		}
	}
	if s.is("WHERE") {
		all = filter(all, s.or(), s)
	}
	if s.is("ORDER", "BY") {
		for s.peek() != "" && !strings.EqualFold(s.peek(), "LIMIT") {
			s.next() // a map has no order
		}
	}
	limit := -1
	if s.is("LIMIT") {
		n, err := strconv.Atoi(s.next())
		if err != nil {
			s.bad("this LIMIT")
		}
		limit = n
	}
	if s.peek() != "" {
		s.bad("%q", s.peek())
	}
	if s.why != "" {
		return nil, nil, s.why
	}
	if describe {
		return cols, nil, ""
	}
	seen := map[string]bool{}
	for _, r := range all {
		var out []string
		for _, it := range items {
			out = append(out, it.v(r))
		}
		if s.why != "" {
			return nil, nil, s.why
		}
		if k := strings.Join(out, "\x00"); distinct && seen[k] {
			continue
		} else {
			seen[k] = true
		}
		if limit >= 0 && len(rows) >= limit {
			break
		}
		rows = append(rows, out)
	}
	return cols, rows, ""
}

func sqlKeyword(t string) bool {
	switch strings.ToUpper(t) {
	case "JOIN", "INNER", "CROSS", "LEFT", "RIGHT", "FULL", "ON", "WHERE", "ORDER", "LIMIT", "GROUP", "USING", "UNION", "NATURAL", "OFFSET", "HAVING":
		return true
	}
	return false
}

func filter(all []sqlRow, c sqlCond, s *sqlParser) []sqlRow {
	if s.why != "" {
		return nil
	}
	var out []sqlRow
	for _, r := range all {
		if c(r) {
			out = append(out, r)
		}
	}
	return out
}

func (m *metaEnv) table(n string) []map[string]string {
	var out []map[string]string
	switch n {
	case "pg_class":
		out = []map[string]string{}
		for _, c := range m.classes {
			out = append(out, map[string]string{"oid": fmt.Sprint(c.oid), "relname": c.name, "relkind": c.kind, "relnamespace": fmt.Sprint(c.ns)})
		}
	case "pg_namespace":
		for _, o := range m.nsOrder {
			out = append(out, map[string]string{"oid": fmt.Sprint(o), "nspname": m.ns[o]})
		}
	}
	return out
}

func (s *sqlParser) or() sqlCond {
	a := s.and()
	for s.why == "" && s.is("OR") {
		l, r := a, s.and()
		a = func(x sqlRow) bool { return l(x) || r(x) }
	}
	return a
}

func (s *sqlParser) and() sqlCond {
	a := s.not()
	for s.why == "" && s.is("AND") {
		l, r := a, s.not()
		a = func(x sqlRow) bool { return l(x) && r(x) }
	}
	return a
}

func (s *sqlParser) not() sqlCond {
	if s.is("NOT") {
		c := s.not()
		return func(x sqlRow) bool { return !c(x) }
	}
	if s.peek() == "(" {
		s.next()
		c := s.or()
		s.want(")")
		return c
	}
	v := s.value()
	neg := s.is("NOT")
	var c sqlCond
	switch op := strings.ToUpper(s.next()); op {
	case "IN":
		s.want("(")
		var vs []sqlVal
		for s.why == "" {
			vs = append(vs, s.value())
			if !s.is(",") {
				break
			}
		}
		s.want(")")
		c = func(x sqlRow) bool {
			for _, w := range vs {
				if v(x) == w(x) {
					return true
				}
			}
			return false
		}
	case "LIKE":
		w := s.value()
		c = func(x sqlRow) bool { return sqlLike(v(x), w(x)) }
	case "=":
		if s.is("ANY") {
			s.bad("ANY")
		}
		w := s.value()
		c = func(x sqlRow) bool { return v(x) == w(x) }
	case "<>", "!=":
		w := s.value()
		c = func(x sqlRow) bool { return v(x) != w(x) }
	case "~", "!~":
		w := s.value()
		c = func(x sqlRow) bool {
			re, err := regexp.Compile(w(x))
			if err != nil {
				s.bad("this pattern")
				return false
			}
			return re.MatchString(v(x)) == (op == "~")
		}
	default:
		s.bad("the operator %q", op)
		c = func(sqlRow) bool { return false }
	}
	if neg {
		return func(x sqlRow) bool { return !c(x) }
	}
	return c
}

func sqlLike(v, pat string) bool {
	var b strings.Builder
	b.WriteString("(?s)^")
	esc := false
	for _, r := range pat {
		switch {
		case esc:
			b.WriteString(regexp.QuoteMeta(string(r)))
			esc = false
		case r == '\\':
			esc = true
		case r == '%':
			b.WriteString(".*")
		case r == '_':
			b.WriteString(".")
		default:
			b.WriteString(regexp.QuoteMeta(string(r)))
		}
	}
	b.WriteString("$")
	re, err := likeCache[b.String()], error(nil)
	if re == nil {
		if re, err = regexp.Compile(b.String()); err != nil {
			return false
		}
		likeCache[b.String()] = re
	}
	return re.MatchString(v)
}

var likeCache = map[string]*regexp.Regexp{}

func (s *sqlParser) value() sqlVal {
	t := s.next()
	switch {
	case t == "":
		s.bad("a query that ends early")
	case strings.HasPrefix(t, "'"):
		lit := strings.ReplaceAll(t[1:len(t)-1], "''", "'")
		return func(sqlRow) string { return lit }
	case t[0] >= '0' && t[0] <= '9':
		return func(sqlRow) string { return t }
	case t[0] == '$':
		n, _ := strconv.Atoi(t[1:])
		if n < 1 || n > len(s.args) {
			s.bad("the parameter %s", t)
			break
		}
		v := s.args[n-1]
		return func(sqlRow) string { return v }
	case sqlWord.MatchString(t):
		id := sqlIdent(t)
		if s.is("(") {
			switch id {
			case "current_database":
				s.want(")")
				db := s.m.dbname
				return func(sqlRow) string { return db }
			}
			s.bad("the function %q", id)
			break
		}
		if s.is(".") {
			if c := sqlIdent(s.next()); c == "current_database" && s.is("(", ")") {
				db := s.m.dbname
				return func(sqlRow) string { return db }
			} else {
				return func(x sqlRow) string {
					v, ok := x[id][c]
					if !ok {
						s.bad("the column %s.%s", id, c)
					}
					return v
				}
			}
		}
		if id == "current_catalog" {
			db := s.m.dbname
			return func(sqlRow) string { return db }
		}
		return func(x sqlRow) string {
			n, out := 0, ""
			for _, tab := range x {
				if v, ok := tab[id]; ok {
					n, out = n+1, v
				}
			}
			if n != 1 {
				s.bad("the column %s", id)
			}
			return out
		}
	default:
		s.bad("%q", t)
	}
	return func(sqlRow) string { return "" }
}

// ---------------------------------------------------------------------------------------------------

func (g *gen) metadata() {
	sc := g.sc
	sc.Kind = "pgmeta"
	g.net(1)
	if sc.Net.LatMax > 500 {
		sc.Net.LatMax = 500
	}
	sc.P["tables"] = g.pick(0, 1, 3, 8, 8, 20, 60)
	if g.p(60) {
		sc.P["tables"] = g.pick(150, 300, 1100, 2500)
		if g.p(15) {
			sc.P["tables"] = g.pick(5100, 11000, 33000, 66000)
		}
		sc.Net.SegP, sc.Net.ShortP, sc.Net.Window = 0, 0, 65536
	}
	sc.P["catalog"] = g.n(1 << 20)
	sc.P["auth"] = g.pick(0, 0, 0, 1, 2)
	name := g.str("app", "app", "gevulot_test", "My DB", "ünï", " app", "app ", "App")
	dsn := ""
	ssl := "disable"
	if g.p(12) {
		ssl = "require"
		sc.P["nossl"] = 1
	}
	if g.p(3) {
		dsn = fmt.Sprintf("host=127.0.0.3 port=5432 user=u password=x dbname='%s' sslmode=%s", name, ssl)
	} else {
		esc := &bytes.Buffer{}
		for _, c := range []byte(name) {
			if c > 127 || c <= ' ' {
				fmt.Fprintf(esc, "%%%02X", c)
			} else {
				esc.WriteByte(c)
			}
		}
		dsn = fmt.Sprintf("postgres://u:x@127.0.0.3:5432/%s?sslmode=%s", esc, ssl)
	}
	sc.Cfgs = []Cfg{{DBName: name, URL: dsn}}
	// what happens to the first connections
	var plans []Step
	if !g.p(4) {
		for k := g.in(1, 4); k > 0; k-- {
			p := Step{}
			switch g.n(6) {
			case 0:
			case 1, 2:
				p.Op, p.N = g.str("cut", "rst", "stall", "vanish"), g.n(g.pick(30, 200, 400, 1200, 5000))
				if p.Op == "stall" || g.p(4) {
					p.Chunk = g.pick(1, 3000, 400000)
				}
			case 3, 4:
				p.Op, p.N = g.str("error", "error", "fatal"), 1+g.n(g.pick(3, 10, 14, 25, 80))
				p.A = g.str("57P01", "57P01", "57P03", "57P02", "53300", "57014", "08006", "42501", "42P01", "XX000", "02000", "55P03")
			case 5:
				p.Op, p.N = "cut", 0
			}
			plans = append(plans, p)
		}
	}
	sc.Ops = append(sc.Ops, plans)
	if g.p(8) {
		sc.P["refuse"] = g.in(1, 4)
		sc.P["dialkind"] = g.n(3)
	}
	sc.P["chunk"] = g.pick(0, 0, 0, 1, 13, 100)
	if sc.P["chunk"] == 1 && sc.P["tables"] > 20 {
		sc.P["chunk"] = 50
	}
	if sc.P["tables"] > 100 {
		sc.P["chunk"] = 0
	}
	for t := g.pick(1, 1, 1, 2, 3); t > 0; t-- {
		var ops []Step
		for k := g.in(1, 3); k > 0; k-- {
			ops = append(ops, Step{Op: g.str("name", "tables", "tables")})
			if g.p(4) {
				ops = append(ops, Step{Op: "alter"})
			}
		}
		sc.Ops = append(sc.Ops, ops)
	}
	g.exec(100000)
	sc.MaxSteps += 3000 * sc.P["tables"]
}
