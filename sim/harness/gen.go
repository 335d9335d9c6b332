//go:build go1.21

package harness

import (
	"fmt"
	"net/url"
	"strings"

	"github.com/hired/gevulot/zzsim/simnet"
)

// Gen makes the scenario with the given number for a property.
func Gen(prop string, seed uint64) *Scenario {
	r := newRng(seed ^ hashStr(prop))
	sc := &Scenario{Prop: prop, Kind: "proxy", P: map[string]int{}}
	g := &gen{rng: r, sc: sc}
	switch prop {
	case "C01", "C02":
		g.relayScenario()
	case "C03":
		g.hangupDelivery()
	case "C04":
		g.stallScenario()
	case "C05":
		g.hangupScenario()
	case "C06":
		g.isolation()
	case "C07":
		g.hostile()
	case "C08":
		g.admission()
	case "C09":
		g.ssl()
	case "C10":
		g.dialFailure()
	case "C11":
		g.closing()
	case "C12":
		g.calls()
	case "C13":
		g.listenerChanges()
	case "C14":
		g.sessionsAcrossChanges()
	case "C15":
		g.consistentConfig()
	case "C16":
		g.acceptErrors()
	case "C17", "C18", "C19":
		g.distributor()
	case "C20":
		g.event()
	case "C21":
		g.fileEdits()
	case "C22":
		g.badFiles()
	case "C23":
		g.framing()
	case "C24":
		g.sending()
	case "C25":
		g.metadata()
	case "C28":
		g.heldBack()
	default:
		return nil
	}
	if sc.Kind != "proxy" || g.p(7) {
		g.idle()
	}
	if sc.Kind == "proxy" && sc.Boot != "cli" && g.p(4) {
		g.addresses()
	}
	if sc.Kind == "proxy" && strings.Contains("C05 C06 C07 C10 C11 C16", sc.Prop) {
		g.vanish()
	}
	return sc
}

// addresses writes the addresses of listeners and databases in other ways.
func (g *gen) addresses() {
	sc := g.sc
	move := func(old, to string) {
		for i := range sc.Cfgs {
			if c := &sc.Cfgs[i]; c.Listen == old {
				c.Listen = to
			} else if c.DBAddr == old && c.URL == "" {
				c.DBAddr = to
			}
		}
		for i := range sc.Ctl {
			if st := &sc.Ctl[i]; st.A == old {
				st.A = to
			} else if string(st.B) == old {
				st.B = []byte(to)
			}
		}
	}
	urls := false
	for _, c := range sc.Cfgs {
		urls = urls || c.URL != ""
	}
	if g.p(2) {
		move(listenA, g.str("[::1]:5000", "localhost:5000"))
	}
	if !urls && g.p(2) {
		move(dbA, g.str("[::1]:5432", "[::1]:5432", "localhost:5432"))
	}
	for i := range sc.Cfgs {
		c := &sc.Cfgs[i]
		plain := c.DBName != ""
		for _, b := range []byte(c.DBName) {
			plain = plain && (b >= 'a' && b <= 'z' || b >= '0' && b <= '9')
		}
		k := strings.LastIndexByte(c.DBAddr, ':')
		if c.URL != "" || c.Bad || !plain || k < 0 {
			continue
		}
		host, port := c.DBAddr[:k], c.DBAddr[k+1:]
		switch g.n(7) {
		case 0:
			c.URL = "postgresql://proxy:s%40cr%3At@" + c.DBAddr + "/" + c.DBName
		case 1:
			c.URL = "postgres://" + c.DBAddr + "/" + c.DBName + "?application_name=gevulot&sslmode=disable"
		case 2:
			if port == "5432" {
				c.URL = "postgres://proxy@" + host + "/" + c.DBName
			}
		case 3:
			c.URL = "postgres://" + c.DBName + "@" + c.DBAddr
		case 4:
			c.URL = "postgres:///" + c.DBName + "?host=" + url.QueryEscape(strings.Trim(host, "[]")) + "&port=" + port
		case 5:
			c.URL = fmt.Sprintf("postgres://proxy@%s/%%%02X%s", c.DBAddr, c.DBName[0], c.DBName[1:])
		case 6:
			if host == "localhost" && port == "5432" {
				c.URL = "postgres:///" + c.DBName
			}
		}
	}
}

// vanish lets hosts disappear without a word where connections were to be reset.
func (g *gen) vanish() {
	if !g.p(4) {
		return
	}
	n := 0
	turn := func(op *string) {
		if *op == "rst" && !g.p(3) || *op == "close" && g.p(4) {
			*op = "vanish"
			n++
		}
	}
	for i := range g.sc.Clients {
		c := &g.sc.Clients[i]
		turn(&c.EndOp)
		for j := range c.Steps {
			turn(&c.Steps[j].Op)
		}
		for j := range c.DB {
			turn(&c.DB[j].Op)
		}
	}
	if n > 0 {
		g.sc.P["patience"] += 1500
	}
}

// idle makes someone do nothing for a long (simulated) time.
func (g *gen) idle() {
	sc := g.sc
	secs := g.pick(40, 70, 130, 400, 700, 2000, 4000, 90000)
	st := Step{Op: "sleep", N: secs * 1000000}
	if sc.Kind != "proxy" {
		if sc.Kind == "dist" && g.p(7) {
			k := g.n(len(sc.Ops))
			sc.Ops[k] = append(sc.Ops[k][:1:1], insertStep(g.rng, sc.Ops[k][1:], st)...)
			sc.P["patience"] = 2*secs + 200
		}
		return
	}
	sc.P["patience"] = 2*secs + 200
	if len(sc.Clients) > 0 && !g.p(4) {
		c := &sc.Clients[g.n(len(sc.Clients))]
		if g.p(2) {
			c.Steps = insertStep(g.rng, c.Steps, st)
		} else {
			c.DB = insertStep(g.rng, c.DB, st)
		}
	} else if n := len(sc.Ctl); n > 1 {
		k := 0 // not before the proxy runs: clients do not wait for it that long
		for i, s := range sc.Ctl {
			if s.Op == "config" || s.Op == "boot" {
				k = i + 1
				break
			}
		}
		if k == 0 {
			return
		}
		k = g.in(k, n)
		sc.Ctl = append(sc.Ctl[:k:k], append([]Step{st}, sc.Ctl[k:]...)...)
	}
}

func hashStr(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

type gen struct {
	*rng
	sc *Scenario
}

// exec chooses the scheduling strategy.
func (g *gen) exec(maxSteps int) {
	sc := g.sc
	switch g.n(8) {
	case 0, 1, 2:
		sc.Strat, sc.Mean = 1, g.pick(1, 1, 2, 3, 8, 30)
	case 3, 4, 5:
		sc.Strat, sc.Depth, sc.Horizon = 2, g.in(0, 6), g.pick(150, 600, 2500, 8000)
	default:
		sc.Strat, sc.Mean, sc.StallP, sc.Lazy = 3, g.pick(1, 3, 20), g.pick(15, 60, 250), g.p(2)
	}
	sc.Fine = g.p(4)
	sc.MaxSteps = 4 * maxSteps
	sc.Debug = g.p(6)
}

// net chooses the network's behaviour.
func (g *gen) net(level int) {
	n := simnet.Config{Window: g.pick(65536, 65536, 8192, 1500, 300)}
	if level > 0 && g.p(2) {
		n.SegP, n.SegMax = g.pick(1, 2, 6), g.pick(1, 3, 16, 200)
	}
	if g.p(2) {
		n.LatMax, n.LatP = g.pick(20, 500, 20000), g.pick(1, 3)
	}
	if g.p(2) {
		n.ShortP = g.pick(1, 2, 5)
	}
	if g.p(2) {
		n.DialMax = g.pick(50, 3000, 60000)
	}
	g.sc.Net = n
}

const (
	listenA = "127.0.0.1:5000"
	dbA     = "127.0.0.2:5432"
	nameA   = "app"
)

func (g *gen) oneCfg() {
	g.sc.Cfgs = []Cfg{{Listen: listenA, DBName: g.str(nameA, nameA, "x", "Customer-DB 1"), DBAddr: dbA}}
	if c := &g.sc.Cfgs[0]; c.DBName == "Customer-DB 1" {
		c.URL = "postgres://proxy@" + dbA + "/Customer-DB%201"
	}
}

// params builds the startup parameters of client i for database db.
func (g *gen) params(db string, i int) []Param {
	ps := []Param{{"user", g.str("u", "alice", "app", "very_long_user_name_0123456789")}, {"database", db}, {tagParam, fmt.Sprintf("c%d", i)}}
	for _, x := range []Param{{"client_encoding", "UTF8"}, {"options", ""}, {"options", "-c geqo=off"}, {"DateStyle", "ISO, MDY"}, {"Database", "other"},
		{"replication", g.str("false", "off", "0", "database", "database")}, {"database_", "zzz"}, {"TimeZone", "UTC"},
		{"lc_messages", g.str("psql", "caf\xe9", "\xff\xfe\x80", "ünï", " two  blanks ", "a\r\nb", "")}, {"x\xe9", "\xc3"}, {"APPLICATION_NAME", "Upper"}} {
		if g.p(4) {
			ps = append(ps, x)
		}
	}
	for k := len(ps) - 1; k > 0; k-- {
		j := g.n(k + 1)
		ps[k], ps[j] = ps[j], ps[k]
	}
	return ps
}

func (g *gen) chunk() int { return g.pick(0, 0, 0, -1, 1, 7, 100) }

type dialogue struct {
	rounds, maxC, maxD, big int
	wait                    bool // the client sometimes waits for answers
	spin                    bool
}

// client makes a normal client for configuration k.
func (g *gen) client(k int, d dialogue) Client {
	i := len(g.sc.Clients)
	c := Client{Cfg: k, Params: g.params(g.sc.Cfgs[k].DBName, i)}
	c.SSL = g.pick(0, 0, 0, 1, 1, 2)
	c.Pipeline = g.p(3)
	c.Chunk = g.pick(0, 0, 0, 1, 5)
	c.Delay = g.pick(0, 0, 10, 300, 5000, 40000)
	c.Steps, c.DB = g.dialogue(d)
	if g.p(3) {
		c.Early = g.in(1, 2)
	}
	return c
}

func (g *gen) dialogue(d dialogue) (cs, ds []Step) {
	nc, nd := 0, 0
	if g.p(3) && d.maxD > 0 {
		b := g.in(1, d.maxD)
		ds = append(ds, Step{Op: "send", M: g.msgs(backForms, b, d.big), Chunk: g.chunk()})
		nd += b
	}
	for j := 0; j < d.rounds; j++ {
		if a := g.n(d.maxC + 1); a > 0 {
			cs = append(cs, Step{Op: "send", M: g.msgs(frontForms, a, d.big), Chunk: g.chunk()})
			nc += a
		}
		if !g.p(4) {
			ds = append(ds, Step{Op: "recv", N: nc})
		}
		if b := g.n(d.maxD + 1); b > 0 {
			ds = append(ds, Step{Op: "send", M: g.msgs(backForms, b, d.big), Chunk: g.chunk()})
			nd += b
		}
		if d.wait && g.p(2) {
			cs = append(cs, Step{Op: "recv", N: nd})
		}
		if d.spin && g.p(3) {
			cs = append(cs, Step{Op: "spin", N: g.in(1, 40)})
		}
		if g.p(6) {
			cs = append(cs, Step{Op: "sleep", N: g.in(1, 20000)})
		}
		if g.p(6) {
			ds = append(ds, Step{Op: "sleep", N: g.in(1, 20000)})
		}
		if g.p(10) {
			cs = append(cs, Step{Op: "partition", N: g.in(100, 50000)})
		}
		if g.p(10) {
			ds = append(ds, Step{Op: "partition", N: g.in(100, 50000)})
		}
	}
	return
}

func (g *gen) add(c Client) { g.sc.Clients = append(g.sc.Clients, c) }

// bulk returns k messages of similar size.
func (g *gen) bulk(t byte, form string, k, size int) []Msg {
	var ms []Msg
	for i := 0; i < k; i++ {
		ms = append(ms, Msg{T: t, K: form, N: size, S: g.u() >> 16})
	}
	return ms
}

// mixed returns k messages of many kinds and of similar size.
func (g *gen) mixed(fs []form, k, size int) []Msg {
	ms := g.msgs(fs, k, 0)
	for i := range ms {
		switch ms[i].K {
		case "cstr", "cstr+", "blob", "kv", "row", "fields", "sqlerr", "notify", "parse", "bind", "sasl":
			ms[i].N = size
		}
	}
	return ms
}

// some returns k messages of about this size: of one kind, or of many.
func (g *gen) some(fs []form, t byte, form string, k, size int) []Msg {
	if g.p(3) {
		return g.mixed(fs, k, size)
	}
	return g.bulk(t, form, k, size)
}

func (g *gen) ctl(st ...Step) { g.sc.Ctl = append(g.sc.Ctl, st...) }

// simpleBoot chooses how the proxy is started and publishes configuration 0.
func (g *gen) simpleBoot(kinds ...string) {
	if len(kinds) == 0 {
		kinds = []string{"start", "start", "serve", "serveconn", "session", "run"}
	}
	g.sc.Boot = g.str(kinds...)
	if g.sc.Boot == "cli" {
		g.ctl(Step{Op: "write", N: 0}, Step{Op: "boot"})
		return
	}
	g.ctl(Step{Op: "config", N: 0})
}

// ---------------------------------------------------------------------------------------------------

func (g *gen) relayScenario() {
	g.exec(600000)
	g.net(1)
	g.oneCfg()
	g.simpleBoot("start", "start", "serve", "serveconn", "session", "run", "cli")
	k := g.pick(1, 1, 1, 2, 3)
	for i := 0; i < k; i++ {
		d := dialogue{rounds: g.in(1, 5), maxC: g.pick(2, 5, 12), maxD: g.pick(2, 5, 12), big: g.pick(0, 800, 9000), wait: g.p(2), spin: g.p(4)}
		if g.sc.Net.SegP == 1 && g.sc.Net.SegMax <= 3 {
			d.big = 0
		}
		c := g.client(0, d)
		if g.p(5) { // many small messages in one go: fills the queues
			c.Steps = append(c.Steps, Step{Op: "send", M: g.some(frontForms, 'Q', "cstr", g.in(60, 220), g.n(20)), Chunk: g.pick(0, 0, 7)})
		}
		if g.p(5) {
			c.DB = append(c.DB, Step{Op: "send", M: g.some(backForms, 'D', "row", g.in(60, 220), g.n(20)), Chunk: g.pick(0, 0, 7)})
		}
		if g.p(6) { // somebody does not read for a while, then the rest comes
			if g.p(2) {
				c.Steps = append(c.Steps, Step{Op: "stall"}, Step{Op: "sleep", N: g.in(1000, 200000)}, Step{Op: "resume"})
			} else {
				c.DB = append(c.DB, Step{Op: "stall"}, Step{Op: "sleep", N: g.in(1000, 200000)}, Step{Op: "resume"})
			}
		}
		if g.p(12) { // more bytes than the startup packet may have: refused, or passed on as they are
			c.Expect = "any"
			if c.Tail = g.tail(); len(c.Tail) == 0 || g.p(3) {
				c.Tail = []byte("x\x00y\x00\x00")[g.n(5):]
			}
		} else if g.p(8) { // a parameter with any bytes in it
			v := blob(g.rng, g.in(1, 30))
			for i := range v {
				v[i] |= 1
			}
			c.NoTerm = true
			c.Tail = append(append([]byte(g.str("options", "search_path", "DateStyle", "gevulot.x")+"\x00"), v...), 0, 0)
		}
		g.add(c)
	}
	if g.p(40) {
		g.large()
	}
	g.sc.Hangup = g.str("client", "db")
}

// large adds messages around the sizes at which buffers, counters and limits tend to change.
func (g *gen) large() {
	n := &g.sc.Net
	n.Window, n.SegP, n.SegMax, n.ShortP = 65536, 0, 0, 0
	if n.LatMax > 500 {
		n.LatMax = 500
	}
	base := g.pick(4096, 8192, 1<<15, 1<<16, 1<<16, 1<<17, 1<<20, 1<<20)
	if g.p(12) {
		base = g.pick(1<<24, 1<<24, 1<<25)
	}
	size := base + g.pick(-5, -4, -1, 0, 1, 5, 1000, base/16)
	k := 1
	if base < 1<<20 {
		k = g.pick(1, 1, 3)
	}
	c := &g.sc.Clients[g.n(len(g.sc.Clients))]
	c.Chunk = 0
	if g.p(2) {
		f := g.pick(0, 1)
		c.Steps = insertStep(g.rng, c.Steps, Step{Op: "send", M: g.bulk("Qd"[f], []string{"cstr", "blob"}[f], k, size), Chunk: 0})
	} else {
		f := g.pick(0, 1, 2)
		c.DB = insertStep(g.rng, c.DB, Step{Op: "send", M: g.bulk("DdC"[f], []string{"row", "blob", "cstr"}[f], k, size), Chunk: 0})
	}
	g.sc.MaxSteps *= 4
}

// hangupDelivery: one side sends and leaves at once, the other keeps reading.
func (g *gen) hangupDelivery() {
	g.exec(600000)
	g.net(1)
	g.oneCfg()
	g.simpleBoot()
	k := g.pick(1, 1, 2)
	for i := 0; i < k; i++ {
		c := g.client(0, dialogue{rounds: g.in(0, 2), maxC: 3, maxD: 3, wait: true})
		n := g.pick(1, 1, 2, 3, 10, 70, 150)
		size := g.pick(0, 5, 60, 300)
		if n >= 70 && g.sc.Net.SegP == 1 && g.sc.Net.SegMax <= 3 {
			size = 3
		}
		end := g.str("close", "close", "close", "closewrite")
		slow := func(steps []Step) []Step {
			// the survivor is slow: it does not read for a while
			return append(steps, Step{Op: "stall"}, Step{Op: "sleep", N: g.in(100, 200000)}, Step{Op: "resume"})
		}
		busy := g.p(2)
		if g.p(2) { // the client leaves
			ms := g.msgs(frontForms, g.in(0, 3), 0)
			ms = append(ms, g.some(frontForms, 'Q', "cstr", n, size)...)
			if g.p(2) {
				ms = append(ms, Msg{T: 'X', K: "empty"})
			}
			if g.p(4) {
				c.DB = slow(c.DB)
			}
			c.Steps = append(c.Steps, Step{Op: "send", M: ms, Chunk: g.chunk()})
			if g.p(4) {
				c.Steps = append(c.Steps, Step{Op: "spin", N: g.in(1, 300)})
			}
			c.Steps = append(c.Steps, Step{Op: end})
			if busy {
				c.DB = append(c.DB, Step{Op: "send", M: g.some(backForms, 'D', "row", g.in(1, 100), g.pick(3, 40, 200)), Chunk: g.pick(0, -1)})
			}
		} else { // the database leaves
			ms := g.some(backForms, 'D', "row", n, size)
			if g.p(2) {
				ms = append(ms, Msg{T: 'E', K: g.str("fields", "sqlerr", "sqlerr"), N: 40, S: g.u() >> 16})
			}
			if g.p(4) {
				c.Steps = slow(c.Steps)
			}
			c.DB = append(c.DB, Step{Op: "send", M: ms, Chunk: g.chunk()})
			if g.p(4) {
				c.DB = append(c.DB, Step{Op: "spin", N: g.in(1, 300)})
			}
			c.DB = append(c.DB, Step{Op: end})
			if busy {
				c.Steps = append(c.Steps, Step{Op: "send", M: g.some(frontForms, 'Q', "cstr", g.in(1, 100), g.pick(3, 40, 200)), Chunk: g.pick(0, -1)})
			}
		}
		g.add(c)
	}
	g.sc.Hangup = "client"
}

// stallScenario: one party stops reading while traffic flows both ways.
func (g *gen) stallScenario() {
	g.exec(900000)
	g.net(1)
	if g.sc.Net.Window > 9000 {
		g.sc.Net.Window = 2000
	}
	if g.sc.Net.SegP == 1 && g.sc.Net.SegMax < 16 {
		g.sc.Net.SegP = 6
	}
	g.oneCfg()
	g.simpleBoot()
	k := g.pick(1, 1, 2)
	for i := 0; i < k; i++ {
		c := g.client(0, dialogue{rounds: g.in(0, 2), maxC: 3, maxD: 3, wait: true})
		c.Early = 0
		few := g.some(frontForms, 'Q', "cstr", g.in(1, 90), g.n(30))
		fewD := g.some(backForms, 'D', "row", g.in(1, 90), g.n(30))
		many := g.in(130, 260)
		size := g.pick(40, 80, 160)
		switch g.n(4) {
		case 0: // the client does not read; the database floods it
			c.Steps = append(c.Steps, Step{Op: "stall"}, Step{Op: "sleep", N: g.in(0, 30000)}, Step{Op: "send", M: few, Chunk: g.chunk()})
			c.DB = append(c.DB, Step{Op: "send", M: g.some(backForms, 'D', "row", many, size), Chunk: g.pick(0, -1)})
		case 1: // the database does not read; the client floods it
			c.DB = append(c.DB, Step{Op: "stall"}, Step{Op: "sleep", N: g.in(0, 30000)}, Step{Op: "send", M: fewD, Chunk: g.chunk()})
			c.Steps = append(c.Steps, Step{Op: "send", M: g.some(frontForms, 'd', "blob", many, size), Chunk: g.pick(0, -1)})
		case 2: // each floods the other; the client starts reading late
			c.Steps = append(c.Steps, Step{Op: "stall"}, Step{Op: "send", M: g.some(frontForms, 'd', "blob", many, size)}, Step{Op: "resume"})
			c.DB = append(c.DB, Step{Op: "send", M: g.some(backForms, 'D', "row", many, size)})
		case 3: // the database starts reading only after it has sent everything
			c.DB = append(c.DB, Step{Op: "stall"}, Step{Op: "send", M: g.some(backForms, 'D', "row", many, size)}, Step{Op: "resume"})
			c.Steps = append(c.Steps, Step{Op: "send", M: g.some(frontForms, 'd', "blob", many, size)})
		}
		g.add(c)
	}
	g.sc.Hangup = g.str("client", "db", "none")
}

// heldBack: somebody sends far more than a party that does not read will take.
func (g *gen) heldBack() {
	g.exec(900000)
	g.net(1)
	if g.sc.Net.Window > 9000 {
		g.sc.Net.Window = 2000
	}
	if g.sc.Net.SegP > 0 && g.sc.Net.SegMax < 64 {
		g.sc.Net.SegMax = 64
	}
	g.oneCfg()
	g.simpleBoot()
	size := g.pick(300, 300, 500, 900)
	n := heldMessages + heldBytes/size + 200 + g.n(300)
	g.sc.P["held"] = size + 40
	g.sc.P["nowake"] = g.pick(1, 1, 1, 0)
	g.sc.MaxSteps *= 2
	if g.p(4) { // the database takes its time to answer the dial
		g.ctlFront(Step{Op: "dialslow", N: g.pick(1000, 1000000, 100000000), B: []byte(dbA)})
	}
	k := g.pick(1, 1, 1, 2)
	for i := 0; i < k; i++ {
		c := g.client(0, dialogue{rounds: g.in(0, 2), maxC: 3, maxD: 3, wait: true})
		c.Early = 0
		fromC := Step{Op: "send", M: g.bulk(g.pickB("dQB~"), "blob", n, size), Chunk: g.pick(0, -1, -1, 3000)}
		fromD := Step{Op: "send", M: g.bulk(g.pickB("dDNA~"), "blob", n, size), Chunk: g.pick(0, -1, -1, 3000)}
		few := Step{Op: "send", M: g.bulk('Q', "cstr", g.in(1, 60), g.n(30)), Chunk: g.chunk()}
		fewD := Step{Op: "send", M: g.bulk('D', "row", g.in(1, 60), g.n(30)), Chunk: g.chunk()}
		stall := []Step{{Op: "stall"}}
		if g.p(3) { // it reads a little in between
			for j := g.in(1, 3); j > 0; j-- {
				stall = append(stall, Step{Op: "sleep", N: g.in(100, 30000)}, Step{Op: "resume"}, Step{Op: "sleep", N: g.in(0, 3000)}, Step{Op: "stall"})
			}
		}
		switch g.n(4) {
		case 0, 1: // the client does not read
			c.Steps = append(append(c.Steps, stall...), few)
			c.DB = append(c.DB, fromD)
		case 2: // the database does not read
			c.DB = append(append(c.DB, stall...), fewD)
			c.Steps = append(c.Steps, fromC)
		case 3: // neither reads
			c.Steps = append(append(c.Steps, stall...), fromC)
			c.DB = append(append(c.DB, stall...), fromD)
		}
		g.add(c)
	}
	g.sc.Hangup = g.str("client", "db", "none")
}

// hangupScenario: hang-ups in every phase.
func (g *gen) hangupScenario() {
	g.exec(600000)
	g.net(1)
	g.oneCfg()
	g.simpleBoot()
	if g.sc.Boot != "run" && g.p(2) {
		g.ctl(Step{Op: "baseline"}, Step{Op: "gate", N: 1})
	}
	g.sc.P["baseline"] = 1
	k := g.pick(1, 1, 2, 3)
	if g.p(15) {
		k = g.in(4, 30)
		g.sc.MaxSteps += 20000 * k
	}
	for i := 0; i < k; i++ {
		c := g.client(0, dialogue{rounds: g.in(0, 3), maxC: 4, maxD: 4, wait: true, spin: g.p(3)})
		if hasOp(g.sc.Ctl, "gate") {
			c.Gate = 1
		}
		end := g.str("close", "close", "rst", "closewrite")
		switch g.n(6) {
		case 0: // during negotiation
			c.Expect = "any"
			c.EndOp = end
			c.Cut = g.cut(8*c.SSL + 60)
		case 1: // while the database is being dialled
			c.Expect = "any"
			kind := g.str("blackhole", "slow", "slow")
			if kind == "slow" {
				g.ctlFront(Step{Op: "dialslow", N: g.in(10, 90000), B: []byte(dbA)})
			} else {
				g.ctlFront(Step{Op: "dial", A: kind, N: 1, B: []byte(dbA)})
				for j := range g.sc.Clients { // whoever meets the black hole is not served
					g.sc.Clients[j].Expect = "any"
				}
				g.sc.P["blackhole"] = 1
			}
			c.Steps = append([]Step{{Op: "sleep", N: g.in(0, 100000)}}, Step{Op: end})
		case 2: // the database leaves at once
			c.DB = []Step{{Op: "spin", N: g.n(30)}, {Op: g.str("close", "rst")}}
		case 3: // somewhere in the dialogue
			c.Steps = insertStep(g.rng, c.Steps, Step{Op: end})
		case 4:
			c.DB = insertStep(g.rng, c.DB, Step{Op: g.str("close", "rst", "closewrite")})
		case 5: // both
			c.Steps = insertStep(g.rng, c.Steps, Step{Op: end})
			c.DB = insertStep(g.rng, c.DB, Step{Op: g.str("close", "rst")})
		}
		if g.sc.P["blackhole"] == 1 {
			c.Expect = "any"
		}
		if g.p(6) && c.Expect == "" { // queued traffic toward the side that leaves
			c.DB = append([]Step{{Op: "send", M: g.bulk('D', "row", g.in(60, 160), 30)}}, c.DB...)
		}
		if g.p(6) && c.Expect == "" {
			c.Steps = append([]Step{{Op: "send", M: g.bulk('Q', "cstr", g.in(60, 160), 30)}}, c.Steps...)
		}
		g.add(c)
	}
	g.sc.Hangup = g.str("client", "db")
}

func hasOp(st []Step, op string) bool {
	for _, s := range st {
		if s.Op == op {
			return true
		}
	}
	return false
}

func (g *gen) ctlFront(s Step) { g.sc.Ctl = append([]Step{s}, g.sc.Ctl...) }

func insertStep(r *rng, st []Step, s Step) []Step {
	k := r.n(len(st) + 1)
	out := append([]Step(nil), st[:k]...)
	return append(append(out, s), st[k:]...)
}

// isolation: normal sessions next to misbehaving ones.
func (g *gen) isolation() {
	g.exec(900000)
	g.net(1)
	g.oneCfg()
	g.simpleBoot("start", "start", "serve", "serveconn", "run")
	good := g.in(1, 3)
	bad := g.in(1, 4)
	dialFault := g.p(3)
	for i := 0; i < good+bad; i++ {
		d := dialogue{rounds: g.in(1, 3), maxC: 5, maxD: 5, wait: true, spin: g.p(4)}
		c := g.client(0, d)
		if i < bad && !(i == 0 && dialFault) {
			g.misbehave(&c)
		}
		g.add(c)
	}
	if dialFault { // meets client 0 or another that misbehaves
		kind := g.str("refuse", "unreachable", "blackhole", "blackhole")
		hang := kind == "blackhole"
		if hang && g.p(2) {
			g.ctlFront(Step{Op: "dialslow", N: 100000000, B: []byte(dbA)})
		} else {
			g.ctlFront(Step{Op: "dial", A: kind, N: 1, B: []byte(dbA)})
		}
		for i := range g.sc.Clients {
			if i < bad {
				g.sc.Clients[i].Expect = "any"
				g.sc.Clients[i].Gate = 0
			} else {
				g.sc.Clients[i].Gate = 1
			}
		}
		g.ctl(Step{Op: "until-dials", N: 1})
		if hang { // the others are served while that dial goes on
			g.ctl(Step{Op: "dialclear", B: []byte(dbA)}, Step{Op: "gate", N: 1}, Step{Op: "checkwithin", N: 60000000})
		} else {
			g.ctl(Step{Op: "gate", N: 1})
		}
	}
	if !dialFault && g.p(6) {
		g.crowd()
	}
	g.sc.Hangup = g.str("client", "db", "none")
}

// crowd adds many other clients, which come (and mostly stay) before the last of those already there.
func (g *gen) crowd() {
	n := g.pick(g.in(4, 12), g.in(4, 12), g.in(13, 40), g.in(41, 80))
	if g.p(12) {
		n = g.in(100, 300)
	}
	if m := g.sc.Net.LatMax; m > 1000 {
		g.sc.Net.LatMax = 1000
	}
	g.sc.MaxSteps += 20000 * n
	last := len(g.sc.Clients) - 1
	for k := g.in(0, 1); k >= 0 && last-k >= 0; k-- {
		if c := &g.sc.Clients[last-k]; c.Expect == "" {
			c.Gate = 2
		}
	}
	kind := g.n(7)
	for i := 0; i < n; i++ {
		k := kind
		if k == 6 {
			k = g.n(6)
		}
		c := g.client(0, dialogue{rounds: g.n(2), maxC: 2, maxD: 2})
		c.Chunk, c.Gate, c.Early = 0, 0, 0
		if n > 40 {
			c.SSL = 0
			if c.Delay > 5000 {
				c.Delay = 300
			}
		}
		switch k {
		case 0: // silent
			c.Expect, c.Cut = "any", g.cut(2)
		case 1: // stays in an established session
		case 2: // leaves during the negotiation
			c.Expect, c.Cut, c.EndOp = "any", g.cut(40), g.str("close", "rst")
		case 3: // refused
			c.Expect = "refused"
			c.DB = nil
			for j := range c.Params {
				if c.Params[j].K == "database" {
					c.Params[j].V += "x"
				}
			}
		case 4: // leaves
			c.Steps = insertStep(g.rng, c.Steps, Step{Op: g.str("rst", "close")})
		case 5: // its database leaves
			c.DB = insertStep(g.rng, c.DB, Step{Op: g.str("rst", "close")})
		}
		g.add(c)
	}
	g.ctl(Step{Op: "settle"}, Step{Op: "gate", N: 2})
}

// cut chooses how many bytes of its negotiation a client sends (-1: none).
func (g *gen) cut(n int) int {
	if g.p(5) {
		return -1
	}
	return 1 + g.n(n)
}

// misbehave turns a client into one that harms its own session.
func (g *gen) misbehave(c *Client) {
	switch g.n(8) {
	case 0:
		c.Steps = insertStep(g.rng, c.Steps, Step{Op: g.str("rst", "close")})
	case 1:
		c.DB = insertStep(g.rng, c.DB, Step{Op: g.str("rst", "close")})
	case 2: // never reads
		c.Steps = append([]Step{{Op: "stall"}}, c.Steps...)
		c.DB = append(c.DB, Step{Op: "send", M: g.bulk('D', "row", g.in(100, 200), 100)})
	case 3: // its database never reads
		c.DB = append([]Step{{Op: "stall"}}, c.DB...)
		c.Steps = append(c.Steps, Step{Op: "send", M: g.bulk('d', "blob", g.in(100, 200), 100)})
	case 4: // refused
		c.Expect = "refused"
		for j := range c.Params {
			if c.Params[j].K == "database" {
				c.Params[j].V += "x"
			}
		}
	case 5: // incomplete negotiation, stays connected
		c.Expect = "any"
		c.Cut = g.cut(20)
	case 6: // garbage after some messages
		c.Role = "hostile"
		c.Steps = append(c.Steps, Step{Op: "raw", B: g.garbage('f')}, Step{Op: g.str("close", "spin", "rst")})
	case 7: // garbage from its database
		c.Role = "hostile"
		c.DB = append(c.DB, Step{Op: "raw", B: g.garbage('b')}, Step{Op: g.str("close", "spin", "rst")})
	}
}

// garbage makes bytes that are not a well-formed sequence of messages.
func (g *gen) garbage(side byte) []byte {
	fs := frontForms
	if side == 'b' {
		fs = backForms
	}
	typ := fs[g.n(len(fs))].t
	hdr := func(n int) []byte { return append([]byte{typ}, i32(n)...) }
	switch g.n(10) {
	case 0:
		return blob(g.rng, g.in(1, 60))
	case 1: // impossible length
		return append(hdr(g.pick(0, 1, 2, 3, -1, -2147483648, -5)), blob(g.rng, g.n(30))...)
	case 2: // enormous length, little data
		return append(hdr(g.pick(0x7fffffff, 1<<30, 1<<26, 1<<20)), blob(g.rng, g.n(60))...)
	case 3: // cut in the middle
		b := g.msg(fs, 200).Bytes()
		return b[:1+g.n(len(b))]
	case 4: // negative or huge counts inside a well-framed message
		return frame(g.pickB("DTvDT"), append(i16(g.pick(-1, -32768, 0x7fff, 3)), blob(g.rng, g.n(20))...))
	case 5: // negative or huge field length in a DataRow
		return frame('D', append(append(i16(g.in(1, 3)), i32(g.pick(-2, -100, -2147483648, 0x7fffffff, 1<<28))...), blob(g.rng, g.n(20))...))
	case 6: // options count
		if g.p(3) { // as many empty options as it says
			n := g.pick(100, 1<<12, 1<<13, 1<<14)
			if s := &g.sc.Net; n > 1<<12 {
				s.Window, s.SegP, s.SegMax, s.ShortP = 65536, 0, 0, 0
				g.sc.MaxSteps += 1000000
			}
			return frame('v', append(append(i32(0), i32(n)...), make([]byte, n)...))
		}
		return frame('v', append(append(i32(0), i32(g.pick(-1, 0x7fffffff, 1<<27, 5))...), blob(g.rng, g.n(20))...))
	case 7: // body too short for its type
		return frame(g.pickB("RKSZTDCENAvpQX1"), blob(g.rng, g.n(4)))
	case 8: // string without terminator
		return frame(g.pickB("QSCENTpvEA"), text(g.rng, g.n(40)))
	default: // random well-framed bodies
		var b []byte
		for i := 0; i < g.in(1, 5); i++ {
			b = append(b, frame(g.pickB("RKSZTDCENAvpQX1DTDT"), blob(g.rng, g.n(30)))...)
		}
		return b
	}
}

func (g *gen) pickB(s string) byte { return s[g.n(len(s))] }

// hostileStartup makes bytes for the startup phase.
func (g *gen) hostileStartup(i int) []byte {
	good := startupBytes(196608, g.params(g.sc.Cfgs[0].DBName, i), true, nil)
	switch g.n(9) {
	case 0:
		return blob(g.rng, g.in(1, 60))
	case 1:
		return append(i32(g.pick(0, 1, 3, 4, 5, 7, -1, -2147483648)), blob(g.rng, g.n(20))...)
	case 2:
		return append(append(i32(g.pick(0x7fffffff, 1<<30, 1<<24)), i32(196608)...), blob(g.rng, g.n(40))...)
	case 3:
		return good[:1+g.n(len(good)-1)]
	case 4:
		var b []byte
		for k := g.pick(1, 50, 3000); k > 0; k-- {
			b = append(b, sslRequest...)
		}
		return b
	case 5: // unterminated parameters
		return startupBytes(196608, []Param{{"user", "u"}}, false, text(g.rng, g.n(30)))
	case 6:
		return append(i32(8), i32(g.pick(80877102, 80877104, 131072, 0, -1))...)
	case 7: // SSL request with a body
		return append(append(i32(12), sslRequest[4:]...), blob(g.rng, 4)...)
	default:
		for k := g.in(1, 4); k > 0; k-- {
			good[g.n(len(good))] = byte(g.u())
		}
		return good
	}
}

func (g *gen) hostile() {
	g.exec(700000)
	g.net(1)
	g.oneCfg()
	g.simpleBoot("start", "start", "serve", "serveconn", "run")
	bad := g.in(1, 4)
	for i := 0; i < bad; i++ {
		c := g.client(0, dialogue{rounds: g.in(0, 2), maxC: 3, maxD: 3, wait: true})
		c.Role = "hostile"
		end := Step{Op: g.str("close", "spin", "rst", "closewrite", "waiteof")}
		switch g.n(5) {
		case 0, 1:
			b := g.garbage('f')
			for j := g.n(3); j > 0; j-- {
				b = append(b, g.garbage('f')...)
			}
			c.Steps = append(c.Steps, Step{Op: "raw", B: b, Chunk: g.pick(0, 0, 1, 3)}, end)
			if g.p(3) {
				c.Steps = append(c.Steps, Step{Op: "raw", B: blob(g.rng, g.in(1, 200))})
			}
		case 2, 3:
			b := g.garbage('b')
			for j := g.n(3); j > 0; j-- {
				b = append(b, g.garbage('b')...)
			}
			c.DB = append(c.DB, Step{Op: "raw", B: b, Chunk: g.pick(0, 0, 1, 3)}, end)
		case 4:
			c.Expect = "any"
			c.Pre = g.hostileStartup(i)
			c.Steps = []Step{end}
			c.DB = nil
		}
		g.add(c)
	}
	for i := g.in(0, 2); i > 0; i-- {
		g.add(g.client(0, dialogue{rounds: g.in(1, 3), maxC: 4, maxD: 4, wait: true}))
	}
	g.sc.Hangup = "client"
}

// admission: startup packets that must and must not get through.
func (g *gen) admission() {
	g.exec(500000)
	g.net(1)
	g.oneCfg()
	if g.p(8) {
		g.sc.Cfgs[0].DBName = strings.Repeat("long_name_", 12)[:g.pick(31, 32, 62, 63, 64, 65, 100)] + "z"
		g.sc.Cfgs[0].URL = ""
	}
	g.simpleBoot("start", "start", "serve", "serveconn", "session", "run")
	k := g.in(1, 4)
	for i := 0; i < k; i++ {
		g.add(g.admissionClient(g.sc.Cfgs[0].DBName))
	}
	g.sc.Hangup = g.str("client", "db", "none")
}

func (g *gen) admissionClient(db string) Client {
	i := len(g.sc.Clients)
	c := g.client(0, dialogue{rounds: g.in(0, 2), maxC: 3, maxD: 3, wait: true})
	other := g.str("other", "postgres", "", db+"x", "X"+db, db+" ", db[:len(db)-1], swapCase(db), "template1", db+"\xff",
		"/"+db, db+"/", " "+db, "\t"+db, db+"\n", "postgres://x/"+db, "\""+db+"\"", db+","+db, "*")
	if len(db) > 30 && g.p(2) { // the difference comes late
		other = db[:len(db)-1] + g.str("x", "xy", "")
	}
	tag := Param{tagParam, fmt.Sprintf("c%d", i)}
	user := Param{"user", g.str("u", "bob")}
	shuffle := func(ps []Param) []Param {
		for k := len(ps) - 1; k > 0; k-- {
			j := g.n(k + 1)
			ps[k], ps[j] = ps[j], ps[k]
		}
		return ps
	}
	switch g.n(11) {
	case 10: // replication, of this database or of all
		ps := []Param{user, {"database", db}, tag}
		for k := g.pick(1, 1, 1, 2, 3); k > 0; k-- {
			ps = append(ps, Param{"replication", g.str("true", "true", "on", "1", "yes", "t", "TRUE", "Yes", "oN", "ye", "y", "tr", "tru", "Y", "yEs", "TRu", "T", "yess", "database", "false", "off", "no", "0", "f")})
		}
		if g.p(3) {
			ps = append(ps, Param{"options", "-c geqo=off"})
		}
		c.Params = shuffle(ps)
		c.Expect = ""
		if effectiveDB(c.Params) != db {
			c.Expect = "refused"
		}
	case 0, 1, 2: // the configured database
	case 3: // another database
		c.Params = shuffle([]Param{user, {"database", other}, tag})
		c.Expect = "refused"
	case 4: // none named
		c.Params = shuffle([]Param{user, tag})
		c.Expect = "refused"
		if g.p(2) {
			c.Params = append(c.Params, Param{g.str("Database", "DATABASE", " database", "database ", "dbname", "data", "databases", "\"database\""), db})
		}
	case 5: // named twice; the last one counts for PostgreSQL
		ps := []Param{user, {"database", db}, {"database", other}, tag}
		if g.p(3) {
			ps = append(ps, Param{"database", "third"})
		}
		if g.p(2) {
			ps = shuffle(ps)
		}
		c.Params = ps
		c.Expect = "any"
		if effectiveDB(ps) != db {
			c.Expect = "refused"
		}
	case 6: // other protocol versions
		c.Ver = uint32(g.pick(131072, 196609, 196610, verZero, 80877104, 0x7fffffff, 65536, 196607))
		c.Expect = "refused"
	case 7: // a cancel or GSS request, or a stray version
		c.Ver = uint32(g.pick(80877102, 80877104))
		c.Params = nil
		c.NoTerm = true
		c.Tail = g.tail()
		c.Expect = "refused"
	case 8: // bytes behind the terminator
		c.Params = shuffle([]Param{user, {"database", db}, tag})
		c.Tail = append([]byte("database\x00"), []byte(other+"\x00\x00")...)
		if g.p(2) {
			c.Tail = g.tail()
			if len(c.Tail) == 0 {
				c.Tail = []byte{0}
			}
		}
		c.Expect = "any" // PostgreSQL rejects such packets itself
	case 9: // database defaults to the user name
		c.Params = shuffle([]Param{{"user", other}, tag})
		if g.p(2) {
			c.Params = shuffle([]Param{{"user", db}, {"database", other}, tag})
		}
		c.Expect = "refused"
		if effectiveDB(c.Params) == db {
			c.Expect = "any"
		}
	}
	c.Early = g.pick(0, 0, 1)
	return c
}

func (g *gen) tail() []byte { return blob(g.rng, g.pick(0, 8, 8, 3)) }

func swapCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			b[i] = c ^ 32
			break
		}
	}
	return string(b)
}

func (g *gen) ssl() {
	g.exec(700000)
	g.net(1)
	g.oneCfg()
	g.simpleBoot()
	k := g.pick(1, 1, 2)
	for i := 0; i < k; i++ {
		c := g.client(0, dialogue{rounds: g.in(1, 3), maxC: 4, maxD: 4, big: g.pick(0, 500), wait: true})
		c.SSL = g.pick(1, 1, 1, 2, 3, 7)
		if g.p(15) {
			c.SSL = g.in(50, 300)
		}
		c.Pipeline = g.p(2)
		c.Early = g.pick(0, 1, 2, 3)
		c.Chunk = g.pick(0, 0, 1, 3, 8, 9)
		if g.p(5) { // only SSL requests, then nothing
			c.Cut = 8 * c.SSL
			c.Expect = "any"
			c.Pipeline = true
		} else if g.p(15) {
			c.Expect = "any"
			if c.Tail = g.tail(); len(c.Tail) == 0 {
				c.Tail = []byte{0}
			}
		}
		g.add(c)
	}
	g.sc.Hangup = g.str("client", "db")
}

func (g *gen) dialFailure() {
	g.exec(600000)
	g.net(1)
	g.oneCfg()
	g.simpleBoot("start", "start", "serve", "serveconn", "run")
	if g.sc.Boot != "run" {
		g.ctl(Step{Op: "baseline"})
	}
	fails := g.in(1, 4)
	if g.p(10) {
		fails = g.in(5, 40)
		if g.p(12) {
			fails = g.in(60, 270)
		}
		g.sc.MaxSteps += 20000 * fails
	}
	mode := g.n(4)
	switch mode {
	case 0, 1: // the first dials fail
		for i := 0; i < fails; i++ {
			kind := g.str("refuse", "refuse", "unreachable", "blackhole")
			g.ctl(Step{Op: "dial", A: kind, N: 1, B: []byte(dbA)})
		}
	case 2: // the server is down
		g.ctl(Step{Op: "dbdown", A: dbA})
	case 3: // connections die while the startup message is sent
		g.sc.P["killearly"] = fails
	}
	for i := 0; i < fails; i++ {
		c := g.client(0, dialogue{rounds: 1, maxC: 3, maxD: 3, wait: true})
		c.Expect = "refused"
		c.Gate = 1
		if mode == 3 {
			c.DB = nil
			c.Role = "victim"
		}
		if g.p(5) {
			c.Expect = "any"
			c.Steps = []Step{{Op: "sleep", N: g.n(20000)}, {Op: g.str("close", "rst")}}
		}
		g.add(c)
	}
	for i := g.in(0, 2); i > 0; i-- {
		c := g.client(0, dialogue{rounds: 2, maxC: 3, maxD: 3, wait: true})
		c.Gate = 2
		g.add(c)
	}
	g.ctl(Step{Op: "gate", N: 1})
	if mode == 2 {
		g.ctl(Step{Op: "settle", N: 200000000}, Step{Op: "dbup", A: dbA})
	} else {
		g.ctl(Step{Op: "until-dials", N: fails})
		if mode == 3 || g.p(2) {
			g.ctl(Step{Op: "settle", N: 200000000})
		}
		g.ctl(Step{Op: "dialclear", B: []byte(dbA)}) // someone may have left before dialling
	}
	g.ctl(Step{Op: "gate", N: 2})
	g.sc.Hangup = g.str("client", "db")
}

// closing: Close at any moment.
func (g *gen) closing() {
	g.exec(600000)
	g.net(1)
	g.sc.Cfgs = []Cfg{
		{Listen: listenA, DBName: nameA, DBAddr: dbA},
		{Listen: "127.0.0.1:5001", DBName: nameA, DBAddr: dbA},
		{Listen: "127.0.0.1:5002", DBName: nameA, DBAddr: dbA},
	}
	sc := g.sc
	sc.P["late"] = g.n(2)
	sc.P["chcap"] = g.n(2)
	sc.Boot = g.str("start", "start", "start", "serve", "serveconn")
	if g.p(12) {
		sc.P["noconfig"] = 1
		sc.Boot = g.str("serve", "serveconn", "start")
	} else {
		g.ctl(Step{Op: "config", N: 0})
	}
	k := g.in(0, 3)
	if g.p(15) {
		k = g.pick(g.in(4, 12), g.in(13, 60))
		sc.MaxSteps += 20000 * k
	}
	many := g.p(500)
	if many {
		k = g.pick(130, 260, 300, 520)
		sc.MaxSteps += 20000 * k
		sc.Net = simnet.Config{Window: 65536}
	}
	for i := 0; i < k; i++ {
		c := g.client(0, dialogue{rounds: g.in(0, 3), maxC: 4, maxD: 4, wait: true, spin: g.p(3)})
		c.Expect = "any"
		switch g.n(9) {
		case 7: // the database has sent everything, says so and does not read
			c.DB = append([]Step{{Op: "stall"}}, append(c.DB, Step{Op: "closewrite"})...)
			c.Steps = append(c.Steps, Step{Op: "send", M: g.bulk('d', "blob", g.in(70, 200), 80)})
		case 8: // the same the other way round
			c.Steps = append([]Step{{Op: "stall"}}, append(c.Steps, Step{Op: "closewrite"})...)
			c.DB = append(c.DB, Step{Op: "send", M: g.bulk('D', "row", g.in(70, 200), 80)})
		case 0:
			c.Cut = g.cut(30) // silent in mid-negotiation
		case 1:
			c.Steps = append([]Step{{Op: "stall"}}, c.Steps...)
			c.DB = append(c.DB, Step{Op: "send", M: g.bulk('D', "row", g.in(70, 200), 80)})
		case 2:
			c.DB = append([]Step{{Op: "stall"}}, c.DB...)
			c.Steps = append(c.Steps, Step{Op: "send", M: g.bulk('d', "blob", g.in(70, 200), 80)})
		case 3:
			c.Steps = insertStep(g.rng, c.Steps, Step{Op: g.str("close", "rst")})
		}
		c.Delay = g.pick(0, 0, 0, 20, 2000)
		if many {
			c.SSL, c.Chunk, c.Delay = 0, 0, 0
			if c.Cut == 0 {
				c.Steps, c.DB, c.Early = nil, nil, 0
			}
		}
		g.add(c)
	}
	if many && g.p(2) {
		g.ctl(Step{Op: "until-clients", N: k}, Step{Op: "settle", N: 1000000})
	} else if g.p(3) {
		g.ctlFront(Step{Op: "dial", A: g.str("blackhole", "blackhole", "refuse"), N: g.in(1, 3), B: []byte(dbA)})
	} else if g.p(3) {
		g.ctlFront(Step{Op: "dialslow", N: g.in(10, 30000), B: []byte(dbA)})
	}
	if sc.Boot == "start" && g.p(2) && sc.P["noconfig"] == 0 {
		g.ctl(g.moment())
		for i := g.in(1, 3); i > 0; i-- {
			g.ctl(Step{Op: "config", N: g.n(3)})
			if g.p(2) {
				g.ctl(Step{Op: "spin", N: g.n(60)})
			}
		}
	}
	if g.p(6) && sc.P["noconfig"] == 0 {
		g.ctl(Step{Op: "serveconn"})
	}
	if g.p(8) && sc.Boot != "serve" {
		g.ctl(Step{Op: "serve", A: "127.0.0.1:5009"})
	}
	if g.p(8) {
		g.ctl(Step{Op: "failclose", N: g.in(1, 2)})
	}
	if sc.P["noconfig"] == 0 && g.p(8) {
		g.ctl(Step{Op: "until-listening"}, Step{Op: "failaccept", A: g.str("emfile", "enfile", "again"), N: g.in(1, 5)})
	}
	if sc.Boot == "start" && sc.P["noconfig"] == 0 && g.p(8) { // an address that cannot be bound
		sc.Cfgs = append(sc.Cfgs, Cfg{Listen: g.str("192.0.2.7:5000", "127.0.0.1:99999", "127.0.0.1:5100"), DBName: nameA, DBAddr: dbA, Bad: true})
		g.ctl(Step{Op: "occupy", A: "127.0.0.1:5100"}, Step{Op: "config", N: 3})
	}
	if sc.Boot == "serve" && g.p(4) {
		g.ctl(g.moment(), Step{Op: "lnclose"})
	}
	g.ctl(g.moment())
	g.ctl(Step{Op: "close"})
	for i := g.n(3); i > 0; i-- {
		switch g.n(5) {
		case 0:
			g.ctl(Step{Op: "close2"})
		case 1:
			g.ctl(Step{Op: "serveconn"})
		case 2:
			g.ctl(Step{Op: "serve", A: "127.0.0.1:5010"})
		case 3:
			g.ctl(Step{Op: "config", N: g.n(3)})
		case 4:
			g.ctl(Step{Op: "spin", N: g.n(60)})
		}
	}
}

// moment is a control step that waits for some point of a run.
func (g *gen) moment() Step {
	switch g.n(10) {
	case 0, 1, 2:
		return Step{Op: "spin", N: g.n(400)}
	case 3:
		return Step{Op: "until-clients", N: g.in(1, 3)}
	case 4:
		return Step{Op: "until-dials", N: g.in(1, 2)}
	case 5:
		return Step{Op: "until-dbconns", N: g.in(1, 2)}
	case 6:
		return Step{Op: "until-bytes", N: g.n(3000)}
	case 7:
		return Step{Op: "sleep", N: g.n(40000)}
	case 8:
		return Step{Op: "until-listening"}
	default:
		return Step{Op: "settle", N: 100000}
	}
}

// calls: concurrent Start, Serve, ServeConn and Close calls.
func (g *gen) calls() {
	g.exec(400000)
	g.net(0)
	g.sc.Cfgs = []Cfg{{Listen: listenA, DBName: nameA, DBAddr: dbA}, {Listen: "127.0.0.1:5001", DBName: nameA, DBAddr: dbA}}
	sc := g.sc
	sc.Boot = "idle"
	sc.P["late"] = 1
	if !g.p(5) {
		g.ctl(Step{Op: "config", N: 0})
	}
	starts, n := 0, g.in(2, 7)
	closed := false
	for i := 0; i < n; i++ {
		switch g.n(8) {
		case 0, 1, 2:
			g.ctl(Step{Op: "start"})
			starts++
		case 3:
			g.ctl(Step{Op: "serve", A: fmt.Sprintf("127.0.0.1:%d", 6000+i)})
		case 4:
			g.ctl(Step{Op: "serveconn"})
		case 5:
			if g.p(2) {
				g.ctl(Step{Op: g.str("close", "closewait")})
				closed = true
			}
		case 6:
			g.ctl(Step{Op: "spin", N: g.n(80)})
		case 7:
			g.ctl(g.moment())
		}
	}
	if !closed && g.p(2) {
		g.ctl(Step{Op: "checkstarts"})
	}
	if !closed {
		g.ctl(Step{Op: g.str("close", "closewait")})
	}
	for i := g.n(3); i > 0; i-- {
		g.ctl(Step{Op: g.str("start", "serveconn", "close2", "start")})
	}
	k := g.n(2)
	for i := 0; i < k; i++ {
		c := g.client(0, dialogue{rounds: 1, maxC: 2, maxD: 2})
		c.Expect = "any"
		g.add(c)
	}
}

// Several share a port or the beginning of their text.
var listenPool = []string{listenA, "127.0.0.1:5001", "127.0.0.5:5000", "127.0.0.1:50001"}

// listenerChanges: sequences of configurations with different addresses, some of which cannot be bound.
func (g *gen) listenerChanges() {
	g.exec(500000)
	g.net(0)
	sc := g.sc
	sc.Boot = g.str("start", "start", "run")
	sc.P["chcap"] = g.n(3)
	n := g.in(2, 7)
	if g.p(12) {
		n = g.in(8, 60)
		sc.MaxSteps += n * 20000
	}
	for i := 0; i < n; i++ {
		c := Cfg{Listen: listenPool[g.n(len(listenPool))], DBName: nameA, DBAddr: dbA}
		if i > 0 && g.p(4) || i == 0 && g.p(10) {
			c.Bad = true
			c.Listen = g.str("192.0.2.7:5000", "127.0.0.1:99999", "no-port", "no.such.host:5000", "127.0.0.1:5100", "127.0.0.1:5101")
		}
		if g.p(3) {
			c.DBName = g.str(nameA, "app2")
		}
		sc.Cfgs = append(sc.Cfgs, c)
	}
	g.ctl(Step{Op: "occupy", A: "127.0.0.1:5100"}, Step{Op: "failbind", A: "127.0.0.1:5101"}, Step{Op: "occupy", A: "127.0.0.1:5101"})
	for i := 0; i < n; i++ {
		if g.p(12) {
			g.ctl(Step{Op: "failclose", N: 1})
		}
		g.ctl(Step{Op: "config", N: i})
		switch g.n(5) {
		case 0, 1:
			g.ctl(Step{Op: "spin", N: g.n(100)})
		case 2:
			g.ctl(Step{Op: "settle", N: 1000000})
		}
	}
	for i := g.n(3); i > 0; i-- {
		c := g.client(0, dialogue{rounds: 1, maxC: 2, maxD: 2})
		c.Expect = "any"
		g.add(c)
	}
	sc.Hangup = "client"
	if sc.Boot == "start" && g.p(3) {
		sc.Hangup = "none"
	}
}

// sessionsAcrossChanges: established sessions and configuration changes.
func (g *gen) sessionsAcrossChanges() {
	g.exec(600000)
	g.net(1)
	sc := g.sc
	sc.Boot = g.str("start", "start", "run", "cli")
	n := g.in(2, 5)
	for i := 0; i < n; i++ {
		c := Cfg{Listen: listenPool[g.n(3)], DBName: g.str(nameA, "app2"), DBAddr: g.str(dbA, "127.0.0.3:5432")}
		if i == 0 {
			c = Cfg{Listen: listenA, DBName: nameA, DBAddr: dbA}
		} else if g.p(8) {
			c.Listen, c.Bad = "192.0.2.7:5000", true
		}
		sc.Cfgs = append(sc.Cfgs, c)
	}
	if sc.Boot == "cli" {
		g.ctl(Step{Op: "write", N: 0}, Step{Op: "boot"})
	} else {
		g.ctl(Step{Op: "config", N: 0})
	}
	k := g.in(1, 3)
	for i := 0; i < k; i++ {
		c := g.client(0, dialogue{rounds: g.in(2, 4), maxC: 4, maxD: 4, wait: true, spin: true})
		// the session is established before the first change
		c.Steps = append(c.Steps, Step{Op: "gate", N: 2})
		s2, d2 := g.dialogue(dialogue{rounds: 2, maxC: 4, maxD: 4})
		c.Steps = append(c.Steps, s2...)
		c.DB = append(append(c.DB, Step{Op: "gate", N: 2}), d2...)
		fixRecv(c.DB)
		g.add(c)
	}
	g.ctl(Step{Op: "until-estab", N: k}, Step{Op: "spin", N: g.n(200)})
	for i := 1; i < n; i++ {
		if sc.Boot == "cli" {
			g.ctl(Step{Op: "write", N: i})
		} else {
			g.ctl(Step{Op: "config", N: i})
		}
		switch g.n(4) {
		case 0:
			g.ctl(Step{Op: "spin", N: g.n(100)})
		case 1:
			g.ctl(Step{Op: "settle", N: 1000000})
		case 2:
			g.ctl(Step{Op: "gate", N: 2})
		}
	}
	if g.p(2) {
		g.ctl(Step{Op: "settle", N: 1000000})
	}
	g.ctl(Step{Op: "gate", N: 2})
	sc.Hangup = g.str("client", "db")
}

// fixRecv drops waits for message counts that belong to an appended dialogue.
func fixRecv(st []Step) {
	seen := false
	for i := range st {
		if st[i].Op == "gate" {
			seen = true
		}
		if seen && st[i].Op == "recv" {
			st[i] = Step{Op: "spin", N: 3}
		}
	}
}

// consistentConfig: clients connect while the configuration changes.
func (g *gen) consistentConfig() {
	g.exec(600000)
	g.net(0)
	sc := g.sc
	sc.Boot = g.str("start", "start", "run", "cli", "serve", "serveconn", "session")
	sc.P["chcap"] = g.n(2)
	n := g.in(2, 5)
	shared := g.p(3)
	for i := 0; i < n; i++ {
		// every combination of name and address identifies its configuration
		sc.Cfgs = append(sc.Cfgs, Cfg{
			Listen: listenA, DBName: []string{nameA, "app2", nameA, "app3", "app2"}[i],
			DBAddr: fmt.Sprintf("127.0.0.2:%d", 5432+i)})
		if shared && i > 0 { // databases of one server
			sc.Cfgs[i].DBAddr = sc.Cfgs[g.n(i)].DBAddr
			if g.p(3) {
				sc.Cfgs[i].DBName = fmt.Sprintf("own%d", i)
			}
		}
		if g.p(4) && sc.Boot != "serve" && sc.Boot != "serveconn" {
			sc.Cfgs[i].Listen = listenPool[1+g.n(3)]
		}
	}
	pub := func(i int) Step {
		if sc.Boot == "cli" {
			return Step{Op: "write", N: i}
		}
		return Step{Op: "config", N: i}
	}
	g.ctl(pub(0))
	if sc.Boot == "cli" {
		g.ctl(Step{Op: "boot"})
	}
	gate := 1
	for i := 1; i < n; i++ {
		if g.p(3) {
			g.ctl(Step{Op: "settle", N: 1000000})
		}
		g.ctl(Step{Op: "gate", N: gate})
		gate++
		if g.p(2) {
			g.ctl(g.moment())
		}
		g.ctl(pub(i))
	}
	if g.p(2) {
		g.ctl(Step{Op: "settle", N: 1000000}, Step{Op: "gate", N: gate})
	} else {
		g.ctl(Step{Op: "spin", N: g.n(200)}, Step{Op: "gate", N: gate})
	}
	if g.p(3) {
		sc.Net.DialMax = 0
		g.ctlFront(Step{Op: "dialslow", N: g.in(10, 30000), B: []byte(sc.Cfgs[g.n(n)].DBAddr)})
	}
	k := g.in(2, 6)
	for i := 0; i < k; i++ {
		c := g.client(g.n(n), dialogue{rounds: 1, maxC: 2, maxD: 2})
		c.Gate = g.n(gate + 1)
		c.Expect = "any"
		c.Delay = g.pick(0, 0, 5, 100)
		g.add(c)
	}
	sc.Hangup = "client"
}

func (g *gen) acceptErrors() {
	g.exec(500000)
	g.net(0)
	sc := g.sc
	sc.Boot = g.str("start", "start", "serve", "run")
	sc.Cfgs = []Cfg{{Listen: listenA, DBName: nameA, DBAddr: dbA}}
	g.ctl(Step{Op: "config", N: 0}, Step{Op: "until-listening"})
	perm := g.p(4)
	if g.p(10) {
		g.ctl(Step{Op: "failclose", N: 1})
	}
	for i := g.in(1, 4); i > 0; i-- {
		g.ctl(Step{Op: "failaccept", A: g.str("emfile", "enfile", "again"), N: g.in(1, 5)})
		switch g.n(4) {
		case 0:
			g.ctl(Step{Op: "spin", N: g.n(100)})
		case 1:
			g.ctl(Step{Op: "sleep", N: g.n(20000)})
		}
	}
	k := g.in(1, 3)
	for i := 0; i < k; i++ {
		c := g.client(0, dialogue{rounds: 2, maxC: 3, maxD: 3, wait: true})
		c.Gate = g.n(2)
		if perm {
			c.Expect = "any"
		}
		g.add(c)
		if g.p(8) { // comes first and says nothing
			s := g.client(0, dialogue{})
			s.Expect, s.Cut, s.Delay = "any", g.cut(4), 0
			g.add(s)
		}
	}
	if g.p(2) && sc.Boot != "serve" { // an address that cannot be bound
		sc.Cfgs = append(sc.Cfgs, Cfg{Listen: g.str("192.0.2.7:5000", "127.0.0.1:99999", "no-port", "127.0.0.1:5100"), DBName: nameA, DBAddr: dbA, Bad: true})
		g.ctl(Step{Op: "occupy", A: "127.0.0.1:5100"}, Step{Op: "config", N: 1})
	}
	g.ctl(Step{Op: "gate", N: 1})
	if perm {
		sc.P["perm"] = 1
		g.ctl(Step{Op: "until-estab", N: 1}, Step{Op: "failaccept", A: g.str("einval", "ebadf"), N: 1}, Step{Op: "settle", N: 1000000})
		if sc.Boot == "serve" {
			g.ctl(Step{Op: "checkserve"}, Step{Op: "serve", A: "127.0.0.1:5200"}, Step{Op: "settle", N: 1000000})
		} else {
			sc.Cfgs = append(sc.Cfgs, Cfg{Listen: "127.0.0.1:5300", DBName: nameA, DBAddr: dbA})
			g.ctl(Step{Op: "config", N: len(sc.Cfgs) - 1}, Step{Op: "settle", N: 1000000})
		}
	}
	sc.Hangup = "client"
}

// ---------------------------------------------------------------------------------------------------
// Configuration file

func (g *gen) cliCfgs(n int) {
	if g.p(3) {
		g.sc.P["style"] = g.in(1, 8)
	}
	if g.p(3) {
		g.sc.P["args"] = g.n(5) + 8*g.n(6)
	}
	for i := 0; i < n; i++ {
		g.sc.Cfgs = append(g.sc.Cfgs, Cfg{
			Listen: listenPool[g.n(len(listenPool))], DBName: g.str(nameA, "app2"), DBAddr: g.str(dbA, "127.0.0.3:5432", "127.0.0.4:5433")})
	}
}

func (g *gen) writeStep(i int) Step {
	st := Step{Op: "write", N: i}
	if g.p(2) {
		st.Chunk = g.pick(1, 5, 17, 40)
		if pad := g.sc.P["pad"]; pad > 0 {
			st.Chunk = pad/3 + 7
		}
		if g.p(2) {
			st.M = []Msg{{N: g.n(3000)}}
		}
		if st.Chunk == 1 {
			st.M = nil
		}
	}
	return st
}

func (g *gen) fileEdits() {
	g.exec(500000)
	g.net(0)
	sc := g.sc
	sc.Boot = "cli"
	n := g.in(2, 6)
	if g.p(12) {
		n = g.in(7, 40)
		sc.MaxSteps += n * 20000
	}
	if g.p(8) {
		sc.P["pad"] = g.pick(500, 1100, 4090, 9000, 70000)
	}
	g.cliCfgs(n)
	sc.FsDelay = g.pick(0, 0, 50, 2000, 50000)
	g.ctl(Step{Op: "write", N: 0}, Step{Op: "boot"})
	for i := 1; i < n; i++ {
		switch g.n(5) {
		case 0, 1:
			g.ctl(Step{Op: "spin", N: g.n(60)})
		case 2:
			g.ctl(Step{Op: "settle", N: 1000000})
		case 3:
			g.ctl(Step{Op: "sleep", N: g.n(5000)})
		}
		if g.p(10) {
			g.ctl(Step{Op: g.str("fslose", "fslose", "fserr")})
		}
		g.ctl(g.writeStep(i))
	}
	if g.p(20) { // the file cannot be watched
		sc.P["watchfail"] = 1
		g.ctlFront(Step{Op: "fsfail", A: g.str("new", "add")})
	}
	for i := g.n(3); i > 0; i-- {
		c := g.client(g.n(n), dialogue{rounds: 1, maxC: 2, maxD: 2})
		c.Expect = "any"
		g.add(c)
	}
	sc.Hangup = "client"
}

func (g *gen) badBody(i int) []byte {
	c := g.sc.Cfgs[i]
	full := fmt.Sprintf("listen = %q\ndatabase-url = %q\n", c.Listen, c.url())
	other := fmt.Sprintf("listen = %q\n", "127.0.0.1:7777")
	switch g.n(10) {
	case 8: // a value of another type
		return []byte(other + "database-url = " + g.str("5", "[\"postgres://x@127.0.0.9:1/y\"]", "true", "1.5") + "\n")
	case 9: // the same key twice
		return []byte(other + "database-url = \"postgres://x@127.0.0.9:1/y\"\n" + g.str("listen", "database-url") + " = \"127.0.0.1:7778\"\n")
	case 0:
		return []byte{}
	case 1: // cut inside the first line: unparsable
		return []byte(full[:1+g.n(len(fmt.Sprintf("listen = %q", c.Listen))-1)])
	case 2: // cut inside the URL
		k := len(fmt.Sprintf("listen = %q\n", c.Listen))
		return []byte(full[:k+16+g.n(8)])
	case 3:
		return []byte("database-url = \"postgres://x@127.0.0.9:1/y\"\n")
	case 4:
		return []byte(other + "database-url = \n")
	case 5:
		return blob(g.rng, g.in(1, 100))
	case 6:
		return []byte("listen = 5000\ndatabase-url = \"postgres://x@127.0.0.9:1/y\"\n")
	default:
		return []byte("# " + full[:len(full)-1] + "\nlisten = \"\"\n")
	}
}

func (g *gen) badFiles() {
	g.exec(500000)
	g.net(0)
	sc := g.sc
	sc.Boot = "cli"
	n := g.in(1, 4)
	g.cliCfgs(n)
	sc.FsDelay = g.pick(0, 0, 50, 2000)
	if g.p(6) { // the program is started with an unusable file
		sc.P["badstart"] = 1
		if g.p(4) {
			g.ctl(Step{Op: "boot"})
		} else {
			g.ctl(Step{Op: "write", A: "raw", B: g.badBody(0)}, Step{Op: "boot"})
		}
		g.ctl(Step{Op: "settle", N: 1000000})
		return
	}
	g.ctl(Step{Op: "write", N: 0}, Step{Op: "boot"})
	settle := Step{Op: "settle", N: 1000000}
	for i := 1; i < n; i++ {
		if g.p(2) {
			g.ctl(settle)
		}
		for k := g.n(3); k > 0; k-- {
			g.ctl(Step{Op: "write", A: "raw", B: g.badBody(i)}, Step{Op: "spin", N: g.n(40)})
		}
		if g.p(10) {
			g.ctl(Step{Op: g.str("fslose", "fserr")})
		}
		g.ctl(g.writeStep(i))
	}
	g.ctl(settle)
	for k := g.in(1, 4); k > 0; k-- {
		g.ctl(Step{Op: "write", A: "raw", B: g.badBody(g.n(n))})
		if g.p(2) {
			g.ctl(Step{Op: "spin", N: g.n(40)})
		} else if g.p(2) {
			g.ctl(settle)
		}
	}
	if g.p(6) {
		g.ctl(Step{Op: "remove"})
	}
	sc.Hangup = "client"
}
