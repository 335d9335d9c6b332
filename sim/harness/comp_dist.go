//go:build go1.21

package harness

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/hired/gevulot/pkg/server"
	"github.com/hired/gevulot/zzsim/simnet"
	"github.com/hired/gevulot/zzsim/simrt"
)

// ---------------------------------------------------------------------------------------------------
// The configuration store on its own: concurrent scripts of Get, Subscribe, Unsubscribe and Close against a
// source that publishes and ends, with the recorded history checked against a sequential reference model.

// distCfg is a published configuration in the reference model.
type distCfg struct {
	listen, db string
	began      int // step at which the publisher began to hand it over
}

func (c *distCfg) key() string { return c.listen + "|" + c.db }

type distSub struct {
	id      int
	ch      chan *server.Config
	stop    chan struct{} // closed when its receiver is to stop
	back    chan struct{} // closed when Subscribe has returned
	stopped bool
	checks  []string
	lo      int // index of the current configuration when Subscribe began is at least this (-1: none)
	hi      int // and at most this when it returned
	ret     bool
	ok      bool
	cancel  bool // Unsubscribe has been called
	gone    bool // Unsubscribe has returned
	goneAt  int  // deliveries when it was known to be gone (at a quiescent moment)
	must    int  // deliveries up to this configuration are due
	got     []string
	closed  bool
	self    bool // its receiver unsubscribes
	atEnd   bool // Subscribe returned after the source had ended: the store may close before it delivers anything
}

type distCall struct {
	what string
	done bool
	get  bool
	t    string
}

type distEnv struct {
	e       *env
	d       *server.ConfigDistributor
	src     chan *server.Config
	pub     []*distCfg
	queue   []int // configurations to publish (index into sc.Cfgs), -1: end of source
	wl      simrt.WaitList
	idle    bool
	ended   bool // the source has been closed
	known   int  // newest configuration known to be in effect
	started bool
	closing bool
	closed  bool // Close has returned
	over    bool // closed, or source ended and noticed
	subs    []*distSub
	calls   []*distCall
	objs    map[string]*server.Config
}

// want is what a named check answers. A model configuration is identified by its fields only.
func distWant(name string, old, cur *distCfg) bool {
	switch name {
	case "true":
		return true
	case "false":
		return false
	case "first":
		return old == nil
	case "later":
		return old != nil
	case "listen":
		return old == nil || old.listen != cur.listen
	case "db":
		return old == nil || old.db != cur.db
	case "grow":
		return old != nil && len(old.db) < len(cur.db)
	case "oldodd":
		return old != nil && odd(old.db)
	case "odd":
		return odd(cur.db)
	}
	simrt.HarnessBug("unknown check %q", name)
	return false
}

func odd(s string) bool { return s != "" && s[len(s)-1]&1 == 1 }

func distCheck(name string) server.ConfigChangedCheckFn {
	conv := func(c *server.Config) *distCfg {
		if c == nil {
			return nil
		}
		return &distCfg{listen: c.Listen, db: c.DatabaseURL}
	}
	return func(o, n *server.Config) bool {
		if n == nil {
			return true
		}
		return distWant(name, conv(o), conv(n))
	}
}

func (s *distSub) wants(old, cur *distCfg) bool {
	if len(s.checks) == 0 {
		return true
	}
	for _, c := range s.checks {
		if distWant(c, old, cur) {
			return true
		}
	}
	return false
}

func (e *env) distMain() {
	e.w = simnet.W()
	d := &distEnv{e: e, known: -1, objs: map[string]*server.Config{}}
	d.src = simrt.MakeChan(make(chan *server.Config, e.sc.P["chcap"]))
	d.d = server.NewConfigDistributor(d.src)
	simrt.Spawn("publisher", d.publisher)
	phases := 0
	for _, t := range e.sc.Ops {
		if len(t) > 0 && t[0].Op == "phase" && t[0].N >= phases {
			phases = t[0].N + 1
		}
	}
	for ph := 0; ph < phases; ph++ {
		for i, t := range e.sc.Ops {
			if len(t) == 0 || t[0].Op != "phase" || t[0].N != ph {
				continue
			}
			t := t[1:]
			simrt.GoNamed(fmt.Sprintf("api:%d.%d", ph, i), func() { d.script(t) })
		}
		simrt.Quiesce(d.dwell())
		d.quiet(fmt.Sprintf("after phase %d", ph))
	}
	// updates have stopped: everyone must see the last configuration
	if d.known >= 0 && !d.over && !d.closing {
		for i := 0; i < 2; i++ {
			simrt.GoNamed("api:lastget", func() { d.get() })
		}
		simrt.Quiesce(d.dwell())
		d.quiet("at the end")
	}
	simrt.GoNamed("api:close", func() { d.close() })
	simrt.Quiesce(d.dwell())
	d.quiet("after Close")
	simrt.GoNamed("api:late", func() {
		d.get()
		d.subscribe(Step{N: 1})
		d.unsubscribe(d.pick(0), "")
		d.close()
		d.get()
	})
	simrt.Quiesce(d.dwell())
	d.quiet("after calls on the closed store")
}

// dwell is how long a phase is given to come to rest.
func (d *distEnv) dwell() time.Duration {
	if n := d.e.sc.P["patience"]; n > 1 {
		return time.Duration(n) * time.Second
	}
	return time.Second
}

func (d *distEnv) fail(props, class, f string, a ...any) { d.e.fail(props, class, f, a...) }

func (d *distEnv) publisher() {
	for {
		for len(d.queue) == 0 {
			d.idle = true
			d.wl.Wait("publisher idle")
			d.wl.Remove()
		}
		d.idle = false
		i := d.queue[0]
		d.queue = d.queue[1:]
		if d.ended {
			continue
		}
		if i < 0 {
			d.ended = true
			simrt.Close(d.src)
			continue
		}
		c := d.e.sc.Cfgs[i%len(d.e.sc.Cfgs)]
		m := &distCfg{listen: c.Listen, db: c.URL, began: simrt.Steps()}
		d.pub = append(d.pub, m)
		cfg := &server.Config{Listen: c.Listen, DatabaseURL: c.URL}
		if d.e.sc.P["sameptr"] > 0 { // equal configurations are the same object
			if old := d.objs[m.key()]; old != nil {
				cfg = old
			}
			d.objs[m.key()] = cfg
		}
		simrt.SendTo(d.src)(cfg)
	}
}

func (d *distEnv) begin(what string) *distCall {
	d.e.hit("dist-op")
	c := &distCall{what: what}
	d.calls = append(d.calls, c)
	return c
}

func (d *distEnv) script(t []Step) {
	for _, st := range t {
		switch st.Op {
		case "spin":
			spin(st.N)
		case "sleep":
			simrt.Sleep(time.Duration(st.N) * time.Microsecond)
		case "pub":
			for _, i := range st.B {
				d.queue = append(d.queue, int(i))
			}
			d.wl.WakeAll()
		case "end":
			d.queue = append(d.queue, -1)
			d.wl.WakeAll()
		case "get":
			d.get()
		case "sub":
			d.subscribe(st)
		case "unsub":
			d.unsubscribe(d.pick(st.N), st.A)
		case "stopunsub":
			if s := d.pick(st.N); s != nil {
				d.stopRecv(s)
				d.e.w.Fault("receiver-stops")
				spin(st.Chunk)
				d.unsubscribe(s, st.A)
			}
		case "unsub2":
			if s := d.pick(st.N); s != nil {
				simrt.GoNamed("api:unsub2", func() { d.unsubscribe(s, "") })
				d.unsubscribe(s, "")
			}
		case "alien":
			c := d.begin("Unsubscribe (of a channel never subscribed)")
			d.d.Unsubscribe(simrt.MakeChan(make(chan *server.Config)))
			c.done = true
		case "close":
			d.close()
		case "stopclose":
			for _, s := range d.subs {
				d.stopRecv(s)
			}
			d.e.w.Fault("receiver-stops")
			spin(st.Chunk)
			d.close()
		default:
			simrt.HarnessBug("unknown store operation %q", st.Op)
		}
	}
}

// pick returns one of the subscriptions nobody has cancelled yet.
func (d *distEnv) pick(n int) *distSub {
	var l []*distSub
	for _, s := range d.subs {
		if s.ret && s.ok && !s.cancel && !s.self {
			l = append(l, s)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[n%len(l)]
}

func (d *distEnv) stopRecv(s *distSub) {
	if !s.stopped {
		s.stopped = true
		simrt.Close(s.stop)
	}
}

// find returns the published configurations (their indices) with the content.
func (d *distEnv) find(c *server.Config) (lo, hi int) {
	lo, hi = -1, -1
	k := c.Listen + "|" + c.DatabaseURL
	for i, p := range d.pub {
		if p.key() == k {
			if lo < 0 {
				lo = i
			}
			hi = i
		}
	}
	return
}

func (d *distEnv) see(lo int) {
	if lo > d.known {
		d.known = lo
	}
}

func (d *distEnv) get() {
	c := d.begin("Get")
	c.get = true
	known, over := d.known, d.over
	d.started = true
	cfg, err := d.d.Get()
	c.done = true
	d.e.hit("get-returned")
	if err != nil {
		switch {
		case !d.closing && !d.ended:
			d.fail("C18", "get-error", "Get reported %q, but the store was not closed and its source had not ended", err)
		case err != server.ErrConfigDistributorClosed:
			d.fail("C18", "get-error", "Get on a closed store reported %q instead of ErrConfigDistributorClosed", err)
		}
		return
	}
	if over {
		d.fail("C18", "get-closed", "Get called after the store had been closed returned a configuration")
	}
	if cfg == nil {
		d.fail("C18", "get-nil", "Get returned neither a configuration nor an error")
		return
	}
	lo, hi := d.find(cfg)
	if hi < 0 {
		d.fail("C18", "get-unpublished", "Get returned a configuration that nobody published: %q %q", cfg.Listen, cfg.DatabaseURL)
		return
	}
	if hi < known {
		d.fail("C18", "get-stale", "Get returned configuration #%d although #%d had been returned or delivered (or was the settled last one) before the call", hi, known)
	}
	d.see(lo)
}

func (d *distEnv) subscribe(st Step) {
	s := &distSub{id: len(d.subs), lo: d.known, must: -1, self: st.B != nil}
	if st.A != "" {
		s.checks = strings.Split(st.A, ",")
	}
	s.ch = simrt.MakeChan(make(chan *server.Config, st.N))
	s.stop = simrt.MakeChan(make(chan struct{}))
	s.back = simrt.MakeChan(make(chan struct{}))
	limit := -1
	if s.self {
		limit = int(st.B[0])
	}
	d.subs = append(d.subs, s)
	over := d.over
	late := st.N > 0 && st.Chunk == 1
	if !late {
		simrt.Spawn(fmt.Sprintf("receiver %d", s.id), func() { d.receive(s, limit) })
	}
	var fns []server.ConfigChangedCheckFn
	for _, k := range s.checks {
		fns = append(fns, distCheck(k))
	}
	c := d.begin("Subscribe")
	d.started = true
	err := d.d.Subscribe(s.ch, fns...)
	c.done = true
	s.hi = len(d.pub) - 1
	s.ret, s.ok, s.atEnd = true, err == nil, d.ended
	simrt.Close(s.back)
	if late {
		simrt.Spawn(fmt.Sprintf("receiver %d", s.id), func() { d.receive(s, limit) })
	}
	if err != nil {
		if !d.closing && !d.ended {
			d.fail("C17 C18", "subscribe-error", "Subscribe reported %q, but the store was not closed and its source had not ended", err)
		} else if err != server.ErrConfigDistributorClosed {
			d.fail("C18", "subscribe-error", "Subscribe on a closed store reported %q instead of ErrConfigDistributorClosed", err)
		}
	} else if over {
		d.fail("C18", "subscribe-closed", "Subscribe called after the store had been closed reported success")
	}
}

func (d *distEnv) receive(s *distSub, limit int) {
	back := false
	for {
		if limit >= 0 && len(s.got) >= limit && s.ret {
			// it does not want any more: stop receiving, then unsubscribe
			if s.ok {
				d.e.w.Fault("receiver-stops")
				d.stopRecv(s)
				d.unsubscribe(s, "close")
			}
			return
		}
		rc := simrt.CaseRecv[*server.Config](s.ch)
		cases := []simrt.Case{rc, simrt.CaseRecv[struct{}](s.stop)}
		if !back {
			cases = append(cases, simrt.CaseRecv[struct{}](s.back))
		}
		switch simrt.Select(0, false, cases...) {
		case 1:
			return
		case 2:
			back = true
			continue
		}
		cfg, ok := rc.V2()
		if !ok {
			if !s.closed {
				d.fail("C17", "closed-channel", "the store closed the channel of subscriber %d", s.id)
			}
			return
		}
		d.delivered(s, cfg)
	}
}

func (d *distEnv) delivered(s *distSub, cfg *server.Config) {
	d.e.hit("delivered")
	if cfg == nil {
		d.fail("C17", "nil-config", "subscriber %d was sent no configuration at all (nil)", s.id)
		return
	}
	lo, hi := d.find(cfg)
	if hi < 0 {
		d.fail("C17", "unpublished", "subscriber %d was sent a configuration nobody published: %q %q", s.id, cfg.Listen, cfg.DatabaseURL)
		return
	}
	if s.gone && s.goneAt >= 0 {
		d.fail("C17", "after-unsubscribe", "subscriber %d was sent configuration #%d after its Unsubscribe had returned", s.id, hi)
		return
	}
	d.see(lo)
	s.got = append(s.got, cfg.Listen+"|"+cfg.DatabaseURL)
	d.verify(s, false)
}

// expected lists what a subscriber that found configuration k in effect is sent, and for how many of these the
// configuration's index is at most must.
func (d *distEnv) expected(s *distSub, k int) (keys []string, due int) {
	if k >= 0 && s.wants(nil, d.pub[k]) {
		keys = append(keys, d.pub[k].key())
		if k <= s.must {
			due++
		}
	}
	for j := k + 1; j < len(d.pub); j++ {
		var old *distCfg
		if j > 0 {
			old = d.pub[j-1]
		}
		if s.wants(old, d.pub[j]) {
			keys = append(keys, d.pub[j].key())
			if j <= s.must {
				due++
			}
		}
	}
	return
}

// verify compares what a subscriber was sent with the reference model.
func (d *distEnv) verify(s *distSub, final bool) {
	hi := s.hi
	if !s.ret {
		hi = len(d.pub) - 1
	}
	late := false
	var exp []string
	for k := s.lo; k <= hi; k++ {
		want, due := d.expected(s, k)
		if len(s.got) > len(want) {
			continue
		}
		okay := true
		for i, g := range s.got {
			if want[i] != g {
				okay = false
				break
			}
		}
		if !okay {
			continue
		}
		if final && len(s.got) < due {
			late = true
			exp = want[:due]
			continue
		}
		return
	}
	if late {
		d.fail("C17", "not-delivered", "subscriber %d (checks %v) was sent %v; %v are due", s.id, s.checks, s.got, exp)
		return
	}
	want, _ := d.expected(s, s.lo)
	d.fail("C17", "wrong-delivery", "subscriber %d (checks %v) was sent %v; starting with configuration #%d..#%d there is no way to get this (published: %s; expected from the first: %v)",
		s.id, s.checks, s.got, s.lo, hi, d.published(), want)
}

func (d *distEnv) published() string {
	var l []string
	for i, p := range d.pub {
		l = append(l, strconv.Itoa(i)+"="+p.key())
	}
	return strings.Join(l, " ")
}

func (d *distEnv) unsubscribe(s *distSub, then string) {
	if s == nil {
		return
	}
	s.cancel = true
	c := d.begin("Unsubscribe")
	d.d.Unsubscribe(s.ch)
	c.done = true
	first := !s.gone
	s.gone = true
	if first {
		s.goneAt = -1
		if then == "close" && !s.closed {
			// nothing may be sent on it any more, so its owner can close it
			s.closed = true
			simrt.Close(s.ch)
		}
	}
}

func (d *distEnv) close() {
	d.closing = true
	c := d.begin("Close")
	d.d.Close()
	c.done = true
	d.closed, d.over = true, true
}

// quiet checks what must hold when nothing can run any more.
func (d *distEnv) quiet(when string) {
	for _, c := range d.calls {
		if c.done {
			continue
		}
		if c.get && len(d.pub) == 0 && !d.ended && !d.closing {
			d.e.hit("get-waits")
			continue // nothing has been published
		}
		d.fail("C19 C18", "stuck-call", "%s: %s has not returned and nothing can move any more (published %d, source ended %v, closed %v): %v",
			when, c.what, len(d.pub), d.ended, d.closing, stuck())
		return
	}
	if d.ended && d.started || d.closed {
		d.over = true
		for _, b := range simrt.BlockedTasks(simrt.GroupSystem) {
			if !strings.HasPrefix(b.Name, "api:") {
				d.fail("C19", "goroutine-left", "%s: the store is closed but its goroutine %s is still there (%s)", when, b.Name, b.Why)
				return
			}
		}
	}
	quiet := d.idle && len(d.queue) == 0
	if d.started && !d.closing && (quiet || d.ended) {
		d.see(len(d.pub) - 1)
		for _, s := range d.subs {
			if s.ok && s.ret && !s.cancel && !s.stopped && !(d.ended && s.atEnd) {
				s.must = len(d.pub) - 1
			}
		}
	} else if d.started && !d.closing && !quiet {
		d.fail("C17 C19", "source-blocked", "%s: the store does not take configuration #%d from its source: %v", when, len(d.pub)-1, stuck())
		return
	}
	for _, s := range d.subs {
		if s.ok {
			d.verify(s, true)
		}
		if s.gone {
			s.goneAt = len(s.got)
		}
	}
}

func stuck() []string {
	var l []string
	for _, b := range simrt.BlockedTasks(simrt.GroupSystem) {
		l = append(l, b.String())
	}
	return l
}

// ---------------------------------------------------------------------------------------------------

func (g *gen) distributor() {
	sc := g.sc
	sc.Kind = "dist"
	sc.P["chcap"] = g.pick(0, 0, 1, 1, 3)
	n := g.in(1, 9)
	many := g.p(20)
	if many {
		n = g.in(10, 100)
	}
	dup := g.p(4)
	if dup {
		sc.P["sameptr"] = g.n(2)
	}
	for i := 0; i < n; i++ {
		c := Cfg{Listen: fmt.Sprintf("l%d", g.n(3)), URL: fmt.Sprintf("d%s%d", strings.Repeat("x", g.n(3)), g.n(3))}
		if !dup {
			c.Listen += fmt.Sprintf("#%d", i)
			if g.p(2) {
				c.Listen = fmt.Sprintf("l%d", g.n(2))
				c.URL = fmt.Sprintf("d%s#%d", strings.Repeat("x", g.n(3)), i)
			}
		}
		if g.p(12) { // nothing in one of the fields
			if g.p(2) && (dup || strings.Contains(c.URL, "#")) {
				c.Listen = ""
			} else if dup || strings.Contains(c.Listen, "#") {
				c.URL = ""
			}
		}
		sc.Cfgs = append(sc.Cfgs, c)
	}
	// a shared cursor makes sure the configurations are published in order, whoever does it
	next := 0
	pub := func(k int) Step {
		var b []byte
		for ; k > 0 && next < n; k-- {
			b = append(b, byte(next))
			next++
		}
		return Step{Op: "pub", B: b}
	}
	checks := func() string {
		if g.p(2) {
			return ""
		}
		all := []string{"true", "false", "first", "later", "listen", "listen", "db", "db", "grow", "oldodd", "odd"}
		l := []string{all[g.n(len(all))]}
		for g.p(2) && len(l) < 3 {
			l = append(l, all[g.n(len(all))])
		}
		return strings.Join(l, ",")
	}
	sub := func() Step {
		s := Step{Op: "sub", N: g.pick(0, 0, 0, 1, 1, 4), A: checks(), Chunk: g.n(2)}
		if g.p(5) {
			s.B = []byte{byte(g.in(0, 2))}
		}
		return s
	}
	ended := false
	phases := g.in(1, 3)
	for ph := 0; ph < phases; ph++ {
		tasks := g.in(1, 5)
		if many && g.p(2) {
			tasks = g.in(6, 25)
		}
		publishes := g.n(tasks)
		if ph == 0 && next == 0 && g.p(2) {
			// some configurations are there before anyone asks
			sc.Ops = append(sc.Ops, []Step{{Op: "phase", N: ph}, pub(g.in(1, 2)), {Op: "get"}})
			ph++
			phases++
		}
		for t := 0; t < tasks; t++ {
			ops := []Step{{Op: "phase", N: ph}}
			if g.p(3) {
				ops = append(ops, Step{Op: "spin", N: g.pick(1, 5, 30)})
			}
			for k := g.in(1, 4); k > 0; k-- {
				switch g.n(11) {
				case 0, 1:
					ops = append(ops, Step{Op: "get"})
				case 2, 3, 4:
					ops = append(ops, sub())
				case 5:
					ops = append(ops, Step{Op: "unsub", N: g.n(4), A: g.str("", "close", "close")})
				case 6:
					ops = append(ops, Step{Op: "stopunsub", N: g.n(4), Chunk: g.pick(0, 3, 20, 60), A: g.str("", "close")})
				case 7:
					ops = append(ops, Step{Op: g.str("unsub2", "alien"), N: g.n(4)})
				case 8:
					ops = append(ops, Step{Op: "spin", N: g.pick(1, 4, 15, 50)})
				case 9:
					if ph == phases-1 && g.p(2) {
						ops = append(ops, Step{Op: g.str("close", "stopclose"), Chunk: g.pick(0, 3, 20, 60)})
					} else {
						ops = append(ops, Step{Op: "get"})
					}
				case 10:
					ops = append(ops, Step{Op: "sleep", N: g.pick(1, 50)})
				}
			}
			if t == publishes && !ended {
				at := 1 + g.n(len(ops))
				p := []Step{pub(g.in(1, 4))}
				if many {
					p = []Step{pub(g.in(1, 60))}
				}
				if g.p(2) {
					p = append(p, Step{Op: "spin", N: g.pick(1, 8, 40)}, pub(g.in(1, 3)))
				}
				if ph == phases-1 && g.p(4) {
					p = append(p, Step{Op: "end"})
					ended = true
				}
				ops = append(ops[:at:at], append(p, ops[at:]...)...)
			}
			sc.Ops = append(sc.Ops, ops)
		}
	}
	g.exec(20000)
	if many {
		sc.MaxSteps *= 20
	}
}
