//go:build go1.21

package harness

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"time"
)

// shrinkMain reproduces a violation, minimises it and writes the replay file.
func shrinkMain(a []string) int {
	prop, seed, run, path := a[0], uint64(atoi(a[1])), atoi(a[2]), a[3]
	x, c := runSeeds(seed, run)
	sc := Gen(prop, x)
	o := Execute(sc, Options{Seed: c, Record: true})
	if o.Class == "" || o.HarnessErr != "" {
		fmt.Fprintf(stderr, "run %d of %s does not fail here (%s)\n", run, prop, o.HarnessErr)
		return 2
	}
	sh := &shrinker{class: o.Class, msg: pattern(o.Msg), sc: clone(sc), dec: o.Dec, seed: c, end: time.Now().Add(25 * time.Second)}
	sh.save(path, prop, run)
	sh.scenario()
	sh.decisions()
	sh.save(path, prop, run)
	return 0
}

type shrinker struct {
	class string
	msg   string
	sc    *Scenario
	dec   Decisions
	seed  uint64
	end   time.Time
	runs  int
}

var digits = regexp.MustCompile(`[0-9]+|"[^"]*"`)

// pattern is the part of a message that says what went wrong.
func pattern(m string) string {
	m = digits.ReplaceAllString(m, "#")
	if len(m) > 40 {
		m = m[:40]
	}
	return m
}

func (s *shrinker) same(o *Outcome) bool {
	return o.Class == s.class && o.HarnessErr == "" && pattern(o.Msg) == s.msg
}

// fixed tells the control steps that the expectations of a scenario rest on.
func fixed(l []Step, i int) bool {
	switch op := l[i].Op; op {
	case "config", "write":
		for j := 0; j < i; j++ {
			if l[j].Op == op {
				return false
			}
		}
		return true
	case "spin", "sleep", "close", "close2", "closewait", "start", "serve", "serveconn", "failaccept", "failclose", "lnclose", "partition", "remove",
		"send", "recv", "raw", "rst", "vanish", "closewrite", "stall", "resume", "waiteof", "until-bytes", "until-clients":
		return false
	case "boot", "gate", "settle", "baseline", "dial", "dialclear", "dialslow", "dbdown", "dbup", "dbrst", "occupy", "vacate", "failbind",
		"until-dials", "until-dbconns", "until-estab", "until-listening", "checkserve", "checkstarts", "checksettled", "checkwithin", "endsource", "distclose", "phase":
		return true
	}
	return false
}

func clone(sc *Scenario) *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		die("%v", err)
	}
	out := &Scenario{}
	if err := json.Unmarshal(b, out); err != nil {
		die("%v", err)
	}
	return out
}

func (s *shrinker) save(path, prop string, run int) {
	o := Execute(s.sc, Options{Replay: &s.dec, Trace: true})
	if o.Class == "" {
		fmt.Fprintln(stderr, "the recorded decisions do not reproduce the violation")
		return
	}
	tr := o.Trace
	if len(tr) > 400 {
		tr = append([]string{fmt.Sprintf("... %d earlier lines", len(tr)-400)}, tr[len(tr)-400:]...)
	}
	writeJSON(path, &ReplayFile{Property: prop, Class: o.Class, Message: o.Msg, Run: run, Seed: s.seed, Hash: o.Hash, Decisions: &s.dec, Scenario: s.sc, Trace: tr})
}

func (s *shrinker) timeUp() bool { return time.Now().After(s.end) }

// try accepts a changed scenario if some schedule still violates the property in the same way.
func (s *shrinker) try(mut func(sc *Scenario) bool) bool {
	if s.timeUp() {
		return false
	}
	c := clone(s.sc)
	if !mut(c) {
		return false
	}
	s.runs++
	// first the recorded decisions, then fresh schedules
	o := Execute(c, Options{Replay: &s.dec, Record: true})
	if s.same(o) {
		s.sc, s.dec = c, o.Dec
		return true
	}
	for k := uint64(0); k < 12 && !s.timeUp(); k++ {
		o := Execute(c, Options{Seed: s.seed + k*0x9e37, Record: true})
		if s.same(o) {
			s.sc, s.dec = c, o.Dec
			return true
		}
	}
	return false
}

func (s *shrinker) scenario() {
	half := time.Now().Add(time.Until(s.end) * 6 / 10)
	end := s.end
	s.end = half
	for pass := 0; pass < 3; pass++ {
		changed := false
		net := []func(sc *Scenario) bool{
			func(sc *Scenario) bool { v := sc.Debug; sc.Debug = false; return v },
			func(sc *Scenario) bool { v := sc.Net.SegP != 0; sc.Net.SegP, sc.Net.SegMax = 0, 0; return v },
			func(sc *Scenario) bool { v := sc.Net.LatMax != 0; sc.Net.LatP, sc.Net.LatMax = 0, 0; return v },
			func(sc *Scenario) bool { v := sc.Net.ShortP != 0; sc.Net.ShortP = 0; return v },
			func(sc *Scenario) bool { v := sc.Net.DialMax != 0; sc.Net.DialMax = 0; return v },
			func(sc *Scenario) bool { v := sc.Net.Window != 65536; sc.Net.Window = 65536; return v },
			func(sc *Scenario) bool { v := sc.FsDelay != 0; sc.FsDelay = 0; return v },
			func(sc *Scenario) bool { v := sc.Fine; sc.Fine = false; return v },
		}
		for _, m := range net {
			changed = s.try(m) || changed
		}
		// the last clients first: earlier ones keep their numbers
		for i := len(s.sc.Clients) - 1; i >= 0; i-- {
			i := i
			if hasOp(s.sc.Ctl, "dial") || hasOp(s.sc.Ctl, "until-estab") || s.sc.P["killearly"] > 0 {
				break // every client has its part
			}
			if i == len(s.sc.Clients)-1 {
				changed = s.try(func(sc *Scenario) bool { sc.Clients = sc.Clients[:i]; return true }) || changed
			} else {
				changed = s.try(func(sc *Scenario) bool {
					c := &sc.Clients[i]
					if len(c.Steps)+len(c.DB) == 0 {
						return false
					}
					c.Steps, c.DB, c.Early = nil, nil, 0
					return true
				}) || changed
			}
		}
		changed = s.list(func(sc *Scenario) *[]Step { return &sc.Ctl }) || changed
		for i := range s.sc.Ops {
			i := i
			changed = s.list(func(sc *Scenario) *[]Step { return &sc.Ops[i] }) || changed
		}
		for i := range s.sc.Clients {
			i := i
			changed = s.list(func(sc *Scenario) *[]Step { return &sc.Clients[i].Steps }) || changed
			changed = s.list(func(sc *Scenario) *[]Step { return &sc.Clients[i].DB }) || changed
			changed = s.try(func(sc *Scenario) bool {
				c := &sc.Clients[i]
				v := c.SSL != 0 || c.Delay != 0 || c.Early != 0 || c.Chunk != 0
				c.Delay, c.Early, c.Chunk = 0, 0, 0
				if c.Cut == 0 && sc.Prop != "C09" {
					c.SSL = 0
				}
				return v
			}) || changed
		}
		if len(s.sc.Data) > 0 {
			for k := len(s.sc.Data); k >= 1; k /= 2 {
				for off := 0; off < len(s.sc.Data); {
					off0, k0 := off, k
					if !s.try(func(sc *Scenario) bool {
						e := off0 + k0
						if e > len(sc.Data) {
							e = len(sc.Data)
						}
						sc.Data = append(append([]Msg(nil), sc.Data[:off0]...), sc.Data[e:]...)
						return true
					}) {
						off += k
					} else {
						changed = true
					}
				}
			}
		}
		if !changed || s.timeUp() {
			break
		}
	}
	s.end = end
}

// list removes steps and shortens bulk sends.
func (s *shrinker) list(get func(sc *Scenario) *[]Step) bool {
	changed := false
	for i := len(*get(s.sc)) - 1; i >= 0; i-- {
		i := i
		if s.try(func(sc *Scenario) bool {
			l := get(sc)
			if i >= len(*l) || fixed(*l, i) {
				return false
			}
			*l = append(append([]Step(nil), (*l)[:i]...), (*l)[i+1:]...)
			return true
		}) {
			changed = true
			continue
		}
		for {
			if !s.try(func(sc *Scenario) bool {
				l := get(sc)
				if i >= len(*l) || len((*l)[i].M) < 2 {
					return false
				}
				(*l)[i].M = (*l)[i].M[:len((*l)[i].M)/2]
				return true
			}) {
				break
			}
			changed = true
		}
	}
	return changed
}

// decisions removes scheduling deviations and fault draws that are not needed.
func (s *shrinker) decisions() {
	ok := func(d Decisions) bool {
		o := Execute(s.sc, Options{Replay: &d})
		return s.same(o)
	}
	// draws
	if len(s.dec.Draws) > 0 {
		d := Decisions{Sched: s.dec.Sched, Draws: map[string]int{}}
		if ok(d) {
			s.dec = d
		} else {
			keys := make([]string, 0, len(s.dec.Draws))
			for k := range s.dec.Draws {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			keys = ddmin(keys, func(ks []string) bool {
				d := Decisions{Sched: s.dec.Sched, Draws: map[string]int{}}
				for _, k := range ks {
					d.Draws[k] = s.dec.Draws[k]
				}
				return ok(d)
			}, func() bool { return time.Now().After(s.end.Add(-time.Until(s.end) / 2)) })
			m := map[string]int{}
			for _, k := range keys {
				m[k] = s.dec.Draws[k]
			}
			if d := (Decisions{Sched: s.dec.Sched, Draws: m}); ok(d) {
				s.dec = d
			}
		}
	}
	sched := ddmin(s.dec.Sched, func(x [][2]int) bool { return ok(Decisions{Sched: x, Draws: s.dec.Draws}) }, s.timeUp)
	if d := (Decisions{Sched: sched, Draws: s.dec.Draws}); ok(d) {
		s.dec = d
	}
}

// ddmin removes as many elements as it can while test stays true.
func ddmin[T any](xs []T, test func([]T) bool, stop func() bool) []T {
	n := 2
	for len(xs) > 0 && !stop() {
		size := (len(xs) + n - 1) / n
		reduced := false
		for off := 0; off < len(xs) && !stop(); off += size {
			end := off + size
			if end > len(xs) {
				end = len(xs)
			}
			c := append(append([]T(nil), xs[:off]...), xs[end:]...)
			if test(c) {
				xs = c
				reduced = true
				if n > 2 {
					n--
				}
				break
			}
		}
		if !reduced {
			if size <= 1 {
				break
			}
			n *= 2
		}
	}
	return xs
}
