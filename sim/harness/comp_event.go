//go:build go1.21

package harness

import (
	"fmt"
	"time"

	"github.com/hired/gevulot/pkg/server"
	"github.com/hired/gevulot/zzsim/simnet"
	"github.com/hired/gevulot/zzsim/simrt"
)

// ---------------------------------------------------------------------------------------------------
// Events under concurrent Fire, HasFired and Done.

type evState struct {
	ev      *server.Event
	begun   bool // some Fire call has begun
	fired   bool // somebody has seen that it fired (a Fire returned, HasFired was true or Done was closed)
	closed  bool // Done is closed: a Fire has returned or somebody saw it closed
	winners int
	fires   int // Fire calls that returned
	callsN  int
	waiters int // tasks waiting on Done
}

func (e *env) eventMain() {
	e.w = simnet.W()
	var evs []*evState
	for i := 0; i < e.sc.P["events"]; i++ {
		evs = append(evs, &evState{ev: server.NewEvent()})
	}
	if len(evs) == 0 {
		return
	}
	closedNow := func(ch <-chan struct{}) bool {
		return simrt.Select(0, true, simrt.CaseRecv[struct{}](ch)) == 0
	}
	for i, t := range e.sc.Ops {
		t := t
		simrt.GoNamed(fmt.Sprintf("api:%d", i), func() {
			for _, st := range t {
				k := st.N % len(evs)
				s := evs[k]
				fired, returned := s.fired, s.closed
				switch st.Op {
				case "spin":
					spin(st.N)
				case "fire":
					s.begun = true
					s.callsN++
					ret := s.ev.Fire()
					s.fires++
					s.fired, s.closed = true, true
					e.hit("fired")
					if ret {
						s.winners++
					}
					if s.winners > 1 {
						e.fail("C20", "fired-twice", "%d Fire calls on event %d reported that they fired it", s.winners, k)
					}
					if !s.ev.HasFired() {
						e.fail("C20", "not-fired", "HasFired is false after Fire on event %d returned %v", k, ret)
					}
					if !closedNow(s.ev.Done()) {
						e.fail("C20", "not-done", "Done is not closed after Fire on event %d returned %v", k, ret)
					}
				case "has":
					has := s.ev.HasFired()
					if has && !s.begun {
						e.fail("C20", "phantom", "HasFired is true on event %d, which nobody fired", k)
					}
					if !has && fired {
						e.fail("C20", "unfired", "HasFired is false on event %d, which had been seen fired", k)
					}
					s.fired = s.fired || has
				case "poll":
					c := closedNow(s.ev.Done())
					if c && !s.begun {
						e.fail("C20", "phantom", "Done is closed on event %d, which nobody fired", k)
					}
					if !c && returned {
						e.fail("C20", "undone", "Done is open on event %d, which a Fire call or a closed Done had reported fired", k)
					}
					if c {
						s.fired, s.closed = true, true
						if !s.ev.HasFired() {
							e.fail("C20", "done-not-fired", "Done is closed but HasFired is false on event %d", k)
						}
					}
				case "wait":
					ch := s.ev.Done()
					if st.Chunk > 0 {
						spin(st.Chunk)
					}
					s.waiters++
					simrt.Recv(ch)
					s.waiters--
					if !s.begun {
						e.fail("C20", "phantom", "Done was closed on event %d, which nobody fired", k)
					}
					s.fired, s.closed = true, true
					if !s.ev.HasFired() {
						e.fail("C20", "done-not-fired", "Done is closed but HasFired is false on event %d", k)
					}
				}
			}
		})
	}
	simrt.Quiesce(time.Second)
	for k, s := range evs {
		if s.fires != s.callsN {
			e.fail("C20", "stuck", "a Fire call on event %d does not return: %v", k, stuck())
		}
		if s.callsN > 0 && s.winners != 1 {
			e.fail("C20", "no-winner", "%d Fire calls on event %d returned and none reported that it fired it", s.fires, k)
		}
		if s.callsN > 0 && s.waiters > 0 {
			e.fail("C20", "waiter-left", "%d goroutines still wait for event %d, which has fired", s.waiters, k)
		}
		if s.callsN > 0 != s.ev.HasFired() {
			e.fail("C20", "wrong-state", "HasFired is %v on event %d after %d Fire calls", s.ev.HasFired(), k, s.callsN)
		}
		if s.callsN > 0 != closedNow(s.ev.Done()) {
			e.fail("C20", "wrong-state", "Done is closed: %v on event %d after %d Fire calls", s.callsN == 0, k, s.callsN)
		}
	}
}

func (g *gen) event() {
	sc := g.sc
	sc.Kind = "event"
	sc.P["events"] = g.pick(1, 1, 2)
	for t := g.in(2, 6); t > 0; t-- {
		var ops []Step
		for k := g.in(1, 5); k > 0; k-- {
			op := g.str("fire", "fire", "has", "has", "poll", "wait", "spin")
			ops = append(ops, Step{Op: op, N: g.n(4), Chunk: g.pick(0, 0, 3)})
		}
		sc.Ops = append(sc.Ops, ops)
	}
	g.exec(2000)
	sc.Fine = !g.p(3)
}
