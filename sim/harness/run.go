//go:build go1.21

package harness

import (
	"fmt"
	"io"
	"strings"

	log "github.com/sirupsen/logrus"

	"github.com/hired/gevulot/zzsim/shim/fsnotify"
	"github.com/hired/gevulot/zzsim/simnet"
	"github.com/hired/gevulot/zzsim/simrt"
)

func init() {
	log.SetOutput(io.Discard)
	log.SetFormatter(terse{})
	log.StandardLogger().ExitFunc = simrt.OSExit // log.Fatal
}

// Options of one execution.
type Options struct {
	Seed   uint64
	Replay *Decisions
	Record bool
	Trace  bool
}

// terse keeps logging cheap: escaping messages of megabytes takes more time than relaying them.
type terse struct{}

func (terse) Format(e *log.Entry) ([]byte, error) {
	if n := len(e.Message); n > 64 {
		return []byte(e.Message[:64]), nil
	}
	return []byte(e.Message), nil
}

// Execute runs a scenario once.
func Execute(sc *Scenario, o Options) *Outcome {
	cfg := simrt.Config{
		Seed: o.Seed, Strat: sc.Strat, Mean: sc.Mean, Depth: sc.Depth, Horizon: sc.Horizon, StallP: sc.StallP,
		Lazy: sc.Lazy, Fine: sc.Fine, MaxSteps: sc.MaxSteps, Record: o.Record, Trace: o.Trace, Replay: o.Replay,
	}
	log.SetLevel(log.InfoLevel)
	if sc.Debug {
		log.SetLevel(log.DebugLevel)
	}
	log.SetOutput(io.Discard)
	e := &env{sc: sc, hits: map[string]int{}}
	var faults map[string]int
	simrt.OnAlloc, simnet.OnSysRead = nil, nil
	simrt.AllocLimit = 256 << 20
	if sc.P["huge"] > 0 {
		simrt.AllocLimit = 4 << 30
	}
	res := simrt.Run(cfg, func() {
		w := simnet.W()
		faults = w.Faults
		switch sc.Kind {
		case "proxy":
			e.proxyMain()
		case "dist":
			e.distMain()
		case "event":
			e.eventMain()
		case "frame":
			e.frameMain()
		case "send":
			e.sendMain()
		case "pgmeta":
			e.metaMain()
		default:
			simrt.HarnessBug("unknown scenario kind %q", sc.Kind)
		}
	})
	out := &Outcome{
		Hash: res.Hash, Steps: res.Steps, Switches: res.Switches, SimNanos: int64(res.SimTime), Tasks: res.Tasks,
		Hits: e.hits, Faults: faults, States: res.States, Trace: res.Trace, Dec: res.Rec,
	}
	if fsnotify.Coalesced > 0 {
		out.Faults["notify-coalesced"] += fsnotify.Coalesced
	}
	for k, n := range out.Faults {
		if strings.HasPrefix(k, "dial-") && k != "dial-slow" {
			out.Hits["dial-failed"] += n
		}
	}
	switch res.Ended {
	case "main":
	case "fail":
		out.Class, out.Msg = res.FailClass, res.FailMsg
	case "crash":
		if res.Crash.Harness {
			out.HarnessErr = fmt.Sprintf("harness panic in %s: %s\n%s", res.Crash.Task, res.Crash.Value, res.Crash.Stack)
		} else {
			out.Class = "panic"
			out.Msg = fmt.Sprintf("%s panicked: %s [%s]", res.Crash.Task, res.Crash.Value, panicSite(res.Crash.Stack))
		}
	case "steps":
		out.Class, out.Msg = "livelock", fmt.Sprintf("no end after %d steps (%s of simulated time, %d goroutines)", res.Steps, res.SimTime, res.Tasks)
	case "deadlock":
		out.HarnessErr = fmt.Sprintf("the harness itself is blocked: %v", res.Blocked)
	default:
		out.HarnessErr = "run ended: " + res.Ended
	}
	return out
}

// panicSite extracts the first frame of the code under test from a stack trace.
func panicSite(st string) string {
	i := strings.Index(st, "panic(")
	if i < 0 {
		return ""
	}
	lines := strings.Split(st[i:], "\n")
	for k := 1; k < len(lines); k++ {
		l := strings.TrimSpace(lines[k])
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "zzsim/simrt") && !strings.Contains(l, "zzsim/shim") {
			if j := strings.LastIndex(l, " +0x"); j > 0 {
				l = l[:j]
			}
			if j := strings.Index(l, "gevulot/"); j >= 0 {
				l = l[j+len("gevulot/"):]
			}
			return l
		}
	}
	return ""
}
