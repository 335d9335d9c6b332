//go:build go1.21

package harness

type budget struct{ runs, ms int }

func budgetOf(prop, tier string) budget {
	if tier == "thorough" {
		return budget{100000000, 600000}
	}
	return budget{6000000, 35000}
}

// what a run must have reached to count for its property
var wanted = map[string][]string{
	"C01": {"settled-session"}, "C02": {"settled-session"}, "C03": {"hangup-delivery"}, "C04": {"settled-session"},
	"C05": {"hangup-ends"}, "C06": {"settled-session"}, "C07": {"hostile"}, "C08": {"refusal", "established"},
	"C09": {"ssl-answered"}, "C10": {"refusal", "dial-failed"}, "C11": {"close-returned"}, "C12": {"close-returned"},
	"C13": {"listeners-checked"}, "C14": {"changed-under-session"}, "C15": {"established"}, "C16": {"accept-errors"},
	"C17": {"delivered"}, "C18": {"get-returned"}, "C19": {"dist-op"}, "C20": {"fired"}, "C21": {"probe-served"},
	"C22": {"bad-file"}, "C23": {"frame-read"}, "C24": {"sent"}, "C25": {"meta-answer"}, "C28": {"held-back"},
}

func nontrivial(prop string, o *Outcome) bool {
	for _, k := range wanted[prop] {
		if o.Hits[k] > 0 {
			return true
		}
	}
	return false
}

func nontrivialRule(prop string) string {
	return "a run is non-trivial if it reached one of the situations " + join(wanted[prop])
}

func join(xs []string) string {
	s := ""
	for i, x := range xs {
		if i > 0 {
			s += ", "
		}
		s += x
	}
	return s
}

// group is the kind of scenario that decides a property.
func group(prop string) string {
	switch prop {
	case "C17", "C18", "C19":
		return "distributor"
	case "C20":
		return "event"
	case "C23", "C24":
		return "pg"
	case "C25":
		return "pgmeta"
	}
	return "proxy"
}

func realComponents(prop string) []string {
	switch group(prop) {
	case "distributor":
		return []string{"pkg/server ConfigDistributor", "pkg/server config types and their validation"}
	case "event":
		return []string{"pkg/server Event"}
	case "pg":
		return []string{"pkg/pg Conn, frame readers, message parsers and encoders"}
	case "pgmeta":
		return []string{"pkg/pgmeta", "database/sql", "github.com/lib/pq (only its import of net replaced)", "pkg/pg DSN parsing"}
	}
	return []string{"pkg/server", "pkg/pg", "pkg/cli (when the run boots through the program's entry point or the file watcher)",
		"golang.org/x/sync/errgroup", "logrus (its real locking on simulated locks; a terse formatter)", "kingpin and toml (boot through the entry point)", "os files in a scratch directory"}
}

func stubComponents(prop string) []string {
	base := []string{"goroutine scheduler, channels, select, sync, sync/atomic, context (simulated)", "clock and timers (simulated)"}
	switch group(prop) {
	case "distributor":
		return append(base, "source of configurations and subscribers (scripted)")
	case "event":
		return append(base, "callers (scripted)")
	case "pg":
		return append(base, "TCP connections (simulated)", "peer (scripted)")
	case "pgmeta":
		return append(base, "TCP connections (simulated)", "PostgreSQL (emulator of the wire protocol with an evaluator for queries on pg_class, pg_namespace and current_database)")
	}
	return append(base, "TCP (simulated: segmentation, latency, bounded buffers, resets, refused and hanging dials, bind and accept errors)",
		"fsnotify (simulated notification of real file changes: delayed, merged, split)", "PostgreSQL server and clients (scripted; bytes are what is checked)", "process exit (recorded)")
}

func assumptions(prop string) []string {
	a := []string{
		"executions are sequentially consistent: a context switch can happen before every statement and at every synchronisation and I/O operation, but weaker memory orders of racy code are not modelled",
		"a goroutine that never blocks on the simulator (a pure computation) is atomic between statements",
		"the search is seeded and bounded by time: a violation that needs a rarer schedule than those reached stays unseen",
	}
	switch group(prop) {
	case "pgmeta":
		a = append(a, "database/sql keeps its real mutexes, which are never held across simulated I/O by one goroutine and wanted by another", "queries are limited to what the emulator's SQL evaluator understands (an unknown query is answered like a broken harness, not like a violation)")
	case "proxy":
		a = append(a, "simulated TCP delivers in order without loss until a reset; a reset discards what the receiver has not read yet", "files are rewritten in place, as the file watcher of the program expects (saving by renaming is outside the properties)")
	}
	return a
}
