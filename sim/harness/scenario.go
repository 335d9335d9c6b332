//go:build go1.21

package harness

import "github.com/hired/gevulot/zzsim/simnet"

// Step is one action of a scripted party.
type Step struct {
	Op    string `json:"op"`
	N     int    `json:"n,omitempty"`
	M     []Msg  `json:"m,omitempty"`
	Chunk int    `json:"chunk,omitempty"` // 0: one write; -1: one write per message; k: writes of k bytes
	A     string `json:"a,omitempty"`
	B     []byte `json:"b,omitempty"`
}

// Client is a scripted client and what the database does for it.
type Client struct {
	Gate     int     `json:"gate,omitempty"`
	Delay    int     `json:"delay,omitempty"` // microseconds
	Addr     string  `json:"addr,omitempty"`  // "": the current address
	SSL      int     `json:"ssl,omitempty"`
	Pipeline bool    `json:"pipeline,omitempty"` // does not wait for answers during negotiation
	Ver      uint32  `json:"ver,omitempty"`
	Params   []Param `json:"params,omitempty"`
	NoTerm   bool    `json:"noterm,omitempty"`
	Tail     []byte  `json:"tail,omitempty"`
	Pre      []byte  `json:"pre,omitempty"` // raw bytes instead of SSL requests and startup
	Chunk    int     `json:"chunk,omitempty"`
	Cut      int     `json:"cut,omitempty"` // >0: only that many negotiation bytes are sent (<0: none), then EndOp
	EndOp    string  `json:"endop,omitempty"`
	Early    int     `json:"early,omitempty"` // steps of Steps whose bytes are written together with the startup message
	Steps    []Step  `json:"steps,omitempty"`
	DB       []Step  `json:"db,omitempty"`
	Expect   string  `json:"expect,omitempty"` // "served" (default), "refused", "any"
	Cfg      int     `json:"cfg,omitempty"`    // index of the configuration the client names
	NoRead   bool    `json:"noread,omitempty"`
	Role     string  `json:"role,omitempty"`
	MinCfg   int     `json:"mincfg,omitempty"`
}

// Cfg is a configuration of the proxy.
type Cfg struct {
	Listen string `json:"listen"`
	DBName string `json:"dbname"`
	DBAddr string `json:"dbaddr"`
	URL    string `json:"url,omitempty"` // overrides the URL built from the two
	Bad    bool   `json:"bad,omitempty"` // the address cannot be bound
}

// Scenario is everything that is fixed before a run starts.
type Scenario struct {
	Prop    string         `json:"prop"`
	Kind    string         `json:"kind"`
	Boot    string         `json:"boot,omitempty"`
	Net     simnet.Config  `json:"net"`
	Debug   bool           `json:"debug,omitempty"`
	Cfgs    []Cfg          `json:"cfgs,omitempty"`
	Clients []Client       `json:"clients,omitempty"`
	Ctl     []Step         `json:"ctl,omitempty"`
	Hangup  string         `json:"hangup,omitempty"` // how remaining sessions are ended: "client", "db", "none"
	FsDelay int            `json:"fsdelay,omitempty"`
	Ops     [][]Step       `json:"ops,omitempty"` // scripts of the component scenarios
	Data    []Msg          `json:"data,omitempty"`
	Note    string         `json:"note,omitempty"`
	P       map[string]int `json:"p,omitempty"`

	Strat    int  `json:"strat"`
	Mean     int  `json:"mean,omitempty"`
	Depth    int  `json:"depth,omitempty"`
	Horizon  int  `json:"horizon,omitempty"`
	StallP   int  `json:"stallp,omitempty"`
	Lazy     bool `json:"lazy,omitempty"`
	Fine     bool `json:"fine,omitempty"`
	MaxSteps int  `json:"maxsteps,omitempty"`
}

// Outcome is the result of executing a scenario once.
type Outcome struct {
	Class      string         `json:"class"` // "" = property held
	Msg        string         `json:"msg,omitempty"`
	HarnessErr string         `json:"harness_err,omitempty"`
	Hash       uint64         `json:"hash"`
	Steps      int            `json:"steps"`
	Switches   int            `json:"switches"`
	SimNanos   int64          `json:"sim_nanos"`
	Tasks      int            `json:"tasks"`
	Faults     map[string]int `json:"faults,omitempty"`
	Hits       map[string]int `json:"hits,omitempty"`
	Nontrivial bool           `json:"nontrivial"`
	States     []uint64       `json:"-"`
	Trace      []string       `json:"-"`
	Dec        Decisions      `json:"-"`
}
