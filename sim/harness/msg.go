//go:build go1.21

package harness

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"
)

// rng is the generator of scenarios (never used while a simulation runs).
type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *rng) u() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// n returns a number in [0,k).
func (r *rng) n(k int) int {
	if k <= 1 {
		return 0
	}
	return int(r.u() % uint64(k))
}

// in returns a number in [a,b].
func (r *rng) in(a, b int) int { return a + r.n(b-a+1) }

// p is true one time in k.
func (r *rng) p(k int) bool { return r.n(k) == 0 }

func (r *rng) pick(xs ...int) int { return xs[r.n(len(xs))] }

func (r *rng) str(xs ...string) string { return xs[r.n(len(xs))] }

// Msg describes one protocol message (or raw bytes).
type Msg struct {
	T   byte   `json:"t,omitempty"` // message type
	K   string `json:"k,omitempty"` // form of the body
	N   int    `json:"n,omitempty"` // size
	S   uint64 `json:"s,omitempty"` // content seed
	Raw []byte `json:"raw,omitempty"`
}

func frame(t byte, body []byte) []byte {
	b := make([]byte, 5, 5+len(body))
	b[0] = t
	binary.BigEndian.PutUint32(b[1:], uint32(len(body)+4))
	return append(b, body...)
}

func i32(v int) []byte { var b [4]byte; binary.BigEndian.PutUint32(b[:], uint32(v)); return b[:] }
func i16(v int) []byte { var b [2]byte; binary.BigEndian.PutUint16(b[:], uint16(v)); return b[:] }

// text makes a string without a terminator: mostly printable, sometimes any bytes or blanks within and around.
func text(r *rng, n int) []byte {
	b := make([]byte, n)
	switch r.n(8) {
	case 0:
		for i := range b {
			b[i] = byte(1 + r.n(255))
		}
	case 1:
		for i := range b {
			b[i] = byte(33 + r.n(94))
			if i == 0 || i == n-1 || r.n(4) == 0 {
				b[i] = " \t\n\r  \v\xa0"[r.n(8)]
			}
		}
	default:
		for i := range b {
			b[i] = byte(33 + r.n(94))
		}
	}
	return b
}

func blob(r *rng, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u())
	}
	return b
}

func cstr(r *rng, n int) []byte { return append(text(r, n), 0) }

// Bytes builds the message.
func (m Msg) Bytes() []byte {
	if m.Raw != nil {
		return m.Raw
	}
	r := newRng(m.S ^ uint64(m.T)<<32)
	var b []byte
	switch m.K {
	case "empty":
	case "cstr": // one string
		b = cstr(r, m.N)
	case "cstr+": // a string and something behind its terminator
		b = append(cstr(r, m.N), blob(r, 1+r.n(9))...)
	case "blob":
		b = blob(r, m.N)
	case "fill": // the same for very large ones
		b = make([]byte, m.N)
		k := copy(b, blob(r, 4096))
		for k < len(b) {
			k += copy(b[k:], b[:k])
		}
	case "i32":
		b = i32(int(int32(r.u())))
	case "auth":
		switch m.N {
		case 0, 2, 7, 9:
			b = i32(m.N)
		case 3:
			b = i32(3)
		case 5:
			b = append(i32(5), blob(r, 4)...)
		case 8:
			b = append(i32(8), blob(r, r.n(30))...)
		case 10:
			b = append(i32(10), []byte("SCRAM-SHA-256-PLUS\x00SCRAM-SHA-256\x00\x00")...)
		case 11, 12:
			b = append(i32(m.N), text(r, 10+r.n(60))...)
		default:
			b = append(i32(m.N), blob(r, r.n(10))...)
		}
	case "key":
		b = append(i32(int(r.u()>>40)), i32(int(int32(r.u())))...)
	case "kv":
		b = append(cstr(r, 1+r.n(12)), cstr(r, m.N)...)
	case "byte":
		b = []byte{"ITE"[r.n(3)]}
	case "row": // DataRow with NULL and empty values
		cols := 1 + r.n(6)
		if r.n(12) == 0 {
			cols = 0
		}
		b = i16(cols)
		left := m.N
		for i := 0; i < cols; i++ {
			switch r.n(4) {
			case 0:
				b = append(b, i32(-1)...)
			case 1:
				b = append(b, i32(0)...)
			default:
				k := left
				if i < cols-1 {
					k = r.n(left + 1)
				}
				left -= k
				b = append(b, i32(k)...)
				b = append(b, blob(r, k)...)
			}
		}
	case "rowdesc":
		cols := r.n(5)
		b = i16(cols)
		for i := 0; i < cols; i++ {
			b = append(b, cstr(r, r.n(12))...)
			b = append(b, i32(int(r.u()>>36))...)
			b = append(b, i16(r.n(1600))...)
			b = append(b, i32(int(r.u()>>36))...)
			b = append(b, i16(r.pick(1, 2, 4, 8, -1, -2))...)
			b = append(b, i32(r.pick(-1, 4, 68, 260))...)
			b = append(b, i16(r.n(2))...)
		}
	case "fields": // ErrorResponse, NoticeResponse
		for _, c := range "SVCMDHW" {
			if r.n(2) == 0 || c == 'M' {
				b = append(b, byte(c))
				n := r.n(20)
				if c == 'M' {
					n = m.N
				}
				b = append(b, cstr(r, n)...)
			}
		}
		b = append(b, 0)
	case "sqlerr": // ErrorResponse, NoticeResponse as PostgreSQL sends them
		sev := []string{"FATAL", "FATAL", "ERROR", "PANIC", "WARNING", "NOTICE", "LOG"}[r.n(7)]
		b = append(b, "S"+sev+"\x00V"+sev+"\x00C"+sqlStates[r.n(len(sqlStates))]+"\x00M"...)
		b = append(b, cstr(r, m.N)...)
		if r.n(2) == 0 {
			b = append(b, "Fpostgres.c\x00L3192\x00RProcessInterrupts\x00"...)
		}
		b = append(b, 0)
	case "tag": // CommandComplete
		b = append(append(b, tags[r.n(len(tags))]...), 0)
	case "query": // Query texts that mean something
		b = append(append(b, queries[r.n(len(queries))]...), 0)
	case "setting": // ParameterStatus
		b = append(b, settings[r.n(len(settings))]...)
		b = append(b, 0)
	case "nparse": // Parse of a real statement
		b = append(cstr(r, r.n(3)), queries[r.n(len(queries))]...)
		b = append(b, 0, 0, 0)
	case "negotiate":
		b = append(i32(r.n(3)), i32(2)...)
		b = append(b, cstr(r, 5)...)
		b = append(b, cstr(r, 7)...)
	case "notify":
		b = append(i32(int(r.u()>>40)), cstr(r, 1+r.n(8))...)
		b = append(b, cstr(r, m.N)...)
	case "parse":
		b = append(cstr(r, r.n(6)), cstr(r, m.N)...)
		b = append(b, i16(2)...)
		b = append(b, i32(23)...)
		b = append(b, i32(25)...)
	case "bind":
		b = append(cstr(r, r.n(6)), cstr(r, r.n(6))...)
		b = append(b, i16(1)...)
		b = append(b, i16(r.n(2))...)
		b = append(b, i16(2)...)
		b = append(b, i32(-1)...)
		b = append(b, i32(m.N)...)
		b = append(b, blob(r, m.N)...)
		b = append(b, i16(0)...)
	case "execute":
		b = append(cstr(r, r.n(6)), i32(r.n(100))...)
	case "describe":
		b = append([]byte{"SP"[r.n(2)]}, cstr(r, r.n(8))...)
	case "copyresp":
		b = append([]byte{byte(r.n(2))}, i16(2)...)
		b = append(b, i16(0)...)
		b = append(b, i16(1)...)
	case "sasl":
		b = append([]byte("SCRAM-SHA-256\x00"), i32(m.N)...)
		b = append(b, text(r, m.N)...)
	default:
		panic("unknown message form " + m.K)
	}
	return frame(m.T, b)
}

func (m Msg) String() string {
	if m.Raw != nil {
		return fmt.Sprintf("raw[%d]", len(m.Raw))
	}
	return fmt.Sprintf("%q/%s/%d", m.T, m.K, m.N)
}

var sqlStates = []string{"57P01", "57P02", "57P03", "53300", "28P01", "28000", "3D000", "08006", "08P01", "25P03", "40001", "40P01", "57014", "23505", "42601", "00000", "XX000"}

var tags = []string{"SELECT 1", "SELECT 0", "INSERT 0 5", "UPDATE 3", "DELETE 0", "BEGIN", "COMMIT", "ROLLBACK", "COPY 7", "SET", "LISTEN", "DISCARD ALL", "START_REPLICATION", "", "MOVE 4"}

var queries = []string{"BEGIN", "begin;", "COMMIT", "ROLLBACK", "SELECT 1;", "SELECT 1; SELECT 2", "", ";", "-- ping", "COPY t FROM STDIN", "copy t to stdout",
	"SET client_encoding = 'LATIN1'", "SET search_path TO x", "DISCARD ALL", "LISTEN c", "SELECT pg_terminate_backend(1)", "SHOW server_version", "PREPARE TRANSACTION 'x'",
	"START_REPLICATION 0/0", "DROP DATABASE app", "\\c other", "SELECT current_database()", "CANCEL", "IDENTIFY_SYSTEM"}

var settings = []string{"client_encoding\x00UTF8", "client_encoding\x00LATIN1", "server_version\x0014.5", "server_version\x009.6devel", "integer_datetimes\x00on", "TimeZone\x00UTC",
	"standard_conforming_strings\x00off", "is_superuser\x00on", "session_authorization\x00alice", "in_hot_standby\x00on", "application_name\x00", "DateStyle\x00ISO, MDY"}

type form struct {
	t byte
	k string
}

var frontForms = []form{
	{'Q', "cstr"}, {'Q', "cstr"}, {'Q', "cstr"}, {'Q', "cstr+"}, {'P', "parse"}, {'B', "bind"}, {'D', "describe"}, {'E', "execute"},
	{'S', "empty"}, {'C', "describe"}, {'F', "blob"}, {'H', "empty"}, {'p', "cstr"}, {'p', "sasl"}, {'p', "blob"}, {'d', "blob"},
	{'c', "empty"}, {'f', "cstr"}, {'d', "blob"}, {'Z', "blob"}, {'w', "blob"}, {'Q', "query"}, {'Q', "query"}, {'P', "nparse"}, {'Q', "blob"}, {0, "blob"}, {'S', "blob"},
	{0x80, "blob"}, {0xc3, "cstr"}, {0xff, "blob"},
}

var backForms = []form{
	{'R', "auth"}, {'R', "auth"}, {'K', "key"}, {'S', "kv"}, {'Z', "byte"}, {'T', "rowdesc"}, {'D', "row"}, {'D', "row"}, {'D', "row"},
	{'C', "cstr"}, {'I', "empty"}, {'E', "fields"}, {'N', "fields"}, {'A', "notify"}, {'1', "empty"}, {'2', "empty"}, {'3', "empty"},
	{'n', "empty"}, {'s', "empty"}, {'t', "blob"}, {'G', "copyresp"}, {'H', "copyresp"}, {'W', "copyresp"}, {'d', "blob"}, {'c', "empty"},
	{'V', "blob"}, {'v', "negotiate"}, {'D', "blob"}, {'T', "blob"}, {'E', "blob"}, {'S', "cstr"}, {'K', "blob"}, {'R', "blob"}, {'~', "blob"},
	{'E', "sqlerr"}, {'E', "sqlerr"}, {'N', "sqlerr"}, {'C', "tag"}, {'C', "tag"}, {'S', "setting"}, {'S', "setting"},
	{'Z', "blob"}, {'C', "cstr+"}, {'N', "blob"}, {'I', "blob"}, {'X', "blob"}, {'p', "blob"}, {0x81, "blob"}, {0xfe, "empty"},
}

func (r *rng) msg(fs []form, big int) Msg {
	f := fs[r.n(len(fs))]
	m := Msg{T: f.t, K: f.k, S: r.u() >> 16}
	switch f.k {
	case "auth":
		m.N = r.pick(0, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 12, 77)
	case "empty", "key", "byte", "rowdesc", "negotiate", "execute", "describe", "copyresp":
	default:
		m.N = r.n(40)
		if r.p(8) {
			m.N = r.n(600)
		}
		if big > 0 && r.p(12) {
			m.N = r.n(big)
		}
	}
	return m
}

func (r *rng) msgs(fs []form, k, big int) []Msg {
	var out []Msg
	for i := 0; i < k; i++ {
		out = append(out, r.msg(fs, big))
	}
	return out
}

// completePrefix returns the length of the longest prefix of b that consists of complete messages, and
// whether the remainder starts with a message whose length field is impossible.
func completePrefix(b []byte) (int, bool) {
	off := 0
	for {
		if len(b)-off < 5 {
			return off, false
		}
		n := int(int32(binary.BigEndian.Uint32(b[off+1:])))
		if n < 4 {
			return off, true
		}
		if len(b)-off < n+1 {
			return off, false
		}
		off += n + 1
	}
}

// Param is a startup parameter.
type Param struct{ K, V string }

// MarshalJSON keeps bytes that are not UTF-8.
func (p Param) MarshalJSON() ([]byte, error) {
	return json.Marshal([2]string{latin1(p.K), latin1(p.V)})
}

// UnmarshalJSON is the inverse of MarshalJSON.
func (p *Param) UnmarshalJSON(b []byte) error {
	var s [2]string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	for i := range s {
		var t []byte
		for _, c := range s[i] {
			t = append(t, byte(c))
		}
		s[i] = string(t)
	}
	p.K, p.V = s[0], s[1]
	return nil
}

func latin1(s string) string {
	r := make([]rune, 0, len(s))
	for _, c := range []byte(s) {
		r = append(r, rune(c))
	}
	return string(r)
}

func startupBytes(ver uint32, ps []Param, term bool, tail []byte) []byte {
	var b []byte
	b = append(b, i32(int(ver))...)
	for _, p := range ps {
		b = append(b, p.K...)
		b = append(b, 0)
		b = append(b, p.V...)
		b = append(b, 0)
	}
	if term {
		b = append(b, 0)
	}
	b = append(b, tail...)
	return append(i32(len(b)+4), b...)
}

var sslRequest = []byte{0, 0, 0, 8, 0x04, 0xd2, 0x16, 0x2f}

// parseStartup reads a startup packet the way PostgreSQL does; ok is false if PostgreSQL would reject its layout.
func parseStartup(b []byte) (ver uint32, ps []Param, ok bool) {
	if len(b) < 8 {
		return 0, nil, false
	}
	ver = binary.BigEndian.Uint32(b[4:])
	off := 8
	for off < len(b) {
		k, n := cs(b[off:])
		if n == 0 {
			return ver, ps, false
		}
		if k == "" {
			break
		}
		v, m := cs(b[off+n:])
		if m == 0 {
			return ver, ps, false
		}
		ps = append(ps, Param{k, v})
		off += n + m
	}
	return ver, ps, off == len(b)-1
}

func cs(b []byte) (string, int) {
	for i, c := range b {
		if c == 0 {
			return string(b[:i]), i + 1
		}
	}
	return "", 0
}

// effectiveDB is the database PostgreSQL would open for these parameters ("*": all of them, by physical replication).
func effectiveDB(ps []Param) string {
	db, user, walsender, logical := "", "", false, false
	for _, p := range ps {
		switch p.K {
		case "database":
			db = p.V
		case "user":
			user = p.V
		case "replication":
			switch v := strings.ToLower(p.V); v {
			case "t", "tr", "tru", "true", "y", "ye", "yes", "on", "1":
				walsender = true
			default:
				walsender = false
			}
			if p.V == "database" {
				walsender, logical = true, true
			}
		}
	}
	if walsender && !logical {
		return "*"
	}
	if db == "" {
		return user
	}
	return db
}
