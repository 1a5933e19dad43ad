package harness

import (
	"fmt"
	"strings"

	"verif.local/dst/rt"
)

// ---- keys and values

var oddKeys = []string{"caf\u00e9", "wide\u3000space", "nb\u00a0sp", "nel\u0085x", "tab\tkey", "del\x7f", "e\u2028m"}

var badTextKeys = []string{"", "a b", " lead", "trail ", "cr\rx", "nl\nx", "crlf\r\nget k0", "inj\r\nset k0 0 0 3\r\nBAD",
	"k0 k1", "nul\x00x", "x\r\nflush_all", "s 0 0 1\r\nx\r\nset k0 0 0 1"}

func longKey(n int) string { return strings.Repeat("L", n) }

// wildKeys are possible in every protocol.
var wildKeys = []string{"K0", "k0", "k00", "k", "K", "a:b", "a:b:c", "%s", "%d%n%%!", "100%", "$x", "{}", "END", "VALUE", "STORED", "get", "k0,k1", "0", "00", "-1",
	"a=b", "~", "a/b", "a/b/c", "\\r\\n", "'q'", "\"q\"", "#", "##", "caf\u00e8", "cafe\u0301", "\u65e5\u672c", "\xff\xfe", "t0", "c1", "MN", "EN", "HD", "NF", "v", "q",
	longKey(249) + "a", longKey(249) + "b", longKey(128) + "a", longKey(128) + "b", longKey(64), longKey(63), "kkkkkkkkkkkkkkkkA", "kkkkkkkkkkkkkkkkB", "a*", "a?", "[a]", "a\\ b"[:2]}

// keyName is the name of key i, plain or wild.
func (e *Env) keyName(i int) string {
	if e.names == nil {
		e.names = map[int]string{}
		if e.P.N(3) == 2 {
			e.W.Count("probe.wild_keys")
			for j, w := range e.perm(len(wildKeys))[:12] {
				e.names[j] = wildKeys[w]
			}
		}
	}
	if n, ok := e.names[i]; ok {
		return n
	}
	if i == 7 {
		return longKey(250)
	}
	return fmt.Sprintf("k%d", i)
}

// badKey returns a key the protocol cannot carry.
func (e *Env) badKey(proto int) string {
	if proto == Bin {
		return []string{"", longKey(251), longKey(300), longKey(65536), longKey(65538), longKey(70000)}[e.P.N(6)]
	}
	n := e.P.N(len(badTextKeys) + 3)
	switch n - len(badTextKeys) {
	case 0:
		return longKey(251)
	case 1:
		return longKey(2000)
	case 2:
		return longKey(9000)
	}
	return badTextKeys[n]
}

// value makes a unique value naming its key, so that a reply given to the
// wrong call is recognisable.
func (e *Env) value(key string, id int) string {
	k := key
	if len(k) > 12 {
		k = k[:12]
	}
	base := fmt.Sprintf("%s#%d:", k, id)
	if e.big && e.P.N(4) == 3 {
		e.W.Count("probe.big_value")
		return base + strings.Repeat("B", []int{65536 - len(base), 65530, 200000, 1<<20 - 400 - len(base)}[e.P.N(4)])
	}
	switch e.P.N(10) {
	case 0, 1, 2, 3:
		return base
	case 4:
		return base + "\r\nEND\r\nVALUE " + k + " 0 1 9\r\nx\r\nHD\r\nMN\r\nSTORED\r\n"
	case 5:
		b := make([]byte, 64)
		for i := range b {
			b[i] = byte(e.P.N(256))
		}
		return base + string(b)
	case 6:
		return base + "\x81\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" + strings.Repeat("\x00", 12)
	case 7:
		return base + strings.Repeat("v", 100+e.P.N(4000))
	case 8:
		return base + strings.Repeat("\r\n", 1+e.P.N(5))
	}
	return base + strings.Repeat("w", []int{4070, 4096 - len(base), 5000, 9000, 20000}[e.P.N(5)])
}

// anyValue also makes values that name nothing: empty ones, and ones that
// look like protocol.
func (e *Env) anyValue(key string, id int) string {
	if e.P.N(6) == 0 {
		v := []string{"", "", "", "\r\n", "E", "\n", "END\r\n", "0", "\x00"}[e.P.N(9)]
		if v == "" {
			e.W.Count("probe.empty_value")
		}
		return v
	}
	return e.value(key, id)
}

var flagChoices = []uint32{0, 1, 0xdeadbeef, 1 << 31, 0xffffffff, 65536, 0x01020304, 10}

func (e *Env) flags(k *Call) {
	if e.P.N(3) == 0 {
		k.FlagNil = e.P.Bool()
		return
	}
	k.Flags = flagChoices[e.P.N(len(flagChoices))]
}

// ---- operations

type opWeights map[string]int

var opOrder = []string{"get", "multi", "set", "cas", "add", "replace", "delete", "incr", "decr", "touch", "flush", "version", "reconnect", "close"}

func (e *Env) pickOp(w opWeights) string {
	ws := make([]int, len(opOrder))
	for i, o := range opOrder {
		ws[i] = w[o]
	}
	return opOrder[e.P.W(ws...)]
}

func (w opWeights) with(op string, n int) opWeights {
	x := opWeights{}
	for k, v := range w {
		x[k] = v
	}
	x[op] = n
	return x
}

var fullMix = opWeights{"get": 6, "multi": 4, "set": 6, "cas": 4, "add": 3, "replace": 3, "delete": 3, "incr": 3, "decr": 2, "touch": 2, "flush": 1, "version": 2}

// session is one caller's private state.
type session struct {
	c    *Cl
	toks map[string]uint64 // token of the last read per key
	vals map[string]string
}

func newSession(c *Cl) *session {
	return &session{c: c, toks: map[string]uint64{}, vals: map[string]string{}}
}

// next generates the next call.
type genOpt struct {
	W       opWeights
	Keys    int
	Ctr     int // the first Ctr keys are counters
	BadP    int // per mille of calls with an impossible key
	OddP    int
	Exp     func() int
	BigExp  bool
	MaxOver int // per mille of values above the server's limit
}

func (s *session) next(g genOpt) *Call {
	e := s.c.E
	k := &Call{Op: e.pickOp(g.W)}
	ctr := false
	switch k.Op {
	case "flush", "version", "reconnect", "close":
		return k
	case "incr", "decr":
		ctr = g.Ctr > 0 && e.P.N(5) != 4
	default:
		ctr = g.Ctr > 0 && e.P.N(5) == 4
	}
	var ki int
	if ctr {
		ki = e.P.N(g.Ctr)
	} else {
		ki = g.Ctr
		if g.Keys > g.Ctr {
			ki += e.P.N(g.Keys - g.Ctr)
		}
	}
	k.Key = e.keyName(ki)
	if g.OddP > 0 && e.P.P(g.OddP) {
		k.Key = oddKeys[e.P.N(len(oddKeys))]
		k.OddKey = true
	}
	if g.BadP > 0 && e.P.P(g.BadP) {
		k.Key = e.badKey(s.c.Proto)
		k.BadKey = true
		e.W.Count("probe.impossible_key")
	}
	expOf := func() int {
		if g.Exp != nil {
			return g.Exp()
		}
		return []int{0, 0, 0, 100000}[e.P.N(4)]
	}
	switch k.Op {
	case "multi":
		perm := e.perm(g.Keys)
		n := 1 + e.P.N(len(perm))
		for _, i := range perm[:n] {
			k.Keys = append(k.Keys, e.keyName(i))
		}
		if k.BadKey || k.OddKey {
			k.Keys[e.P.N(n)] = k.Key
		}
		k.Key = ""
	case "set", "add", "replace", "cas":
		id := len(e.Calls)*100 + e.P.N(100)
		if ctr && k.Op != "cas" {
			k.Val = fmt.Sprint([]uint64{0, 5, 9, 99, 100, 1 << 40, 1<<63 - 5, 1<<63 + 7, ^uint64(0) - 5, 1 << 32}[e.P.N(10)])
		} else {
			k.Val = e.anyValue(k.Key, id)
		}
		if g.MaxOver > 0 && e.P.P(g.MaxOver) {
			k.Val += strings.Repeat("x", s.c.Node.MaxItem)
			e.W.Count("probe.oversized_value")
		}
		e.flags(k)
		k.Exp = expOf()
		if k.Op == "cas" {
			if t := s.toks[k.Key]; t != 0 {
				k.Tok = t
			} else {
				k.Op = "set"
			}
		}
	case "incr", "decr":
		k.Delta = []int{1, 1, 2, 7, 10, 1000, 1 << 33, 0, 1<<63 - 1}[e.P.N(9)]
		k.Exp = []int{-1, 0, 0, 100000}[e.P.N(4)]
	case "touch":
		k.Exp = expOf()
	}
	return k
}

func (e *Env) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - e.P.N(i+1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// learn keeps the tokens of successful reads.
func (s *session) learn(k *Call) {
	if k.Cls != "" {
		return
	}
	switch k.Op {
	case "get":
		s.toks[k.Key] = k.Item.Cas
		s.vals[k.Key] = string(k.Item.Value)
	case "multi":
		for _, i := range k.Items {
			if i != nil {
				s.toks[i.Key] = i.Cas
				s.vals[i.Key] = string(i.Value)
			}
		}
	}
}

func dur(p *rt.Stream, lo, hi rt.Duration) rt.Duration {
	return lo + (hi-lo)*rt.Duration(p.N(64))/63
}
