package node

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"
)

// Req is one parsed request. run executes it and returns the reply bytes.
type Req struct {
	Proto string // "text", "meta" or "bin"
	Op    string
	Key   string
	Keys  []string
	Size  int // bytes the request occupied
	run   func() []byte
	errFn func(code int) []byte
	quit  bool
	cuts  []int // where the items of the reply to a get end
	// Outcome is what the reply said: hit, miss, stored, exists, notstored,
	// notfound, ok, error.
	Outcome string
	Hits    []string
	Num     uint64
	Bad     bool // not a well-formed request
}

// Session parses one connection.
type Session struct {
	S      *Store
	buf    []byte
	proto  byte
	Closed bool
}

// Feed appends bytes from the client.
func (c *Session) Feed(b []byte) { c.buf = append(c.buf, b...) }

// Buffered is the number of bytes not consumed yet.
func (c *Session) Buffered() int { return len(c.buf) }

// Next returns the next complete request, or nil.
func (c *Session) Next() *Req {
	if c.Closed || len(c.buf) == 0 {
		return nil
	}
	if c.proto == 0 {
		if c.buf[0] == 0x80 {
			c.proto = 'b'
		} else {
			c.proto = 't'
		}
	}
	if c.proto == 'b' {
		return c.nextBin()
	}
	return c.nextText()
}

func (r *Req) simple(outcome, reply string) func() []byte {
	return func() []byte { r.Outcome = outcome; return []byte(reply) }
}

var textErrs = []string{
	"SERVER_ERROR out of memory storing object\r\n",
	"SERVER_ERROR busy\r\n",
	"SERVER_ERROR temporary failure\r\n",
	"CLIENT_ERROR bad command line format\r\n",
	"ERROR\r\n",
	"SERVER_ERROR backend NOT_FOUND STORED EXISTS\r\n",
}

var binErrs = []struct {
	code uint16
	msg  string
}{
	{0x82, "Out of memory"},
	{0x85, "Server busy"},
	{0x86, "Temporary failure"},
	{0x04, "Invalid arguments"},
	{0x81, "Unknown command"},
	{0x84, ""},
}

// NumErrs is the number of distinct injected error answers.
const NumErrs = 6

// ErrorReply produces the answer of a server that refuses the request.
func (r *Req) ErrorReply(code int) []byte {
	if r.Proto == "text" && (r.Op == "get" || r.Op == "gets") && code/NumErrs%3 == 2 {
		// the server fails after it has sent some of the items
		b := r.run()
		if len(r.cuts) > 0 {
			b = append(b[:r.cuts[code/64%len(r.cuts)]:r.cuts[code/64%len(r.cuts)]], textErrs[code%3]...)
			r.Outcome, r.Hits = "error", nil
			return b
		}
	}
	r.Outcome = "error"
	return r.errFn(code % NumErrs)
}

// Execute runs the request against the store.
func (r *Req) Execute() []byte { return r.run() }

func (c *Session) nextText() *Req {
	i := bytes.IndexByte(c.buf, '\n')
	if i < 0 {
		if len(c.buf) > 8192 {
			t := bytes.TrimLeft(c.buf, " ")
			if !bytes.HasPrefix(t, []byte("get ")) && !bytes.HasPrefix(t, []byte("gets ")) {
				c.Closed = true
			}
		}
		return nil
	}
	line := c.buf[:i]
	if len(line) > 0 && line[len(line)-1] == '\r' {
		line = line[:len(line)-1]
	}
	toks := strings.Fields(strings.Map(func(r rune) rune { return r }, string(line)))
	if strings.ContainsAny(string(line), "\t\v\f\u0085\u00a0") || !isASCII(line) {
		// only a blank separates tokens
		toks = nil
		for _, t := range strings.Split(string(line), " ") {
			if t != "" {
				toks = append(toks, t)
			}
		}
	}
	r := &Req{Proto: "text"}
	r.errFn = func(code int) []byte { return []byte(textErrs[code]) }
	bad := func(msg string) *Req {
		r.Bad = true
		r.Op = "bad"
		r.Size = i + 1
		c.buf = c.buf[i+1:]
		r.run = r.simple("error", msg)
		return r
	}
	if len(toks) == 0 {
		return bad("ERROR\r\n")
	}
	r.Op = toks[0]
	const format = "CLIENT_ERROR bad command line format\r\n"
	n := len(toks)
	noreply := n > 1 && toks[n-1] == "noreply"
	finish := func(data int) bool {
		need := i + 1
		if data >= 0 {
			need += data + 2
		}
		if len(c.buf) < need {
			return false
		}
		r.Size = need
		return true
	}
	s := c.S
	quiet := func(f func() []byte) func() []byte {
		if !noreply {
			return f
		}
		return func() []byte { f(); return nil }
	}
	switch toks[0] {
	case "get", "gets", "gat", "gats":
		keys := toks[1:]
		var exp int64
		touch := toks[0] == "gat" || toks[0] == "gats"
		if touch {
			if n < 3 {
				return bad("ERROR\r\n")
			}
			e, err := strconv.ParseInt(toks[1], 10, 32)
			if err != nil {
				return bad("CLIENT_ERROR invalid exptime argument\r\n")
			}
			exp = e
			keys = toks[2:]
		}
		if len(keys) == 0 {
			return bad("ERROR\r\n")
		}
		for _, k := range keys {
			if len(k) > 250 {
				return bad(format)
			}
		}
		r.Keys = keys
		r.Key = keys[0]
		withCas := strings.HasSuffix(toks[0], "s")
		finish(-1)
		c.buf = c.buf[i+1:]
		r.run = func() []byte {
			var b bytes.Buffer
			r.Outcome = "miss"
			for _, k := range keys {
				e := s.get(k)
				if e == nil {
					continue
				}
				if touch {
					e.Exp = s.realtime(exp)
				}
				e.Hit = true
				r.Outcome = "hit"
				r.Hits = append(r.Hits, k)
				if withCas {
					fmt.Fprintf(&b, "VALUE %s %d %d %d\r\n", k, e.Flags, len(e.Val), e.Cas)
				} else {
					fmt.Fprintf(&b, "VALUE %s %d %d\r\n", k, e.Flags, len(e.Val))
				}
				b.Write(e.Val)
				b.WriteString("\r\n")
				r.cuts = append(r.cuts, b.Len())
			}
			b.WriteString("END\r\n")
			return b.Bytes()
		}
		return r
	case "set", "add", "replace", "append", "prepend", "cas":
		want := 5
		if toks[0] == "cas" {
			want = 6
		}
		if n != want && !(n == want+1) {
			return bad("ERROR\r\n")
		}
		key := toks[1]
		if len(key) > 250 {
			return bad(format)
		}
		fl, err1 := strconv.ParseUint(toks[2], 10, 32)
		exp, err2 := strconv.ParseInt(toks[3], 10, 32)
		size, err3 := strconv.ParseInt(toks[4], 10, 32)
		if err1 != nil || err2 != nil || err3 != nil || size < 0 {
			return bad(format)
		}
		var cas uint64
		if toks[0] == "cas" {
			v, err := strconv.ParseUint(toks[5], 10, 64)
			if err != nil {
				return bad(format)
			}
			cas = v
		}
		if !finish(int(size)) {
			return nil
		}
		val := append([]byte(nil), c.buf[i+1:i+1+int(size)]...)
		tail := c.buf[i+1+int(size) : r.Size]
		good := string(tail) == "\r\n"
		r.Key = key
		if !good {
			// memcached answers and drops the data it read
			c.buf = c.buf[r.Size:]
			r.Bad = true
			r.run = quiet(r.simple("error", "CLIENT_ERROR bad data chunk\r\n"))
			return r
		}
		c.buf = c.buf[r.Size:]
		mode := toks[0]
		r.run = quiet(func() []byte {
			if size > int64(s.MaxItem) {
				r.Outcome = "error"
				return []byte("SERVER_ERROR object too large for cache\r\n")
			}
			if mode == "cas" && cas == 0 {
				// a zero token matches nothing
				if s.get(key) == nil {
					r.Outcome = "notfound"
					return []byte("NOT_FOUND\r\n")
				}
				r.Outcome = "exists"
				return []byte("EXISTS\r\n")
			}
			res, _ := s.store(mode, key, val, uint32(fl), s.realtime(exp), cas)
			switch res {
			case rStored:
				r.Outcome = "stored"
				return []byte("STORED\r\n")
			case rExists:
				r.Outcome = "exists"
				return []byte("EXISTS\r\n")
			case rNotFound:
				r.Outcome = "notfound"
				return []byte("NOT_FOUND\r\n")
			}
			r.Outcome = "notstored"
			return []byte("NOT_STORED\r\n")
		})
		return r
	case "delete":
		if n < 2 || n > 4 || n > 2 && toks[2] != "0" && !noreply {
			if n > 2 {
				return bad("CLIENT_ERROR bad command line format.  Usage: delete <key> [noreply]\r\n")
			}
			return bad("ERROR\r\n")
		}
		key := toks[1]
		if len(key) > 250 {
			return bad(format)
		}
		r.Key = key
		finish(-1)
		c.buf = c.buf[i+1:]
		r.run = quiet(func() []byte {
			if s.del(key, 0) == rOK {
				r.Outcome = "ok"
				return []byte("DELETED\r\n")
			}
			r.Outcome = "notfound"
			return []byte("NOT_FOUND\r\n")
		})
		return r
	case "incr", "decr":
		if n != 3 && !(n == 4 && noreply) {
			return bad("ERROR\r\n")
		}
		key := toks[1]
		if len(key) > 250 {
			return bad(format)
		}
		d, err := strconv.ParseUint(toks[2], 10, 64)
		if err != nil {
			return bad("CLIENT_ERROR invalid numeric delta argument\r\n")
		}
		r.Key = key
		finish(-1)
		c.buf = c.buf[i+1:]
		op := toks[0]
		r.run = quiet(func() []byte {
			res, v, _ := s.delta(key, d, op == "incr", 0, true)
			switch res {
			case rNotFound:
				r.Outcome = "notfound"
				return []byte("NOT_FOUND\r\n")
			case rNonNumeric:
				r.Outcome = "error"
				return []byte("CLIENT_ERROR cannot increment or decrement non-numeric value\r\n")
			}
			r.Outcome = "ok"
			r.Num = v
			return []byte(strconv.FormatUint(v, 10) + "\r\n")
		})
		return r
	case "touch":
		if n != 3 && !(n == 4 && noreply) {
			return bad("ERROR\r\n")
		}
		key := toks[1]
		if len(key) > 250 {
			return bad(format)
		}
		exp, err := strconv.ParseInt(toks[2], 10, 32)
		if err != nil {
			return bad("CLIENT_ERROR invalid exptime argument\r\n")
		}
		r.Key = key
		finish(-1)
		c.buf = c.buf[i+1:]
		r.run = quiet(func() []byte {
			res, _ := s.touch(key, s.realtime(exp))
			if res == rOK {
				r.Outcome = "ok"
				return []byte("TOUCHED\r\n")
			}
			r.Outcome = "notfound"
			return []byte("NOT_FOUND\r\n")
		})
		return r
	case "flush_all":
		finish(-1)
		c.buf = c.buf[i+1:]
		r.run = quiet(func() []byte {
			s.flush()
			r.Outcome = "ok"
			return []byte("OK\r\n")
		})
		return r
	case "version":
		finish(-1)
		c.buf = c.buf[i+1:]
		r.run = func() []byte { r.Outcome = "ok"; return []byte("VERSION " + s.Version + "\r\n") }
		return r
	case "verbosity":
		finish(-1)
		c.buf = c.buf[i+1:]
		r.run = quiet(r.simple("ok", "OK\r\n"))
		return r
	case "quit":
		finish(-1)
		c.buf = c.buf[i+1:]
		r.quit = true
		r.run = r.simple("ok", "")
		return r
	case "mn":
		finish(-1)
		c.buf = c.buf[i+1:]
		r.Proto = "meta"
		r.run = r.simple("ok", "MN\r\n")
		return r
	case "mg", "ms", "md", "ma":
		return c.meta(r, toks, i, finish, bad)
	}
	return bad("ERROR\r\n")
}

func isASCII(b []byte) bool {
	for _, x := range b {
		if x >= 0x80 {
			return false
		}
	}
	return true
}

// Version is what the model reports for version requests.
var Version = "1.6.24"

type mflags struct {
	order         []string
	tok           map[byte]string
	has           map[byte]bool
	key           string
	wire          string
	b64           bool
	quiet, noeffc bool
}

func (c *Session) meta(r *Req, toks []string, i int, finish func(int) bool, bad func(string) *Req) *Req {
	r.Proto = "meta"
	s := c.S
	op := toks[0]
	r.Op = op
	const format = "CLIENT_ERROR bad command line format\r\n"
	if len(toks) < 2 {
		return bad(format)
	}
	start := 2
	size := int64(-1)
	if op == "ms" {
		if len(toks) < 3 {
			return bad(format)
		}
		v, err := strconv.ParseInt(toks[2], 10, 32)
		if err != nil || v < 0 {
			return bad("CLIENT_ERROR bad data chunk\r\n")
		}
		size = v
		start = 3
	}
	f := mflags{tok: map[byte]string{}, has: map[byte]bool{}, wire: toks[1], key: toks[1]}
	dup := false
	for _, t := range toks[start:] {
		if f.has[t[0]] {
			dup = true
		}
		f.has[t[0]] = true
		f.tok[t[0]] = t[1:]
		f.order = append(f.order, t)
	}
	errLine := func(m string) *Req {
		if size >= 0 {
			// the data block is swallowed
			if !finish(int(size)) {
				return nil
			}
			r.Bad = true
			c.buf = c.buf[r.Size:]
			r.run = r.simple("error", m)
			return r
		}
		return bad(m)
	}
	if len(f.key) > 250 {
		return bad(format)
	}
	if dup {
		return errLine("CLIENT_ERROR duplicate flag\r\n")
	}
	if f.has['b'] {
		k, err := base64.StdEncoding.DecodeString(f.key)
		if err != nil || len(k) == 0 {
			return errLine("CLIENT_ERROR error decoding key\r\n")
		}
		f.key = string(k)
		f.b64 = true
	}
	num := func(fl byte, bits int) (int64, bool) {
		if !f.has[fl] {
			return 0, true
		}
		v, err := strconv.ParseInt(f.tok[fl], 10, bits)
		return v, err == nil
	}
	unum := func(fl byte) (uint64, bool) {
		if !f.has[fl] {
			return 0, true
		}
		v, err := strconv.ParseUint(f.tok[fl], 10, 64)
		return v, err == nil
	}
	const badtok = "CLIENT_ERROR bad token in command line format\r\n"
	T, ok1 := num('T', 32)
	N, ok2 := num('N', 32)
	R, ok3 := num('R', 32)
	C, ok4 := unum('C')
	E, ok5 := unum('E')
	if !ok1 || !ok2 || !ok3 || !ok4 || !ok5 {
		return errLine(badtok)
	}
	var F uint64
	if op == "ms" && f.has['F'] {
		v, err := strconv.ParseUint(f.tok['F'], 10, 32)
		if err != nil {
			return errLine(badtok)
		}
		F = v
	}
	if len(f.tok['O']) > 32 {
		return errLine("CLIENT_ERROR opaque token too long\r\n")
	}
	r.Key = f.key
	r.Keys = []string{f.key}
	if !finish(int(size)) {
		return nil
	}
	quiet := f.has['q']
	// retFlags appends the requested return flags in request order.
	retFlags := func(b *bytes.Buffer, e *Entry, ttl int64) {
		for _, t := range f.order {
			switch t[0] {
			case 'O':
				b.WriteString(" O" + t[1:])
			case 'k':
				b.WriteString(" k" + f.wire)
			case 'b':
				if f.has['k'] {
					b.WriteString(" b")
				}
			}
			if e == nil {
				if op == "ms" && t[0] == 'c' {
					b.WriteString(" c0")
				}
				continue
			}
			switch t[0] {
			case 'c':
				fmt.Fprintf(b, " c%d", e.Cas)
			case 'f':
				fmt.Fprintf(b, " f%d", e.Flags)
			case 's':
				fmt.Fprintf(b, " s%d", len(e.Val))
			case 't':
				fmt.Fprintf(b, " t%d", ttl)
			case 'h':
				h := 0
				if e.Hit {
					h = 1
				}
				fmt.Fprintf(b, " h%d", h)
			case 'l':
				fmt.Fprintf(b, " l%d", s.rel()-e.LA)
			}
		}
	}
	// opaque and key are echoed on misses too
	echo := func(code string) []byte {
		var b bytes.Buffer
		b.WriteString(code)
		retFlags(&b, nil, 0)
		b.WriteString("\r\n")
		return b.Bytes()
	}
	switch op {
	case "mg":
		c.buf = c.buf[r.Size:]
		r.run = func() []byte {
			e := s.get(f.key)
			created := false
			if e == nil && f.has['N'] {
				e = s.put(f.key, nil, 0, s.realtime(N))
				if f.has['E'] {
					e.Cas = E
				}
				created = true
			}
			if e == nil {
				r.Outcome = "miss"
				if quiet {
					return nil
				}
				return echo("EN")
			}
			r.Outcome = "hit"
			r.Hits = []string{f.key}
			var b bytes.Buffer
			ttl := s.TTL(e)
			var wz string
			if created {
				e.Won = true
				wz = " W"
			} else {
				if e.Stale {
					if !e.Won {
						e.Won = true
						wz = " X W"
					} else {
						wz = " Z X"
					}
				} else if e.Won {
					wz = " Z"
				} else if f.has['R'] && ttl >= 0 && ttl < R {
					e.Won = true
					wz = " W"
				}
				if f.has['T'] {
					e.Exp = s.realtime(T)
				}
			}
			if f.has['v'] {
				fmt.Fprintf(&b, "VA %d", len(e.Val))
			} else {
				b.WriteString("HD")
			}
			retFlags(&b, e, ttl)
			b.WriteString(wz)
			b.WriteString("\r\n")
			if f.has['v'] {
				b.Write(e.Val)
				b.WriteString("\r\n")
			}
			e.Hit = true
			e.LA = s.rel()
			return b.Bytes()
		}
		return r
	case "ms":
		val := append([]byte(nil), c.buf[i+1:i+1+int(size)]...)
		good := string(c.buf[i+1+int(size):r.Size]) == "\r\n"
		c.buf = c.buf[r.Size:]
		if !good {
			r.Bad = true
			r.run = r.simple("error", "CLIENT_ERROR bad data chunk\r\n")
			return r
		}
		mode := "set"
		if f.has['M'] {
			switch strings.ToUpper(f.tok['M'] + " ")[0] {
			case 'E':
				mode = "add"
			case 'A':
				mode = "append"
			case 'P':
				mode = "prepend"
			case 'R':
				mode = "replace"
			case 'S':
			default:
				r.Bad = true
				r.run = r.simple("error", "CLIENT_ERROR invalid mode for ms\r\n")
				return r
			}
		}
		r.run = func() []byte {
			if size > int64(s.MaxItem) {
				r.Outcome = "error"
				return []byte("SERVER_ERROR object too large for cache\r\n")
			}
			exp := s.realtime(T)
			old := s.get(f.key)
			var res result
			var e *Entry
			cas := C
			if f.has['C'] && f.has['I'] && old != nil && C < old.Cas {
				// an older token with I stores as stale
				res, e = s.store(mode, f.key, val, uint32(F), exp, 0)
				if e != nil {
					e.Stale = true
				}
			} else if old == nil && (mode == "append" || mode == "prepend") {
				res = rNotStored
			} else if old == nil && mode == "add" {
				res, e = s.store(mode, f.key, val, uint32(F), exp, 0)
			} else if f.has['C'] && C == 0 {
				res = rExists
				if old == nil {
					res = rNotFound
				}
			} else {
				res, e = s.store(mode, f.key, val, uint32(F), exp, cas)
			}
			if e != nil && f.has['E'] {
				e.Cas = E
			}
			var b bytes.Buffer
			switch res {
			case rStored:
				r.Outcome = "stored"
				if quiet {
					return nil
				}
				b.WriteString("HD")
			case rExists:
				r.Outcome = "exists"
				b.WriteString("EX")
			case rNotFound:
				r.Outcome = "notfound"
				b.WriteString("NF")
			default:
				r.Outcome = "notstored"
				b.WriteString("NS")
			}
			retFlags(&b, e, 0)
			b.WriteString("\r\n")
			return b.Bytes()
		}
		return r
	case "md":
		c.buf = c.buf[r.Size:]
		r.run = func() []byte {
			e := s.get(f.key)
			if e == nil {
				r.Outcome = "notfound"
				return echo("NF")
			}
			if f.has['C'] && C != e.Cas {
				r.Outcome = "exists"
				return echo("EX")
			}
			if f.has['I'] {
				e.Stale = true
				e.Won = false
				e.Cas = s.nextCas()
				if f.has['E'] {
					e.Cas = E
				}
				if f.has['T'] {
					e.Exp = s.realtime(T)
				}
			} else {
				delete(s.M, f.key)
			}
			r.Outcome = "ok"
			if quiet {
				return nil
			}
			return echo("HD")
		}
		return r
	case "ma":
		c.buf = c.buf[r.Size:]
		D := uint64(1)
		J, _ := unum('J')
		if f.has['D'] {
			v, err := strconv.ParseUint(f.tok['D'], 10, 64)
			if err != nil {
				r.Bad = true
				r.run = r.simple("error", "CLIENT_ERROR invalid numeric delta argument\r\n")
				return r
			}
			D = v
		}
		incr := true
		if f.has['M'] {
			switch strings.ToUpper(f.tok['M'] + " ")[0] {
			case 'I', '+':
			case 'D', '-':
				incr = false
			default:
				r.Bad = true
				r.run = r.simple("error", "CLIENT_ERROR invalid mode for ma\r\n")
				return r
			}
		}
		r.run = func() []byte {
			ttl := int64(-2)
			if old := s.Peek(f.key); old != nil {
				ttl = s.TTL(old)
			}
			res, v, e := s.delta(f.key, D, incr, C, true)
			if res == rNotFound && f.has['N'] {
				v = J
				e = s.put(f.key, []byte(strconv.FormatUint(J, 10)), 0, s.realtime(N))
				if f.has['E'] {
					e.Cas = E
				}
				res = rOK
			} else if res == rOK {
				if f.has['E'] {
					e.Cas = E
				}
				if f.has['T'] {
					e.Exp = s.realtime(T)
				}
			}
			switch res {
			case rNotFound:
				r.Outcome = "notfound"
				return echo("NF")
			case rExists:
				r.Outcome = "exists"
				return echo("EX")
			case rNonNumeric:
				r.Outcome = "error"
				return []byte("CLIENT_ERROR cannot increment or decrement non-numeric value\r\n")
			}
			r.Outcome = "ok"
			r.Num = v
			if quiet {
				return nil
			}
			var b bytes.Buffer
			num := strconv.FormatUint(v, 10)
			if f.has['v'] {
				fmt.Fprintf(&b, "VA %d", len(num))
			} else {
				b.WriteString("HD")
			}
			if ttl == -2 {
				ttl = s.TTL(e)
			}
			retFlags(&b, e, ttl)
			b.WriteString("\r\n")
			if f.has['v'] {
				b.WriteString(num + "\r\n")
			}
			return b.Bytes()
		}
		return r
	}
	return bad("ERROR\r\n")
}

// ---- binary protocol

var binNames = map[byte]string{0: "get", 1: "set", 2: "add", 3: "replace", 4: "delete", 5: "incr", 6: "decr", 7: "quit",
	8: "flush", 9: "getq", 0xa: "noop", 0xb: "version", 0xc: "getk", 0xd: "getkq", 0xe: "append", 0xf: "prepend", 0x10: "stat",
	0x11: "setq", 0x12: "addq", 0x13: "replaceq", 0x14: "deleteq", 0x15: "incrq", 0x16: "decrq", 0x17: "quitq", 0x18: "flushq",
	0x19: "appendq", 0x1a: "prependq", 0x1c: "touch", 0x1d: "gat", 0x1e: "gatq", 0x23: "gatk", 0x24: "gatkq"}

func (c *Session) nextBin() *Req {
	if len(c.buf) < 24 {
		return nil
	}
	h := c.buf[:24]
	if h[0] != 0x80 {
		c.Closed = true
		return nil
	}
	opc := h[1]
	klen := int(binary.BigEndian.Uint16(h[2:4]))
	elen := int(h[4])
	blen := int(binary.BigEndian.Uint32(h[8:12]))
	cas := binary.BigEndian.Uint64(h[16:24])
	opaque := append([]byte(nil), h[12:16]...)
	if blen > 64*maxItem {
		c.Closed = true
		return nil
	}
	if len(c.buf) < 24+blen {
		return nil
	}
	body := append([]byte(nil), c.buf[24:24+blen]...)
	r := &Req{Proto: "bin", Op: binNames[opc], Size: 24 + blen}
	c.buf = c.buf[24+blen:]
	reply := func(status uint16, rcas uint64, extra []byte, key string, val []byte) []byte {
		b := make([]byte, 24, 24+len(extra)+len(key)+len(val))
		b[0] = 0x81
		b[1] = opc
		binary.BigEndian.PutUint16(b[2:4], uint16(len(key)))
		b[4] = byte(len(extra))
		binary.BigEndian.PutUint16(b[6:8], status)
		binary.BigEndian.PutUint32(b[8:12], uint32(len(extra)+len(key)+len(val)))
		copy(b[12:16], opaque)
		binary.BigEndian.PutUint64(b[16:24], rcas)
		b = append(b, extra...)
		b = append(b, key...)
		return append(b, val...)
	}
	fail := func(status uint16, msg string) []byte { return reply(status, 0, nil, "", []byte(msg)) }
	r.errFn = func(code int) []byte { return fail(binErrs[code].code, binErrs[code].msg) }
	s := c.S
	if r.Op == "" || r.Op == "stat" {
		r.Bad = true
		if r.Op == "stat" {
			r.run = func() []byte { return reply(0, 0, nil, "", nil) }
			return r
		}
		r.run = func() []byte { r.Outcome = "error"; return fail(0x81, "Unknown command") }
		return r
	}
	invalid := func() *Req {
		r.Bad = true
		r.run = func() []byte { r.Outcome = "error"; return fail(4, "Invalid arguments") }
		c.Closed = true
		return r
	}
	base := strings.TrimSuffix(r.Op, "q")
	q := base != r.Op
	if elen+klen > blen || klen > 250 {
		return invalid()
	}
	extra, key, val := body[:elen], string(body[elen:elen+klen]), body[elen+klen:]
	r.Key = key
	r.Keys = []string{key}
	loud := func(b []byte) []byte {
		if q {
			return nil
		}
		return b
	}
	switch base {
	case "get", "getk", "gat", "gatk":
		if klen == 0 || len(val) != 0 || (strings.HasPrefix(base, "gat") && elen != 4) || (strings.HasPrefix(base, "get") && elen != 0) {
			return invalid()
		}
		withKey := strings.HasSuffix(base, "k")
		r.run = func() []byte {
			e := s.get(key)
			if e == nil {
				r.Outcome = "miss"
				if withKey {
					return loud(reply(1, 0, nil, key, nil))
				}
				return loud(fail(1, "Not found"))
			}
			if strings.HasPrefix(base, "gat") {
				e.Exp = s.realtime(int64(binary.BigEndian.Uint32(extra)))
			}
			r.Outcome = "hit"
			r.Hits = []string{key}
			e.Hit = true
			fl := make([]byte, 4)
			binary.BigEndian.PutUint32(fl, e.Flags)
			k := ""
			if withKey {
				k = key
			}
			return reply(0, e.Cas, fl, k, e.Val)
		}
	case "set", "add", "replace":
		if elen != 8 || klen == 0 {
			return invalid()
		}
		flags := binary.BigEndian.Uint32(extra[:4])
		exp := int64(binary.BigEndian.Uint32(extra[4:8]))
		r.run = func() []byte {
			if len(val) > s.MaxItem {
				r.Outcome = "error"
				return fail(3, "Too large.")
			}
			mode := base
			if cas != 0 {
				mode = "set"
			}
			res, e := s.store(mode, key, val, flags, s.realtime(exp), cas)
			switch res {
			case rStored:
				r.Outcome = "stored"
				return loud(reply(0, e.Cas, nil, "", nil))
			case rExists:
				r.Outcome = "exists"
				return fail(2, "Data exists for key.")
			case rNotFound:
				r.Outcome = "notfound"
				return fail(1, "Not found")
			}
			if base == "add" {
				r.Outcome = "exists"
				return fail(2, "Data exists for key.")
			}
			r.Outcome = "notfound"
			return fail(1, "Not found")
		}
	case "append", "prepend":
		if elen != 0 || klen == 0 {
			return invalid()
		}
		r.run = func() []byte {
			res, e := s.store(base, key, val, 0, 0, cas)
			switch res {
			case rStored:
				r.Outcome = "stored"
				return loud(reply(0, e.Cas, nil, "", nil))
			case rExists:
				r.Outcome = "exists"
				return fail(2, "Data exists for key.")
			}
			r.Outcome = "notstored"
			return fail(5, "Not stored.")
		}
	case "delete":
		if elen != 0 || klen == 0 || len(val) != 0 {
			return invalid()
		}
		r.run = func() []byte {
			switch s.del(key, cas) {
			case rOK:
				r.Outcome = "ok"
				return loud(reply(0, 0, nil, "", nil))
			case rExists:
				r.Outcome = "exists"
				return fail(2, "Data exists for key.")
			}
			r.Outcome = "notfound"
			return fail(1, "Not found")
		}
	case "incr", "decr":
		if elen != 20 || klen == 0 || len(val) != 0 {
			return invalid()
		}
		d := binary.BigEndian.Uint64(extra[:8])
		init := binary.BigEndian.Uint64(extra[8:16])
		expw := binary.BigEndian.Uint32(extra[16:20])
		r.run = func() []byte {
			res, v, e := s.delta(key, d, base == "incr", cas, true)
			if res == rNotFound && expw != 0xffffffff {
				v = init
				e = s.put(key, []byte(strconv.FormatUint(init, 10)), 0, s.realtime(int64(expw)))
				res = rOK
			}
			switch res {
			case rNotFound:
				r.Outcome = "notfound"
				return fail(1, "Not found")
			case rExists:
				r.Outcome = "exists"
				return fail(2, "Data exists for key.")
			case rNonNumeric:
				r.Outcome = "error"
				return fail(6, "Non-numeric server-side value for incr or decr")
			}
			r.Outcome = "ok"
			r.Num = v
			n := make([]byte, 8)
			binary.BigEndian.PutUint64(n, v)
			return loud(reply(0, e.Cas, nil, "", n))
		}
	case "quit":
		r.quit = true
		r.run = func() []byte { r.Outcome = "ok"; return loud(reply(0, 0, nil, "", nil)) }
	case "flush":
		if elen != 0 && elen != 4 {
			return invalid()
		}
		r.run = func() []byte {
			s.flush()
			r.Outcome = "ok"
			return loud(reply(0, 0, nil, "", nil))
		}
	case "noop":
		r.run = func() []byte { r.Outcome = "ok"; return reply(0, 0, nil, "", nil) }
	case "version":
		r.run = func() []byte { r.Outcome = "ok"; return reply(0, 0, nil, "", []byte(s.Version)) }
	case "touch":
		if elen != 4 || klen == 0 {
			return invalid()
		}
		exp := int64(binary.BigEndian.Uint32(extra))
		r.run = func() []byte {
			res, e := s.touch(key, s.realtime(exp))
			if res != rOK {
				r.Outcome = "notfound"
				return fail(1, "Not found")
			}
			r.Outcome = "ok"
			fl := make([]byte, 4)
			binary.BigEndian.PutUint32(fl, e.Flags)
			return reply(0, e.Cas, fl, "", nil)
		}
	default:
		return invalid()
	}
	return r
}
