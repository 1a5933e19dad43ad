package harness

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"syscall"

	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/server"

	"verif.local/dst/rt"
	"verif.local/dst/xnet"
)

// The real server with a scripted handler, and raw clients that know every
// byte they sent and what the handler was told to answer.

type srvWorld struct {
	e        *Env
	proc     *rt.Proc
	host     string
	port     int
	conns    []*rawc
	base     int // goroutines of the server while nobody is connected
	seen     []*seenReq
	evil     func(req *server.Request) ([]*server.Response, error)
	hold     func(req *server.Request) ([]*server.Response, error)
	stopped  bool
	served   bool // Serve has returned
	serveErr error
}

type seenReq struct {
	req  *server.Request
	snap string
	by   string
}

// rawc is a connection that only sends what its queue holds.
type rawc struct {
	sw      *srvWorld
	id      int
	bin     bool
	keyless bool // the only connection that sends requests without a key
	pauses  bool
	proc    *rt.Proc
	conn    net.Conn
	r       *bufio.Reader
	q       []*sreq
	next    int // first request the handler has not seen yet
	closeOK bool
	closeAt int  // the first request for which the handler returned an error
	noHerr  bool // the handler never fails as a whole
	got     int  // replies received
	progQ   rt.WaitQ
	ended   bool
	gs      []*rt.G
}

// sreq is one request, what the handler has to see and what it answers.
type sreq struct {
	c     *rawc
	n     int
	op    string // of the wire
	wire  []byte
	code  server.Opcode
	key   string
	keys  []string
	val   string
	flags uint32
	exp   int
	delta uint64
	cas   uint64
	mg    []string // flags of a meta get
	ms    []string // flags of a meta set without F, T and C
	opq   uint32
	opqM  int64
	quiet bool

	res    []*server.Response
	herr   error
	delay  rt.Duration
	silent bool
	// refused requests must not reach the handler.
	refused bool
	handled bool
}

func (s *sreq) String() string {
	w := string(s.wire)
	return fmt.Sprintf("request %d of connection %d (%s)", s.n, s.c.id, short(w))
}

func snapReq(r *server.Request) string {
	s := fmt.Sprintf("%d %q %q %q %q %d", r.Opcode, r.Key, r.Keys, r.Flags, r.Value, r.Delta)
	if r.GetOpt != nil {
		s += fmt.Sprintf(" %+v", *r.GetOpt)
	}
	if r.SetOpt != nil {
		s += fmt.Sprintf(" %+v", *r.SetOpt)
	}
	if r.DelOpt != nil {
		s += fmt.Sprintf(" %+v", *r.DelOpt)
	}
	return s
}

func descReq(r *server.Request) string {
	s := snapReq(r)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

const srvHost, srvPort = "srv", 11211

// newSrv starts the server under test in a process of its own.
func (e *Env) newSrv() *srvWorld {
	e.N.Host(srvHost)
	e.bigValues(e.P.N(40) == 39)
	sw := &srvWorld{e: e, host: srvHost, port: srvPort, proc: &rt.Proc{Name: "srv", Host: srvHost}}
	sw.proc.OnExit = func(reason string) {
		e.W.Fail("server-exit", "the server process exits: %s", reason)
	}
	s := &server.Server{Addr: fmt.Sprintf(":%d", srvPort), Handler: sw}
	direct := e.P.Bool()
	rt.GoNamed("srv/serve", sw.proc, func() {
		var err error
		if direct {
			l, lerr := xnet.Listen("tcp", s.Addr)
			if lerr != nil {
				panic(lerr)
			}
			err = s.Serve(l)
		} else {
			err = s.ListenAndServe()
		}
		sw.served, sw.serveErr = true, err
		if !sw.stopped {
			e.W.Fail("server-stopped", "the server stopped serving: %v", err)
		}
	})
	for i := 0; e.N.ListenerAt(srvHost, srvPort) == nil; i++ {
		if i > 600 {
			e.W.Fail("server-stopped", "the server does not listen")
		}
		rt.Sleep([]rt.Duration{ms, sec}[min(i, 1)])
	}
	sw.base = sw.live()
	return sw
}

func (sw *srvWorld) live() int {
	n := 0
	for _, g := range sw.e.W.Live() {
		if g.Proc == sw.proc {
			n++
		}
	}
	return n
}

// ServeRequest is the scripted handler.
func (sw *srvWorld) ServeRequest(req *server.Request) ([]*server.Response, error) {
	e := sw.e
	e.W.Logf("handler gets %s", descReq(req))
	e.W.Note("handler", uint64(req.Opcode))
	e.W.NoteSig("handler", uint64(req.Opcode))
	c := sw.connOf(req)
	if c == nil {
		if k := req.Key + strings.Join(req.Keys, " "); sw.hold != nil && strings.HasPrefix(k, "hold") {
			return sw.hold(req)
		}
		if sw.evil != nil {
			return sw.evil(req)
		}
		e.W.Fail("invented-request", "the handler gets a request that nobody sent: %s", descReq(req))
		return nil, errors.New("unknown")
	}
	if c.next >= len(c.q) {
		e.W.Fail("duplicated-request", "the handler gets %s after all %d requests of connection %d", descReq(req), len(c.q), c.id)
		return nil, errors.New("unknown")
	}
	s := c.q[c.next]
	if s.refused {
		e.W.Fail("unsupported-executed", "the handler gets %s for %s, which asks for something else", descReq(req), s)
	}
	if d := s.diff(req); d != "" {
		e.W.Fail("request-differs", "for %s the handler gets %s: %s", s, descReq(req), d)
	}
	c.next++
	s.handled = true
	sw.seen = append(sw.seen, &seenReq{req, snapReq(req), s.String()})
	if s.delay > 0 {
		rt.Sleep(s.delay)
	}
	if s.herr != nil {
		if !c.closeOK {
			c.closeAt = s.n
		}
		c.closeOK = true
		e.W.Count("fault.handler_error")
	}
	for _, r := range s.res {
		if r.Error != nil {
			e.W.Count("handler_error_answers")
		}
	}
	return s.res, s.herr
}

func (sw *srvWorld) connOf(req *server.Request) *rawc {
	key := req.Key
	if key == "" && len(req.Keys) > 0 {
		key = req.Keys[0]
	}
	if key == "" {
		switch req.Opcode {
		case server.OpcodeFlush, server.OpcodeVersion, server.OpcodeNoop:
			for _, c := range sw.conns {
				if c.keyless {
					return c
				}
			}
		}
		return nil
	}
	for _, c := range sw.conns {
		if strings.HasPrefix(key, c.prefix()) {
			return c
		}
	}
	return nil
}

func (c *rawc) prefix() string {
	if c.id >= 1000 {
		return fmt.Sprintf("evil%d-", c.id-1000)
	}
	return fmt.Sprintf("c%d-", c.id)
}

// diff compares a request with the one that was sent.
func (s *sreq) diff(r *server.Request) string {
	if r.Opcode != s.code {
		return fmt.Sprintf("the operation is %d instead of %d", r.Opcode, s.code)
	}
	if len(s.keys) > 0 {
		if len(r.Keys) == 0 && len(s.keys) == 1 && r.Key == s.keys[0] {
			// as good
		} else if strings.Join(r.Keys, " ") != strings.Join(s.keys, " ") || len(r.Keys) != len(s.keys) {
			return fmt.Sprintf("the keys are %q instead of %q", r.Keys, s.keys)
		}
	} else if r.Key != s.key && !(r.Key == "" && len(r.Keys) == 1 && r.Keys[0] == s.key) {
		return fmt.Sprintf("the key is %q instead of %q", r.Key, s.key)
	}
	if string(r.Value) != s.val {
		return fmt.Sprintf("the value is %s instead of %s", short(string(r.Value)), short(s.val))
	}
	exp := func(got int) string {
		if uint32(got) != uint32(s.exp) {
			return fmt.Sprintf("the expiration is %d instead of %d", got, s.exp)
		}
		return ""
	}
	switch s.op {
	case "set", "add", "replace":
		if !bytes.Equal(r.Flags, be32(s.flags)) {
			return fmt.Sprintf("the flags are %v instead of %v", r.Flags, be32(s.flags))
		}
		if r.SetOpt == nil {
			return "the expiration is missing"
		}
		if r.SetOpt.CasValue != s.cas {
			return fmt.Sprintf("the CAS value is %d instead of %d", r.SetOpt.CasValue, s.cas)
		}
		return exp(r.SetOpt.Expiration)
	case "ms":
		o := r.SetOpt
		if o == nil || !o.Meta {
			return "it is not a meta set"
		}
		if uint32(o.Flag) != s.flags {
			return fmt.Sprintf("the flags are %d instead of %d", uint32(o.Flag), s.flags)
		}
		if o.CasValue != s.cas || o.Cas != (s.cas != 0) {
			return fmt.Sprintf("the CAS value is %d (%v) instead of %d", o.CasValue, o.Cas, s.cas)
		}
		has := map[byte]bool{}
		for _, f := range s.ms {
			has[f[0]] = true
		}
		if o.Key != has['k'] || o.NoReply != has['q'] || o.Invalidate != has['I'] || o.Opaque != s.opqM {
			return fmt.Sprintf("the options are %+v", *o)
		}
		return exp(o.Expiration)
	case "mg":
		o := r.GetOpt
		if o == nil || !o.Meta {
			return "it is not a meta get"
		}
		has := map[byte]bool{}
		for _, f := range s.mg {
			has[f[0]] = true
		}
		if o.Value != has['v'] || o.Cas != has['c'] || o.Flag != has['f'] || o.Key != has['k'] || o.Size != has['s'] || o.TTL != has['t'] || o.NoReply != has['q'] {
			return fmt.Sprintf("the options are %+v", *o)
		}
	case "md":
		if r.DelOpt == nil || !r.DelOpt.Meta {
			return "it is not a meta delete"
		}
	case "incr", "decr":
		if uint64(r.Delta) != s.delta {
			return fmt.Sprintf("the delta is %d instead of %d", uint64(r.Delta), s.delta)
		}
		if s.c.bin {
			if r.SetOpt == nil {
				return "the expiration is missing"
			}
			return exp(r.SetOpt.Expiration)
		}
	case "touch":
		if r.SetOpt != nil {
			return exp(r.SetOpt.Expiration)
		}
		return exp(int(r.Delta))
	}
	return ""
}

// ---- generation

var casChoices = []uint64{1, 7, 1 << 31, 1<<63 + 5, 1<<64 - 1, 123456789012}
var deltaChoices = []uint64{0, 1, 10, 1 << 31, 1<<32 + 5, 1<<63 - 1, 1<<64 - 1}
var expChoices = []int{0, 1, 100, 2592000, 2592001, 1700000000, 2147483647, -1}

func (e *Env) handlerError() error {
	switch e.P.N(4) {
	case 0:
		return &merrors.MemcachedError{Status: 0x82, Message: "out of memory"}
	case 1:
		return errors.New("backend\r\nEND\r\nSTORED\r\nHD\r\nVA 3\r\nxxx")
	case 2:
		return &merrors.MemcachedError{Status: 3, Message: "too large"}
	}
	return io.EOF
}

// gen draws request n of connection c.
func (c *rawc) gen(n int) *sreq {
	e := c.sw.e
	p := e.P
	s := &sreq{c: c, n: n}
	mkKey := func(i int) string {
		k := fmt.Sprintf("%s%d", c.prefix(), n)
		if i > 0 {
			k += fmt.Sprintf(".%d", i)
		}
		switch p.N(8) {
		case 5:
			k += "-" + strings.Repeat("k", p.N(200))
		case 6:
			k += "/VALUE%d%s\\r\\n"
		case 7:
			if c.bin {
				k += " \r\nget x\r\n\x00\xff"
			} else {
				k += "\xff\xfe\xc3\xa9"
			}
		}
		return k
	}
	ops := []string{"get", "get", "getm", "gets", "set", "set", "add", "replace", "delete", "incr", "decr", "touch", "mg", "mg", "mg", "ms", "ms", "md"}
	if c.bin {
		ops = []string{"get", "get", "getkq", "getkq", "set", "set", "add", "replace", "delete", "incr", "decr", "touch"}
	}
	if c.keyless {
		ops = append(ops, "version", "flush", "noop")
	}
	s.op = ops[p.N(len(ops))]
	s.key = mkKey(0)
	switch p.N(6) {
	case 4:
		s.delay = dur(p, 0, 20*ms)
	case 5:
		s.delay = dur(p, 0, 2*sec)
	}
	s.opq = uint32(p.N(1 << 16))
	if p.N(4) == 0 {
		s.opq = 0xdeadbeef
	}
	hit := func(key string) *server.Response {
		r := &server.Response{Key: key, Value: []byte(e.anyValue(key, n)), Cas: int64(casChoices[p.N(len(casChoices))]), TTL: []int64{-1, 1, 30, 100000}[p.N(4)]}
		if p.N(8) == 0 {
			r.Value = nil
		}
		if p.N(4) > 0 {
			r.Flags = be32(flagChoices[p.N(len(flagChoices))])
		}
		return r
	}
	miss := func() []*server.Response {
		if p.Bool() {
			return []*server.Response{}
		}
		return []*server.Response{{Error: merrors.ItemNotFound}}
	}
	getRes := func() {
		switch p.N(8) {
		case 0, 1:
			s.res = miss()
		case 2:
			s.res = []*server.Response{{Key: s.key, Error: e.handlerError()}}
		default:
			s.res = []*server.Response{hit(s.key)}
		}
	}
	// what a write may be answered with
	writeRes := func(ok *server.Response, errs ...error) {
		switch i := p.N(8); {
		case i < len(errs):
			s.res = []*server.Response{{Error: errs[i]}}
		case i == 5:
			s.res = []*server.Response{{Error: e.handlerError()}}
		default:
			s.res = []*server.Response{ok}
		}
	}
	switch s.op {
	case "get":
		s.code = server.OpcodeGet
		getRes()
		if c.bin {
			s.wire = binReq(0x00, s.opq, 0, nil, s.key, "")
		} else {
			s.wire = []byte("get " + s.key + "\r\n")
		}
	case "getkq":
		s.code = server.OpcodeGet
		getRes()
		s.quiet = true
		s.wire = binReq(0x0d, s.opq, 0, nil, s.key, "")
	case "getm", "gets":
		s.code = server.OpcodeGet
		m := p.R(1, 5)
		if s.op == "getm" {
			m++
		}
		switch p.N(20) {
		case 18:
			m = 100
		case 19:
			// a line that no buffer holds
			m = 100
			if c.pauses { // memory is not measured
				m = []int{250, 400, 1000}[p.N(3)]
			}
		}
		for i := 0; i < m; i++ {
			s.keys = append(s.keys, mkKey(i+1))
		}
		s.key = ""
		if p.N(8) == 7 {
			s.res = []*server.Response{{Error: e.handlerError()}}
		}
		for _, k := range s.keys {
			switch p.N(4) {
			case 0:
			case 1:
				s.res = append(s.res, &server.Response{Key: k, Error: merrors.ItemNotFound})
			default:
				s.res = append(s.res, hit(k))
			}
		}
		s.wire = []byte(strings.TrimSuffix(s.op, "m") + " " + strings.Join(s.keys, " ") + "\r\n")
	case "set", "add", "replace":
		s.val = e.anyValue(s.key, n)
		if p.N(10) == 0 {
			s.val = ""
		}
		s.flags = flagChoices[p.N(len(flagChoices))]
		s.exp = expChoices[p.N(len(expChoices))]
		var b byte
		switch s.op {
		case "set":
			s.code, b = server.OpcodeSet, 0x01
			writeRes(&server.Response{})
		case "add":
			s.code, b = server.OpcodeAdd, 0x02
			writeRes(&server.Response{}, merrors.ItemExists)
		case "replace":
			s.code, b = server.OpcodeReplace, 0x03
			writeRes(&server.Response{}, merrors.ItemNotFound)
		}
		if c.bin {
			if s.op == "set" && p.Bool() {
				s.cas = casChoices[p.N(len(casChoices))]
				writeRes(&server.Response{}, merrors.ItemExists, merrors.ItemNotFound)
			}
			if s.res[0].Error == nil {
				s.res[0].Cas = int64(casChoices[p.N(len(casChoices))])
			}
			ex := append(be32(s.flags), be32(uint32(s.exp))...)
			s.wire = binReq(b, s.opq, s.cas, ex, s.key, s.val)
		} else {
			s.wire = []byte(fmt.Sprintf("%s %s %d %d %d\r\n%s\r\n", s.op, s.key, s.flags, s.exp, len(s.val), s.val))
		}
	case "delete":
		s.code = server.OpcodeDelete
		writeRes(&server.Response{}, merrors.ItemNotFound, merrors.ItemNotFound)
		if c.bin {
			s.wire = binReq(0x04, s.opq, 0, nil, s.key, "")
		} else {
			s.wire = []byte("delete " + s.key + "\r\n")
		}
	case "md":
		s.code = server.OpcodeDelete
		writeRes(&server.Response{}, merrors.ItemNotFound, merrors.ItemNotFound)
		s.wire = []byte("md " + s.key + "\r\n")
	case "incr", "decr":
		s.code = server.OpcodeIncrement
		b := byte(0x05)
		if s.op == "decr" {
			s.code, b = server.OpcodeDecrement, 0x06
		}
		s.delta = deltaChoices[p.N(len(deltaChoices))]
		num := deltaChoices[p.N(len(deltaChoices))]
		if c.bin {
			s.exp = expChoices[p.N(len(expChoices))]
			ex := make([]byte, 20)
			binary.BigEndian.PutUint64(ex, s.delta)
			binary.BigEndian.PutUint64(ex[8:], uint64(p.N(100)))
			binary.BigEndian.PutUint32(ex[16:], uint32(s.exp))
			s.wire = binReq(b, s.opq, 0, ex, s.key, "")
			v := make([]byte, 8)
			binary.BigEndian.PutUint64(v, num)
			writeRes(&server.Response{Value: v}, merrors.ItemNotFound)
		} else {
			s.wire = []byte(fmt.Sprintf("%s %s %d\r\n", s.op, s.key, s.delta))
			writeRes(&server.Response{Value: []byte(strconv.FormatUint(num, 10))}, merrors.ItemNotFound)
		}
	case "touch":
		s.code = server.OpcodeTouch
		s.exp = expChoices[p.N(len(expChoices))]
		writeRes(&server.Response{}, merrors.ItemNotFound)
		if c.bin {
			s.wire = binReq(0x1c, s.opq, 0, be32(uint32(s.exp)), s.key, "")
		} else {
			s.wire = []byte(fmt.Sprintf("touch %s %d\r\n", s.key, s.exp))
		}
	case "mg":
		s.code = server.OpcodeGet
		getRes()
		fl := []string{"v", "f", "c", "t", "k", "s"}
		for i := len(fl) - 1; i > 0; i-- {
			j := p.N(i + 1)
			fl[i], fl[j] = fl[j], fl[i]
		}
		s.mg = fl[:p.R(1, len(fl))]
		has := false
		for _, f := range s.mg {
			has = has || f == "v"
		}
		if has && p.N(4) == 0 {
			s.mg = append(s.mg, "q")
			s.quiet = true
		}
		s.wire = []byte("mg " + s.key + " " + strings.Join(s.mg, " ") + "\r\n")
	case "ms":
		s.code = server.OpcodeSet
		s.val = e.anyValue(s.key, n)
		s.exp = expChoices[p.N(len(expChoices))]
		fl := []string{fmt.Sprintf("T%d", s.exp)}
		if p.N(3) > 0 {
			s.flags = flagChoices[p.N(len(flagChoices))]
			fl = append(fl, fmt.Sprintf("F%d", s.flags))
		}
		writeRes(&server.Response{})
		if p.N(3) == 0 {
			s.cas = casChoices[p.N(len(casChoices))]
			fl = append(fl, fmt.Sprintf("C%d", s.cas))
			writeRes(&server.Response{}, merrors.ItemExists, merrors.ItemNotFound)
		}
		if p.N(4) == 0 {
			s.ms = append(s.ms, "k")
		}
		if p.N(4) == 0 {
			s.opqM = int64(1 + p.N(1<<30))
			s.ms = append(s.ms, fmt.Sprintf("O%d", s.opqM))
		}
		if p.N(6) == 0 {
			s.ms = append(s.ms, "q")
			s.quiet = true
		}
		fl = append(fl, s.ms...)
		for i := len(fl) - 1; i > 0; i-- {
			j := p.N(i + 1)
			fl[i], fl[j] = fl[j], fl[i]
		}
		s.wire = []byte(fmt.Sprintf("ms %s %d %s\r\n%s\r\n", s.key, len(s.val), strings.Join(fl, " "), s.val))
	case "version":
		s.code, s.key = server.OpcodeVersion, ""
		writeRes(&server.Response{Value: []byte("VERSION 1.2.3")})
		s.wire = []byte("version\r\n")
		if c.bin {
			s.wire = binReq(0x0b, s.opq, 0, nil, "", "")
		}
	case "flush":
		s.code, s.key = server.OpcodeFlush, ""
		writeRes(&server.Response{})
		s.wire = []byte("flush_all\r\n")
		if c.bin {
			var ex []byte
			if p.Bool() {
				ex = be32(0)
			}
			s.wire = binReq(0x08, s.opq, 0, ex, "", "")
		}
	case "noop":
		s.code, s.key = server.OpcodeNoop, ""
		s.res = []*server.Response{{}}
		s.wire = []byte("mn\r\n")
		if c.bin {
			s.wire = binReq(0x0a, s.opq, 0, nil, "", "")
		}
	}
	if s.quiet {
		ok := true
		for _, r := range s.res {
			ok = ok && r.Error == nil
		}
		nf := len(s.res) == 0 || errors.Is(s.res[0].Error, merrors.ItemNotFound)
		s.silent = s.op == "ms" && ok || s.op != "ms" && nf
	}
	if !s.silent && s.code != server.OpcodeNoop && !c.noHerr && p.N(40) == 0 {
		s.herr = e.handlerError()
		s.res = nil
	}
	return s
}

func binReq(op byte, opaque uint32, cas uint64, extras []byte, key, val string) []byte {
	h := make([]byte, 24, 24+len(extras)+len(key)+len(val))
	h[0], h[1] = 0x80, op
	binary.BigEndian.PutUint16(h[2:], uint16(len(key)))
	h[4] = byte(len(extras))
	binary.BigEndian.PutUint32(h[8:], uint32(len(extras)+len(key)+len(val)))
	binary.BigEndian.PutUint32(h[12:], opaque)
	binary.BigEndian.PutUint64(h[16:], cas)
	h = append(h, extras...)
	h = append(h, key...)
	return append(h, val...)
}

// genRefused draws a well-formed request for something the server does not
// offer.
func (c *rawc) genRefused(n int) *sreq {
	s := &sreq{c: c, n: n, refused: true, op: "refused"}
	k := fmt.Sprintf("%s%d", c.prefix(), n)
	var l []string
	if c.bin {
		switch c.sw.e.P.N(6) {
		case 0:
			s.wire = binReq(0x11, 1, 0, make([]byte, 8), k, "setq")
		case 1:
			s.wire = binReq(0x0e, 1, 0, nil, k, "append")
		case 2:
			s.wire = binReq(0x1d, 1, 0, make([]byte, 4), k, "")
		case 3:
			s.wire = binReq(0x14, 1, 0, nil, k, "")
		case 4:
			s.wire = binReq(0x10, 1, 0, nil, k, "")
		case 5:
			s.wire = binReq(0x15, 1, 0, make([]byte, 20), k, "")
		}
		return s
	}
	l = []string{"append %s 0 0 3\r\nabc\r\n", "prepend %s 0 0 3\r\nabc\r\n", "cas %s 0 0 3 77\r\nabc\r\n", "gat 10 %s\r\n",
		"mg %s T30\r\n", "mg %s v N30\r\n", "ms %s 3 T0 ME\r\nabc\r\n", "ms %s 3 MA\r\nabc\r\n", "ma %s\r\n",
		"set %s 0 0 3 noreply\r\nabc\r\n", "delete %s noreply\r\n", "incr %s 1 noreply\r\n", "md %s q\r\n", "me %s\r\n", "incr %s -5\r\n", "md %s T30 I\r\n"}
	if c.keyless {
		l = append(l, "flush_all 10%.0s\r\n", "flush_all 3600%.0s\r\n")
	}
	s.wire = []byte(fmt.Sprintf(l[c.sw.e.P.N(len(l))], k))
	return s
}

// genCut is the beginning of a request, after which the client sends no more.
func (c *rawc) genCut(n int) *sreq {
	s := &sreq{c: c, n: n, refused: true, op: "cut off"}
	k := fmt.Sprintf("%s%d", c.prefix(), n)
	var w []byte
	if c.bin {
		w = [][]byte{binReq(0, 1, 0, nil, k, ""), binReq(1, 1, 0, make([]byte, 8), k, "abc"), binReq(4, 1, 0, nil, k, "")}[c.sw.e.P.N(3)]
	} else {
		w = []byte(fmt.Sprintf([]string{"get %s\r\n", "gets %s\r\n", "set %s 0 0 3\r\nabc\r\n", "ms %s 3 T0\r\nabc\r\n", "mg %s v\r\n", "delete %s\r\n", "incr %s 1\r\n"}[c.sw.e.P.N(7)], k))
	}
	s.wire = w[:c.sw.e.P.R(1, len(w)-1)]
	c.sw.e.W.Count("probe.cut_off_request")
	return s
}

// ---- the clients

// open connects a raw client from a host of its own.
func (sw *srvWorld) open(bin, keyless bool) *rawc {
	e := sw.e
	c := &rawc{sw: sw, id: len(sw.conns), bin: bin, keyless: keyless}
	host := fmt.Sprintf("peer%d", c.id)
	e.N.Host(host)
	c.proc = &rt.Proc{Name: host, Host: host}
	sw.conns = append(sw.conns, c)
	return c
}

// dial connects; it runs in the client's process.
func (c *rawc) dial() {
	conn, err := xnet.Dial("tcp", fmt.Sprintf("%s:%d", c.sw.host, c.sw.port))
	if err != nil {
		c.sw.e.W.Fail("not-accepted", "connection %d to the server fails: %v", c.id, err)
		return
	}
	c.conn = conn
	c.r = bufio.NewReader(conn)
}

var longPauses = []rt.Duration{3 * sec, 20 * sec, 90 * sec, 700 * sec, 3 * 3600 * sec}

// session sends the queue and checks the replies; it returns when the
// connection has ended.
func (c *rawc) session(window int, halfClose bool) {
	e := c.sw.e
	c.dial()
	chunk := e.P.N(3)
	w := rt.GoNamed(c.proc.Name+"/writer", c.proc, func() {
		for i, s := range c.q {
			for i-c.got >= window && !c.ended {
				c.progQ.Wait("window", -1)
			}
			if c.ended {
				return
			}
			b := s.wire
			if c.pauses && e.P.N(6) == 5 {
				rt.Sleep(longPauses[e.P.N(len(longPauses))])
			}
			long := c.pauses && e.P.N(12) == 11
			for len(b) > 0 {
				k := len(b)
				if long && k > 1 {
					// the rest of the request takes its time
					k = 1 + e.P.N(k-1)
				}
				if chunk == 1 {
					k = 1 + e.P.N(k)
				} else if chunk == 2 && k < 200 {
					k = 1 + e.P.N(min(3, k))
				}
				if _, err := c.conn.Write(b[:k]); err != nil {
					return
				}
				b = b[k:]
				if long {
					long = false
					rt.Sleep(longPauses[e.P.N(len(longPauses))])
				}
				if chunk > 0 && e.P.N(8) == 7 {
					rt.Sleep(dur(e.P, 0, 300*ms))
				}
			}
		}
		if halfClose {
			c.conn.(*xnet.TCPConn).CloseWrite()
		}
	})
	for _, s := range c.q {
		if !s.silent {
			e.W.Count("probe.requests")
			msg, eof := s.reply()
			if eof {
				// A connection that is closed because of a refused request may
				// be reset before the replies in flight are read; if it ends in
				// order, they have to be there.
				refused := s.refused || c.closeOK && s.n >= c.closeAt
				if last := c.q[len(c.q)-1]; !strings.HasSuffix(msg, "EOF") {
					refused = refused || c.closeOK || last.refused && c.next == len(c.q)-1
				}
				if refused {
					c.end()
					e.W.Join(200*3600*sec, w)
					return
				}
				e.W.Fail("unanswered", "%s is not answered, the connection ends (%s)", s, msg)
			}
			if msg != "" {
				e.W.Fail("wrong-reply", "%s: %s; the handler answered %s", s, msg, descRes(s))
			}
			e.Raw++
			if !s.handled && !s.refused {
				e.W.Fail("wrong-reply", "%s is answered before the handler saw it", s)
			}
		}
		c.got++
		c.progQ.NotifyAll()
	}
	e.W.Join(200*3600*sec, w)
	c.conn.(*xnet.TCPConn).CloseWrite()
	rest, _ := io.ReadAll(c.r)
	if len(rest) > 0 && !c.q[len(c.q)-1].refused {
		e.W.Fail("extra-reply", "after the replies to all requests connection %d gets %s", c.id, short(string(rest)))
	}
	c.end()
}

func (c *rawc) end() {
	c.ended = true
	c.progQ.NotifyAll()
	c.conn.Close()
}

func descRes(s *sreq) string {
	if s.herr != nil {
		return fmt.Sprintf("error %q", s.herr)
	}
	var l []string
	for _, r := range s.res {
		if r.Error != nil {
			l = append(l, fmt.Sprintf("error %q", r.Error))
		} else {
			l = append(l, fmt.Sprintf("{%q %s flags %v cas %d ttl %d}", r.Key, short(string(r.Value)), r.Flags, uint64(r.Cas), r.TTL))
		}
	}
	if len(l) > 6 {
		l = append(l[:6], "...")
	}
	return "[" + strings.Join(l, " ") + "]"
}

func (c *rawc) line() (string, error) {
	l, err := c.r.ReadString('\n')
	if err != nil {
		return l, err
	}
	if !strings.HasSuffix(l, "\r\n") {
		return l, fmt.Errorf("malformed: the line %q does not end with CRLF", l)
	}
	return l[:len(l)-2], nil
}

func (c *rawc) block(n int) (string, error) {
	b := make([]byte, n+2)
	if _, err := io.ReadFull(c.r, b); err != nil {
		return "", err
	}
	if string(b[n:]) != "\r\n" {
		return "", fmt.Errorf("malformed: %q follows the value", b[n:])
	}
	return string(b[:n]), nil
}

func isErrLine(l string) bool {
	return l == "ERROR" || strings.HasPrefix(l, "SERVER_ERROR") || strings.HasPrefix(l, "CLIENT_ERROR")
}

func respFlags(r *server.Response) uint32 {
	if len(r.Flags) == 4 {
		return binary.BigEndian.Uint32(r.Flags)
	}
	return 0
}

// hits returns what a get has to show, and the error it has to report.
func (s *sreq) hits() ([]*server.Response, error) {
	if s.herr != nil {
		return nil, s.herr
	}
	var h []*server.Response
	for _, r := range s.res {
		if r.Error == nil {
			h = append(h, r)
		} else if !errors.Is(r.Error, merrors.ItemNotFound) {
			return nil, r.Error
		}
	}
	return h, nil
}

func (s *sreq) err() error {
	if s.herr != nil {
		return s.herr
	}
	return s.res[0].Error
}

// reply reads the reply to s. It returns what is wrong with it, and whether
// the connection ended instead.
func (s *sreq) reply() (string, bool) {
	msg, err := s.readReply()
	if err != nil {
		if strings.HasPrefix(err.Error(), "malformed") {
			return err.Error(), false
		}
		return err.Error(), true
	}
	return msg, false
}

func (s *sreq) readReply() (string, error) {
	c := s.c
	if c.bin {
		return s.readBinReply()
	}
	if s.refused {
		l, err := c.line()
		if err != nil {
			return "", err
		}
		if !isErrLine(l) {
			return fmt.Sprintf("the reply is %q", l), nil
		}
		return "", nil
	}
	switch s.op {
	case "get", "getm", "gets":
		hits, herr := s.hits()
		for {
			l, err := c.line()
			if err != nil {
				return "", err
			}
			if isErrLine(l) {
				if herr == nil {
					return fmt.Sprintf("the reply is %q", l), nil
				}
				return "", nil
			}
			if l == "END" {
				if herr != nil {
					return "an error is shown as a miss or a complete answer", nil
				}
				if len(hits) > 0 {
					return fmt.Sprintf("%q is missing in the reply", hits[0].Key), nil
				}
				return "", nil
			}
			f := strings.Split(l, " ")
			want := 4
			if s.op == "gets" {
				want = 5
			}
			if f[0] != "VALUE" || len(f) != want {
				return fmt.Sprintf("the reply contains the line %q", l), nil
			}
			n, nerr := strconv.Atoi(f[3])
			if nerr != nil || n < 0 || n > 1<<20 {
				return fmt.Sprintf("the reply contains the line %q", l), nil
			}
			v, err := c.block(n)
			if err != nil {
				return "", err
			}
			i := -1
			for j, h := range hits {
				if h.Key == f[1] {
					i = j
					break
				}
			}
			if i < 0 {
				if herr != nil {
					return fmt.Sprintf("the reply shows %q although the handler reported an error", f[1]), nil
				}
				return fmt.Sprintf("the reply shows %q, which was not found", f[1]), nil
			}
			h := hits[i]
			if f[2] != strconv.FormatUint(uint64(respFlags(h)), 10) || v != string(h.Value) {
				return fmt.Sprintf("the reply shows %q with flags %s and value %s", f[1], f[2], short(v)), nil
			}
			if s.op == "gets" && f[4] != strconv.FormatUint(uint64(h.Cas), 10) {
				return fmt.Sprintf("the reply shows %q with CAS value %s", f[1], f[4]), nil
			}
			hits = append(append([]*server.Response(nil), hits[:i]...), hits[i+1:]...)
		}
	case "mg":
		hits, herr := s.hits()
		l, err := c.line()
		if err != nil {
			return "", err
		}
		if isErrLine(l) {
			if herr == nil {
				return fmt.Sprintf("the reply is %q", l), nil
			}
			return "", nil
		}
		if herr != nil {
			return fmt.Sprintf("an error is shown as %q", l), nil
		}
		if len(hits) == 0 {
			if l != "EN" {
				return fmt.Sprintf("a miss is shown as %q", l), nil
			}
			return "", nil
		}
		h := hits[0]
		want := []string{}
		for _, f := range s.mg {
			switch f {
			case "f":
				f += strconv.FormatUint(uint64(respFlags(h)), 10)
			case "c":
				f += strconv.FormatUint(uint64(h.Cas), 10)
			case "t":
				f += strconv.FormatInt(h.TTL, 10)
			case "k":
				f += s.key
			case "s":
				f += strconv.Itoa(len(h.Value))
			default:
				continue
			}
			want = append(want, f)
		}
		head := "HD"
		for _, f := range s.mg {
			if f == "v" {
				head = fmt.Sprintf("VA %d", len(h.Value))
			}
		}
		if !sameMeta(l, head, want) {
			return fmt.Sprintf("the reply is %q instead of %q", l, head+" "+strings.Join(want, " ")), nil
		}
		if head != "HD" {
			v, err := c.block(len(h.Value))
			if err != nil {
				return "", err
			}
			if v != string(h.Value) {
				return fmt.Sprintf("the reply shows the value %s", short(v)), nil
			}
		}
		return "", nil
	case "ms", "md":
		l, err := c.line()
		if err != nil {
			return "", err
		}
		re := s.err()
		want := []string{}
		for _, f := range s.ms {
			switch f[0] {
			case 'k':
				want = append(want, "k"+s.key)
			case 'O':
				want = append(want, f)
			}
		}
		ok := false
		switch {
		case re == nil:
			ok = sameMeta(l, "HD", want)
		case s.herr == nil && errors.Is(re, merrors.ItemNotFound):
			ok = l == "NF" || strings.HasPrefix(l, "NF ")
		case s.herr == nil && errors.Is(re, merrors.ItemExists):
			ok = l == "EX" || strings.HasPrefix(l, "EX ")
		default:
			ok = isErrLine(l)
		}
		if !ok {
			return fmt.Sprintf("the reply is %q", l), nil
		}
		return "", nil
	}
	// one line
	l, err := c.line()
	if err != nil {
		return "", err
	}
	re := s.err()
	var want []string
	switch {
	case re == nil:
		switch s.op {
		case "set", "add", "replace":
			want = []string{"STORED"}
		case "delete":
			want = []string{"DELETED"}
		case "touch":
			want = []string{"TOUCHED"}
		case "flush":
			want = []string{"OK"}
		case "noop":
			want = []string{"MN"}
		case "incr", "decr", "version":
			want = []string{string(s.res[0].Value)}
		}
	case s.herr == nil && errors.Is(re, merrors.ItemNotFound):
		want = []string{"NOT_FOUND"}
		if s.op == "replace" {
			want = append(want, "NOT_STORED")
		}
	case s.herr == nil && errors.Is(re, merrors.ItemExists):
		want = []string{"NOT_STORED", "EXISTS"}
	default:
		if !isErrLine(l) {
			return fmt.Sprintf("the reply is %q", l), nil
		}
		return "", nil
	}
	for _, w := range want {
		if l == w {
			return "", nil
		}
	}
	return fmt.Sprintf("the reply is %q", l), nil
}

// sameMeta compares a meta reply; the order of the flags does not matter.
func sameMeta(l, head string, flags []string) bool {
	if l != head && !strings.HasPrefix(l, head+" ") {
		return false
	}
	got := strings.Fields(strings.TrimPrefix(l, head))
	want := append([]string(nil), flags...)
	sort.Strings(got)
	sort.Strings(want)
	return strings.Join(got, " ") == strings.Join(want, " ")
}

func (s *sreq) readBinReply() (string, error) {
	c := s.c
	h := make([]byte, 24)
	if _, err := io.ReadFull(c.r, h); err != nil {
		return "", err
	}
	if h[0] != 0x81 {
		return fmt.Sprintf("the reply starts with %x", h), nil
	}
	klen := int(binary.BigEndian.Uint16(h[2:]))
	elen := int(h[4])
	total := int(binary.BigEndian.Uint32(h[8:]))
	status := binary.BigEndian.Uint16(h[6:])
	if total > 1<<20 || klen+elen > total {
		return fmt.Sprintf("the lengths in the header %x of the reply do not fit", h), nil
	}
	body := make([]byte, total)
	if _, err := io.ReadFull(c.r, body); err != nil {
		return "", err
	}
	if h[1] != s.wire[1] {
		return fmt.Sprintf("the reply has opcode %#x instead of %#x", h[1], s.wire[1]), nil
	}
	if !bytes.Equal(h[12:16], s.wire[12:16]) {
		return fmt.Sprintf("the reply has opaque %x instead of %x", h[12:16], s.wire[12:16]), nil
	}
	key := string(body[elen : elen+klen])
	val := string(body[elen+klen:])
	if s.refused {
		if status == 0 {
			return "the request is answered with success", nil
		}
		return "", nil
	}
	var re error
	var r *server.Response
	switch s.op {
	case "get", "getkq":
		hits, herr := s.hits()
		re = herr
		if herr == nil && len(hits) == 0 {
			re = merrors.ItemNotFound
		} else if herr == nil {
			r = hits[0]
		}
	default:
		re = s.err()
		r = s.res0()
	}
	switch {
	case re == nil:
		if status != 0 {
			return fmt.Sprintf("the reply has status %d", status), nil
		}
	case s.herr == nil && errors.Is(re, merrors.ItemNotFound):
		if status != 1 {
			return fmt.Sprintf("a missing key is answered with status %d", status), nil
		}
		return "", nil
	case s.herr == nil && errors.Is(re, merrors.ItemExists):
		if status != 2 {
			return fmt.Sprintf("an existing key is answered with status %d", status), nil
		}
		return "", nil
	default:
		if status <= 2 {
			return fmt.Sprintf("an error is answered with status %d", status), nil
		}
		return "", nil
	}
	if cas := binary.BigEndian.Uint64(h[16:]); cas != uint64(r.Cas) {
		return fmt.Sprintf("the reply has CAS value %d", cas), nil
	}
	switch s.op {
	case "get", "getkq":
		if elen != 4 || binary.BigEndian.Uint32(body) != respFlags(r) {
			return fmt.Sprintf("the reply has flags %v", body[:elen]), nil
		}
		if key != s.key && (s.op == "getkq" || key != "") {
			return fmt.Sprintf("the reply is for key %q", key), nil
		}
		if val != string(r.Value) {
			return fmt.Sprintf("the reply has value %s", short(val)), nil
		}
	case "incr", "decr", "version":
		if elen != 0 || klen != 0 || val != string(r.Value) {
			return fmt.Sprintf("the reply has value %q", body), nil
		}
	default:
		if total != 0 {
			return fmt.Sprintf("the reply has body %q", body), nil
		}
	}
	return "", nil
}

func (s *sreq) res0() *server.Response {
	if len(s.res) > 0 {
		return s.res[0]
	}
	return nil
}

// stable checks that no request changed after the handler got it.
func (sw *srvWorld) stable() {
	for _, r := range sw.seen {
		if s := snapReq(r.req); s != r.snap {
			sw.e.W.Fail("request-changed", "the request that the handler got for %s changed afterwards from %.300s to %.300s", r.by, r.snap, s)
		}
	}
}

// allHandled checks that no answered connection left requests out.
func (sw *srvWorld) allHandled() {
	for _, c := range sw.conns {
		if c.closeOK || len(c.q) == 0 {
			continue
		}
		for _, s := range c.q[c.next:] {
			if !s.refused {
				sw.e.W.Fail("lost-request", "the handler never got %s", s)
			}
		}
	}
}

// released checks that nothing is left of the connections that ended.
func (sw *srvWorld) released(wait rt.Duration) {
	e := sw.e
	end := e.W.Now() + wait
	for {
		open := len(e.N.OpenOf(sw.proc))
		if n := sw.live(); n <= sw.base && open == 0 {
			return
		} else if e.W.Now() >= end {
			e.W.Fail("not-released", "all connections ended %.0f s ago, but the server still has %d of them open and runs %d goroutines instead of %d", float64(wait)/1e9, open, n, sw.base)
		}
		rt.Sleep(sec)
	}
}

// ---- C16

func (e *Env) serverFidelity() {
	e.W.ChoosePolicy(true)
	e.netProfile()
	sw := e.newSrv()
	n := e.P.R(1, 4)
	keyless := e.P.N(n)
	var gs []*rt.G
	limit := 900 * sec
	for i := 0; i < n; i++ {
		c := sw.open(e.P.Bool(), i == keyless)
		m := e.P.R(1, 12)
		if e.P.N(6) == 5 {
			// a client in no hurry
			c.pauses = true
			limit += 28 * 3 * 3600 * sec
			e.W.Count("probe.pausing_client")
		}
		for j := 0; j < m; j++ {
			c.q = append(c.q, c.gen(j))
		}
		if e.P.N(3) == 0 {
			c.q = append(c.q, c.genRefused(m))
		}
		window := []int{1, 2, 1 << 30}[e.P.N(3)]
		half := e.P.Bool()
		if len(c.q) == m && e.P.N(5) == 0 {
			c.q = append(c.q, c.genCut(m))
			half = true
		}
		start := dur(e.P, 0, 50*ms)
		gs = append(gs, rt.GoNamed(c.proc.Name+"/reader", c.proc, func() {
			rt.Sleep(start)
			c.session(window, half)
		}))
	}
	if !e.W.Join(limit, gs...) {
		var l []string
		for _, c := range sw.conns {
			if !c.ended && c.got < len(c.q) {
				l = append(l, c.q[c.got].String())
			}
		}
		e.W.Fail("hang", "a client still waits for the reply to %s after %.0f s", strings.Join(l, ", "), float64(limit)/1e9)
	}
	sw.allHandled()
	sw.released(20 * sec)
	sw.stable()
}

var errTransient = []error{syscall.EMFILE, syscall.ENFILE}

func init() {
	register(&Prop{ID: "C16", Real: serverReal, Stub: serverStub,
		Rule: "a run counts if at least one request was answered; runs are distinct by the hash of their interleaving (handler calls, replies, scheduling decisions)",
		Scens: []Scen{
			{"sessions", 10, (*Env).serverFidelity},
		}})
}

var serverReal = []string{"server (all of it, from ListenAndServe on)", "errors"}
var serverStub = []string{"handler (scripted)", "clients (raw byte streams)", "TCP, clock and goroutine scheduling (simulated)"}
