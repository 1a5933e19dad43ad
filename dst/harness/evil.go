package harness

import (
	"bytes"
	"fmt"
	"runtime/metrics"
	"strings"
	"syscall"
	"time"

	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/server"

	"verif.local/dst/rt"
	"verif.local/dst/xnet"
	"verif.local/dst/xtime"
)

// ---- C17: clients that send anything, stop anywhere and vanish

func timeIn(d rt.Duration) time.Time { return xtime.Now().Add(time.Duration(d)) }

func heapAllocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// malformed draws bytes that no server may take for a request; key is the key
// in them. claim is a length they announce without sending that much.
func (e *Env) malformed(key string, bin bool) (b []byte, claim bool) {
	p := e.P
	if !bin {
		l := []string{
			"set %s 0 0 -1\r\n", "set %s 0 0 -2\r\n", "set %s 0 0 -2147483648\r\n", "set %s 0 0 abc\r\nabc\r\n", "set %s 0 0\r\nabc\r\n", "set %s\r\n", "set %s 0\r\n",
			"set %s x 0 3\r\nabc\r\n", "set %s 0 x 3\r\nabc\r\n", "set %s 0 0 3\r\nabcdefgh\r\n", "set %s 0 0 3\r\nabcde", "set %s 0 0 3\r\nabc\n\n", "set %s 0 0 99999999999999999999\r\nabc\r\n",
			"add %s 0 0 -1\r\n", "replace %s 0 0 -5\r\nabc\r\n", "add %s 0 0 2\r\nabc\r\n", "replace %s 4294967296 0 3\r\nabc\r\n",
			"incr %s\r\n", "incr %s abc\r\n", "decr %s 1x\r\n", "decr %s 18446744073709551616\r\n", "touch %s\r\n", "touch %s zz\r\n", "delete %s 1 2 3 4\r\n",
			"ms %s\r\nabc\r\n", "ms %s -1 T0\r\n", "ms %s 3 S-5\r\nabc\r\n", "ms %s abc T0\r\nabc\r\n", "ms %s 3 T\r\nabc\r\n", "ms %s 3 Tabc\r\nabc\r\n", "ms %s 3 Fx\r\nabc\r\n", "ms %s 3 C\r\nabc\r\n", "ms %s 3 C-1\r\nabc\r\n",
			"ms %s 3 T0\r\nabcde\r\n", "ms %s 3 S\r\nabc\r\n", "ms %s 2 S-2 T0\r\n\r\n", "ms %s 3 T0 C99999999999999999999\r\nabc\r\n", "ms %s 4 T0\r\nab",
			"bogus %s\r\n", "GET %s\r\n", "%s\r\n", "\r\n%s\r\n", "gets%s\r\n", "mg%s v\r\n", "\x00get %s\r\n", "get\t%s\r\n",
			"get\r\n", "gets\r\n", "get \r\n", "mg\r\n", "ms\r\n", "md\r\n", "md \r\n", "set\r\n", "incr  5\r\n", "delete\r\n", "touch\r\n", "set  0 0 3\r\nabc\r\n", "ms  3 T0\r\nabc\r\n",
		}
		f := l[p.N(len(l))]
		switch p.N(12) {
		case 0:
			return []byte(fmt.Sprintf("set %s 0 0 %d\r\n", key, []int{2147483645, 1 << 30, 500000000}[p.N(3)]) + "abc\r\n"), true
		case 1:
			return []byte(fmt.Sprintf("ms %s %d T0\r\n", key, []int{2147483645, 4294967290, 1 << 30}[p.N(3)]) + "abc\r\n"), true
		case 2:
			return []byte(fmt.Sprintf("ms %s 3 S%d\r\n", key, []int{2147483645, 1 << 30}[p.N(2)]) + "abc\r\n"), true
		}
		if strings.Contains(f, "%s") {
			f = fmt.Sprintf(f, key)
		}
		return []byte(f), false
	}
	set := func(op byte, el int, key, val string) []byte { return binReq(op, 7, 0, make([]byte, el), key, val) }
	patch := func(b []byte, at int, v ...byte) []byte { copy(b[at:], v); return b }
	switch p.N(18) {
	case 0:
		return set([]byte{1, 2, 3}[p.N(3)], p.N(8), key, "abc"), false
	case 1:
		return set([]byte{1, 2, 3}[p.N(3)], 9+p.N(100), key, "abc"), false
	case 2: // the body is shorter than extras and key
		b := set(1, 8, key, "")
		return patch(b, 8, 0, 0, 0, byte(p.N(8+len(key)))), false
	case 3: // the key is longer than the body
		return patch(set(1, 8, key, "abc"), 2, 0xff, 0xff), false
	case 4: // get with extras or value
		return set(0, 1+p.N(8), key, ""), false
	case 5:
		return set([]byte{0, 0x0d, 4}[p.N(3)], 0, key, "garbage"), false
	case 6:
		return set([]byte{5, 6}[p.N(2)], p.N(20), key, ""), false
	case 7:
		return set([]byte{5, 6}[p.N(2)], 21+p.N(50), key, ""), false
	case 8:
		return set([]byte{5, 6}[p.N(2)], 20, key, "value"), false
	case 9:
		return set(0x1c, p.N(4), key, ""), false
	case 10:
		return set(0x1c, 5+p.N(30), key, ""), false
	case 11: // wrong magic
		b := set(1, 8, key, "abc")
		b[0] = []byte{0x81, 0, 0xff, 'g'}[p.N(4)]
		return b, false
	case 12:
		return set([]byte{7, 0x09, 0x0c, 0x0f, 0x20, 0x40, 0xff, 0x80}[p.N(8)], 0, key, ""), false
	case 13: // a length that never arrives
		b := set(1, 8, key, "abc")
		return patch(b, 8, []byte{0xff, 0x7f, 0x40}[p.N(3)], 0xff, 0xff, 0xff), true
	case 14:
		b := set([]byte{0, 4, 0x0d}[p.N(3)], 0, key, "")
		return patch(b, 8, 0x7f, 0xff, 0xff, 0xff), true
	case 15: // no key
		return set([]byte{0, 1, 2, 3, 4, 0x0d}[p.N(6)], 0, "", key), false
	case 16:
		return set([]byte{0, 4}[p.N(2)], 0, "", ""), false
	}
	return patch(set(1, 255, key, "abc"), 8, 0, 0, 0, 3), false
}

// mutate damages a stream of requests.
func (e *Env) mutate(b []byte) []byte {
	p := e.P
	b = append([]byte(nil), b...)
	for i := p.R(1, 6); i > 0 && len(b) > 0; i-- {
		at := p.N(len(b))
		switch p.N(8) {
		case 0, 1:
			b[at] ^= 1 << p.N(8)
		case 2:
			b[at] = byte(p.N(256))
		case 3:
			b = append(b[:at], b[at+1+p.N(min(8, len(b)-at)):]...)
		case 4:
			ins := []string{" ", "\r\n", "\n", "-", "0", "99999999999", "\x00", "\x80", "\xff\xff", "noreply", " S-1", " v"}[p.N(12)]
			b = append(b[:at:at], append([]byte(ins), b[at:]...)...)
		case 5:
			n := p.N(min(64, len(b)-at) + 1)
			b = append(b[:at+n:at+n], b[at:]...)
		case 6:
			b = b[:at]
		case 7:
			if i := bytes.IndexByte(b[at:], ' '); i >= 0 {
				b[at+i] = '\n'
			}
		}
	}
	return b
}

// mischief is one misbehaving connection; it returns when the client is done
// with it.
func (sw *srvWorld) mischief(id int) {
	e := sw.e
	p := e.P
	bin := p.Bool()
	host := fmt.Sprintf("evil%d", id)
	e.N.Host(host)
	proc := &rt.Proc{Name: host, Host: host}
	// whoever asks for these keys was not understood
	bad := fmt.Sprintf("bad%d", id)
	good := &rawc{sw: sw, id: 1000 + id, bin: bin, proc: proc}
	var wire []byte
	var queue []*sreq
	for i := p.N(4); i > 0; i-- {
		s := good.gen(len(queue))
		queue = append(queue, s)
		wire = append(wire, s.wire...)
	}
	known := true // the requests in the stream are known
	claim := false
	sent := 0
	kind := p.N(7)
	e.W.Count("fault.client_" + []string{"malformed", "truncated", "mutated", "garbage", "not_reading", "silent", "endless_line"}[kind])
	var tail []byte
	switch kind {
	case 0:
		tail, claim = e.malformed(bad, bin)
		if p.Bool() && !claim {
			s := good.gen(len(queue))
			tail = append(tail, s.wire...)
			known = false
		}
	case 1:
		s := good.gen(len(queue))
		tail = s.wire[:p.N(len(s.wire))]
	case 2:
		s := good.gen(len(queue))
		wire = e.mutate(append(wire, s.wire...))
		queue, known = nil, false
	case 3:
		tail = make([]byte, p.N(300))
		for i := range tail {
			tail[i] = byte(p.N(256))
			if p.N(6) == 0 {
				tail[i] = " \r\n-\x80\x00"[p.N(6)]
			}
		}
		known = false
	case 4:
		for i := p.R(10, 60); i > 0; i-- {
			if bin {
				tail = append(tail, binReq(0, 1, 0, nil, "big", "")...)
			} else {
				tail = append(tail, "get big\r\n"...)
			}
		}
		known = false
	case 6:
		tail = bytes.Repeat([]byte("get aaaaaaaa "), p.R(1, 8000))
		if bin {
			tail = bytes.Repeat([]byte{0x80, 0, 0, 8}, p.R(1, 10000))
			known = false
		}
	}
	next := 0
	saw := func(req *server.Request) {
		if strings.HasPrefix(req.Key, bad) || len(req.Keys) > 0 && strings.HasPrefix(req.Keys[0], bad) || known && next >= len(queue) {
			e.W.Fail("malformed-accepted", "the handler gets %s although the client only sent %q", descReq(req), short(string(wire)+string(tail)))
		}
		if !known && next >= len(queue) {
			return
		}
		if d := queue[next].diff(req); d != "" {
			e.W.Fail("request-differs", "for %s the handler gets %s: %s", queue[next], descReq(req), d)
		}
		next++
	}
	sw.evil = func(req *server.Request) ([]*server.Response, error) {
		saw(req)
		if req.Key == "big" {
			return []*server.Response{{Key: "big", Value: bytes.Repeat([]byte("B"), 9000)}}, nil
		}
		if p.N(4) == 0 {
			rt.Sleep(dur(p, 0, 50*ms))
		}
		switch p.N(4) {
		case 0:
			return []*server.Response{{Error: merrors.ItemNotFound}}, nil
		case 1:
			return nil, e.handlerError()
		}
		return []*server.Response{{Key: req.Key, Value: []byte("1")}}, nil
	}
	before := heapAllocs()
	g := rt.GoNamed(host+"/client", proc, func() {
		conn, err := xnet.Dial("tcp", fmt.Sprintf("%s:%d", srvHost, srvPort))
		if err != nil {
			e.W.Fail("not-accepted", "a connection to the server fails: %v", err)
			return
		}
		tc := conn.(*xnet.TCPConn)
		if kind != 4 && p.Bool() {
			rt.GoNamed(host+"/reader", proc, func() {
				b := make([]byte, 4096)
				for {
					if _, err := conn.Read(b); err != nil {
						return
					}
				}
			})
		}
		all := append(append([]byte(nil), wire...), tail...)
		if kind == 5 {
			all = nil
		}
		conn.SetWriteDeadline(timeIn(30 * sec))
		for len(all) > 0 {
			k := len(all)
			if p.N(3) == 0 {
				k = 1 + p.N(k)
			}
			n, err := conn.Write(all[:k])
			sent += n
			if err != nil {
				break
			}
			all = all[k:]
			if p.N(6) == 5 {
				rt.Sleep(dur(p, 0, 200*ms))
			}
		}
		if p.Bool() {
			rt.Sleep(dur(p, 0, 3*sec))
		}
		switch p.N(5) {
		case 0:
			e.W.Count("fault.client_reset")
			tc.Abort()
		case 1:
			e.W.Count("fault.client_half_close")
			tc.CloseWrite()
			rt.Sleep(dur(p, 0, 5*sec))
			conn.Close()
		case 2:
			e.W.Count("fault.client_host_crash")
			e.N.CrashHost(host)
		case 3:
			e.W.Count("fault.client_partition")
			e.N.BlockBoth(host, srvHost)
			rt.Sleep(dur(p, 0, 3*sec))
			tc.Abort()
		default:
			conn.Close()
		}
	})
	if !e.W.Join(900*sec, g) {
		e.W.Fail("hang", "a misbehaving client does not get on")
	}
	rt.Sleep(dur(p, 0, sec))
	if claim || kind == 6 {
		// whatever is announced, memory follows what was sent
		if got := heapAllocs() - before; got > uint64(250<<20)+64*uint64(sent) {
			e.W.Fail("memory", "%d bytes from a client made the server allocate %d MB", sent, got>>20)
		}
	}
}

func (e *Env) serverRobustness() {
	e.W.ChoosePolicy(true)
	e.netProfile()
	sw := e.newSrv()
	// healthy clients before, meanwhile and afterwards
	n := e.P.R(1, 2)
	var gs []*rt.G
	healthy := func(late rt.Duration, m int) {
		c := sw.open(e.P.Bool(), false)
		c.noHerr = true
		for j := 0; j < m; j++ {
			c.q = append(c.q, c.gen(j))
		}
		window := e.P.R(1, 3)
		gs = append(gs, rt.GoNamed(c.proc.Name+"/reader", c.proc, func() {
			rt.Sleep(late)
			c.session(window, false)
		}))
	}
	for i := 0; i < n; i++ {
		healthy(dur(e.P, 0, sec), e.P.R(2, 15))
	}
	if e.P.N(3) == 0 {
		// the server runs out of descriptors for a while
		l := e.N.ListenerAt(srvHost, srvPort)
		from := e.W.Now() + dur(e.P, 0, 2*sec)
		to := from + dur(e.P, 0, 3*sec)
		err := errTransient[e.P.N(len(errTransient))]
		left := []int{1, 3, 1 << 20}[e.P.N(3)]
		l.AcceptErr = func() error {
			if now := e.W.Now(); now < from || now >= to || left == 0 {
				return nil
			}
			left--
			return err
		}
		e.W.At(from-e.W.Now(), l.Wake)
	}
	// connections that stay as they are for the whole time
	var release func()
	if e.P.Bool() {
		n := e.P.R(1, 5)
		if e.P.N(25) == 24 {
			n = []int{40, 130, 300}[e.P.N(3)]
			e.W.Count("probe.crowd")
		}
		release = sw.holders(n)
	}
	for i := e.P.R(1, 6); i > 0; i-- {
		sw.mischief(i)
		// what this client sent may still be in the server
		sw.settle()
	}
	sw.evil = nil
	healthy(0, 3)
	if !e.W.Join(900*sec, gs...) {
		var l []string
		for _, c := range sw.conns {
			if !c.ended && c.got < len(c.q) {
				l = append(l, c.q[c.got].String())
			}
		}
		e.W.Fail("hang", "a well-behaved client still waits for the reply to %s after 900 s", strings.Join(l, ", "))
	}
	if release != nil {
		release()
	}
	sw.allHandled()
	sw.released(1200 * sec)
	sw.stable()
}

// listenerEnds: the listener is closed or fails for good while clients are
// connected.
func (e *Env) listenerEnds() {
	e.W.ChoosePolicy(true)
	e.netProfile()
	sw := e.newSrv()
	var gs []*rt.G
	for i := e.P.R(1, 4); i > 0; i-- {
		c := sw.open(e.P.Bool(), false)
		c.noHerr = true
		for j := e.P.R(2, 15); j > 0; j-- {
			c.q = append(c.q, c.gen(len(c.q)))
		}
		window := e.P.R(1, 3)
		gs = append(gs, rt.GoNamed(c.proc.Name+"/reader", c.proc, func() { c.session(window, false) }))
	}
	l := e.N.ListenerAt(srvHost, srvPort)
	for i := 0; ; i++ {
		waiting := l.Queued()
		for _, c := range sw.conns {
			waiting += b2i(c.conn == nil)
		}
		if waiting == 0 {
			break
		}
		if i > 6000 {
			e.W.Fail("not-accepted", "connections to the server are not accepted for %d s", 600)
		}
		rt.Sleep(100 * ms)
	}
	rt.Sleep(dur(e.P, 0, sec))
	sw.stopped = true
	if e.P.Bool() {
		l.CloseNow()
	} else {
		err := []error{syscall.EBADF, syscall.EINVAL, syscall.ENOTSOCK, syscall.EOPNOTSUPP}[e.P.N(4)]
		l.AcceptErr = func() error { return err }
		l.Wake()
	}
	for i := 0; !sw.served; i++ {
		if i > 100 {
			e.W.Fail("hang", "Serve does not return although its listener has failed for good 10 s ago")
		}
		rt.Sleep(100 * ms)
	}
	if sw.serveErr == nil {
		e.W.Fail("server-stopped", "Serve reports success although its listener failed")
	}
	if e.N.ListenerAt(srvHost, srvPort) != nil {
		e.W.Fail("not-released", "Serve has returned but its listener is still open")
	}
	e.W.Count("probe.serve_returned")
	join := func(gs []*rt.G) {
		if !e.W.Join(900*sec, gs...) {
			e.W.Fail("hang", "a client that was connected before the listener ended still waits for a reply after 900 s")
		}
	}
	join(gs)
	sw.allHandled()
	sw.released(20 * sec)
	sw.stable()
	// the address is free for another server
	sw = e.newSrv()
	c := sw.open(e.P.Bool(), false)
	c.noHerr = true
	c.q = append(c.q, c.gen(0), c.gen(1))
	join([]*rt.G{rt.GoNamed(c.proc.Name+"/reader", c.proc, func() { c.session(1, false) })})
	sw.allHandled()
}

// holders opens connections that neither end nor get on: silent ones, ones in
// the middle of a request, ones that do not read, and ones whose handler takes
// its time. None of that is the business of other connections.
func (sw *srvWorld) holders(n int) (release func()) {
	e := sw.e
	p := e.P
	var q rt.WaitQ
	released := false
	sw.hold = func(req *server.Request) ([]*server.Response, error) {
		key := req.Key
		if key == "" && len(req.Keys) > 0 {
			key = req.Keys[0]
		}
		if key == "holdslow" {
			for !released {
				q.Wait("slow handler", -1)
			}
		}
		if key != "holdslow" && key != "holdbig" {
			e.W.Fail("malformed-accepted", "the handler gets %s although no client sent a whole request with that key", descReq(req))
		}
		return []*server.Response{{Key: key, Value: bytes.Repeat([]byte("H"), 9000)}}, nil
	}
	for i := 0; i < n; i++ {
		host := fmt.Sprintf("hold%d", i)
		e.N.Host(host)
		proc := &rt.Proc{Name: host, Host: host}
		kind := p.N(4)
		if i > 5 && kind > 1 {
			kind = 0
		}
		e.W.Count("fault.holding_client_" + []string{"silent", "half_request", "not_reading", "slow_handler"}[kind])
		bin := p.Bool()
		get := func(key string) []byte {
			if bin {
				return binReq(0, 1, 0, nil, key, "")
			}
			return []byte([]string{"get ", "gets "}[p.N(2)] + key + "\r\n")
		}
		var wire []byte
		switch kind {
		case 1:
			if bin {
				wire = binReq(1, 0, 0, make([]byte, 8), "holdhalf", "abc")
			} else {
				wire = []byte([]string{"get holdhalf\r\n", "set holdhalf 0 0 3\r\nabc\r\n", "ms holdhalf 3 T0\r\nabc\r\n"}[p.N(3)])
			}
			wire = wire[:p.R(1, len(wire)-1)]
		case 2:
			for j := p.R(20, 60); j > 0; j-- {
				wire = append(wire, get("holdbig")...)
			}
		case 3:
			wire = get("holdslow")
		}
		wait := dur(p, 0, sec)
		rt.GoNamed(host+"/client", proc, func() {
			rt.Sleep(wait)
			conn, err := xnet.Dial("tcp", fmt.Sprintf("%s:%d", srvHost, srvPort))
			if err != nil {
				if !released {
					e.W.Fail("not-accepted", "a connection to the server fails: %v", err)
				}
				return
			}
			if !released {
				rt.GoNamed(host+"/writer", proc, func() { conn.Write(wire) })
			}
			for !released {
				q.Wait("hold", -1)
			}
			switch p.N(2) {
			case 0:
				conn.(*xnet.TCPConn).Abort()
			default:
				conn.Close()
			}
		})
	}
	if p.Bool() {
		rt.Sleep(dur(p, 0, 2*sec))
	}
	return func() {
		released = true
		q.NotifyAll()
		rt.Sleep(2 * sec)
	}
}

// settle waits until nothing that an ended client sent can reach the handler
// any more.
func (sw *srvWorld) settle() {
	rt.Sleep(100 * ms) // a connection may be on its way
	for i := 0; ; i++ {
		open := sw.e.N.ListenerAt(srvHost, srvPort).Queued()
		for _, c := range sw.e.N.OpenOf(sw.proc) {
			if strings.HasPrefix(c.Peer().HostName(), "evil") {
				open++
			}
		}
		if open == 0 {
			return
		}
		if i > 1200 {
			sw.e.W.Fail("not-released", "a client is gone for 1200 s, but its connection is still open")
		}
		rt.Sleep(sec)
	}
}

func init() {
	register(&Prop{ID: "C17", Real: serverReal, Stub: serverStub,
		Rule: "a run counts if at least one request was answered; runs are distinct by the hash of their interleaving (handler calls, replies, scheduling decisions)",
		Scens: []Scen{
			{"robustness", 12, (*Env).serverRobustness},
			{"listener", 1, (*Env).listenerEnds},
		}})
}
