package harness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/cluster"
	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/server"

	"verif.local/dst/node"
	"verif.local/dst/rt"
	"verif.local/dst/xctx"
	"verif.local/dst/xnet"
)

// ---- C22: what a long life leaves behind
//
// Something is done a few times and then many times more. Before and after,
// with everything at rest, the process under test is measured: goroutines,
// timers, connections and memory. None of it may follow the number of
// repetitions.

// deed is something that is repeated.
type deed struct {
	name  string
	n     int // repetitions
	limit int // bytes of memory per repetition that are no evidence
	do    func(n int)
}

type footprint struct {
	gor, timers, conns int
	heap               int64
}

// slack is what memory may grow by for reasons of its own.
const slack = 16 << 10

// measure looks at a process at rest.
func (e *Env) measure(p *rt.Proc, own map[*rt.G]bool) footprint {
	e.Calls, e.watch = nil, nil
	for _, c := range e.Cls {
		c.gs = nil
	}
	for _, n := range e.Nodes {
		n.Log, n.Wipes = nil, nil
		if n.Store != nil {
			n.Store.M = map[string]*node.Entry{}
		}
	}
	e.N.Forget()
	f := footprint{timers: p.Timers, conns: len(e.N.OpenOf(p))}
	for _, g := range e.W.Live() {
		if g.Proc == p && !own[g] {
			f.gor++
		}
	}
	if longRunDebug {
		for _, g := range e.W.Live() {
			fmt.Println("  ", g.Name, g.Proc)
		}
	}
	held := e.W.Forget()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	f.heap = int64(m.HeapAlloc) - held
	return f
}

// lasting runs the deeds of one life. settle brings everything to rest; it
// returns false if that fails.
func (e *Env) lasting(what string, p *rt.Proc, deeds []deed, settle func() bool) {
	if e.W.MaxSteps < 60_000_000 {
		e.W.MaxSteps = 60_000_000
	}
	tracing := e.W.Tracing
	defer func() { e.W.Tracing = tracing }()
	for i := e.P.R(1, 2); i > 0 && !e.W.Failed(); i-- {
		d := deeds[e.P.N(len(deeds))]
		e.W.Count("deed." + strings.ReplaceAll(d.name, " ", "_"))
		run := func(n int) (f footprint, ok bool) {
			e.W.Logf("%d x %s, not traced", n, d.name)
			e.W.Tracing = false
			d.do(n)
			ok = settle()
			e.W.Tracing = tracing
			if ok {
				f = e.measure(p, nil)
				e.W.Logf("%s at rest: %d goroutines, %d timers, %d connections", what, f.gor, f.timers, f.conns)
			}
			return f, ok
		}
		a, ok := run(max(4, d.n/4))
		if !ok {
			e.W.Count("probe.not_settled")
			return
		}
		b, ok := run(d.n)
		if !ok {
			e.W.Count("probe.not_settled")
			return
		}
		e.W.Count("probe.footprints")
		e.Raw++
		if longRunDebug {
			fmt.Printf("%s %s x%d: %+v -> %+v: %d bytes, %.1f each\n", what, d.name, d.n, a, b, b.heap-a.heap, float64(b.heap-a.heap)/float64(d.n))
		}
		grows := func(class, unit string, from, to int) {
			if to > from+max(3, d.n/10) {
				e.W.Fail(class, "after %s (%d times) %s holds %d %s, %d more than before, although everything is at rest", d.name, d.n, what, to, unit, to-from)
			}
		}
		grows("leaked-goroutines", "goroutines", a.gor, b.gor)
		grows("leaked-timers", "running timers", a.timers, b.timers)
		grows("leaked-connections", "open connections", a.conns, b.conns)
		// Memory that is kept once, such as the room of a map or a queue that
		// was crowded, is no leak; it has to grow again and again.
		more := b.heap-a.heap > int64(slack+d.n*d.limit)
		for try := 0; more && try < 2; try++ {
			e.W.Count("probe.footprints_confirmed")
			a = b
			if b, ok = run(d.n); !ok {
				e.W.Count("probe.not_settled")
				return
			}
			more = b.heap-a.heap > int64(slack/2+d.n*d.limit)
		}
		if more {
			e.W.Fail("leaked-memory", "each time %s is done %s keeps more than %d bytes of memory for good (%d times)", d.name, what, d.limit, d.n)
		}
	}
}

// longRunDebug prints all measurements (development).
var longRunDebug = os.Getenv("DST_LONG") != ""

// spread runs fn(0..n-1) from 1-3 callers of the process.
func (e *Env) spread(p *rt.Proc, n int, fn func(i int)) {
	next := 0
	var gs []*rt.G
	for j := e.P.R(1, 3); j > 0; j-- {
		gs = append(gs, rt.GoNamed(fmt.Sprintf("%s/caller%d", p.Name, j), p, func() {
			for next < n && !e.W.Failed() {
				i := next
				next++
				fn(i)
			}
		}))
	}
	e.JoinAll(max(36000*sec, rt.Duration(n)*700*sec), gs...)
}

// purge drops the records of calls and requests.
func (e *Env) purge(every int) {
	if len(e.Calls) >= every {
		live := e.Calls[:0:0]
		for _, k := range e.Calls {
			if k.Ret == 0 {
				live = append(live, k)
			} else {
				e.Raw++
			}
		}
		e.Calls, e.watch = live, nil
		for _, n := range e.Nodes {
			n.Log = nil
		}
	}
}

// manyKeys makes n calls, each about keys of its own.
func (e *Env) manyKeys(c *Cl, n int, w opWeights) {
	dup := e.P.R(1, 3)
	if e.P.Bool() {
		one := e.pickOp(w)
		for op := range w {
			if op != one {
				w = w.with(op, 0)
			}
		}
	}
	e.ver += 1000
	base := e.ver
	e.spread(c.Proc, n, func(i int) {
		k := &Call{Op: e.pickOp(w), Delta: 1}
		key := func(j int) string {
			return fmt.Sprintf("%d-%d-%d-%s", base, i/dup, j, strings.Repeat("k", 200))
		}
		k.Key = key(0)
		switch k.Op {
		case "multi":
			k.Keys, k.Key = []string{k.Key, key(1), key(2)}, ""
		case "set", "add", "replace":
			k.Val = fmt.Sprintf("%d", i)
		}
		c.Do(k)
		if k.Cls == "other" && c.S != nil {
			c.Do(&Call{Op: "reconnect"})
		}
		e.purge(100)
	})
}

var keyMix = opWeights{"get": 3, "multi": 2, "set": 4, "add": 2, "replace": 1, "delete": 2, "incr": 2, "decr": 1, "touch": 2}

// calls makes n calls about a few keys.
func (e *Env) calls(c *Cl, n int, w opWeights, failed func()) {
	ss := map[string]*session{}
	e.spread(c.Proc, n, func(i int) {
		me := e.W.Cur().Name
		if ss[me] == nil {
			ss[me] = newSession(c)
		}
		s := ss[me]
		k := s.next(genOpt{W: w, Keys: 4, Ctr: 1})
		if len(k.Val) > 2000 {
			k.Val = k.Val[:2000]
		}
		c.Do(k)
		s.learn(k)
		if k.Cls == "other" && failed != nil {
			failed()
		}
		e.purge(100)
	})
}

// longClient: one client, pool or replica pool that lives long.
func (e *Env) longClient(kind int) {
	e.W.ChoosePolicy(false)
	e.netProfile()
	o := ClOpt{Timeout: []rt.Duration{sec, 3 * sec, 0}[e.P.N(3)]}
	if e.P.N(3) == 0 {
		o.HB = []rt.Duration{sec, 5 * sec}[e.P.N(2)]
		o.Auto = e.P.Bool()
	}
	node1 := func(name string) *node.Node {
		n := e.NewNode(name, name, 11211)
		n.MaxItem = 40000
		n.Store.MaxItem = 40000
		return n
	}
	var c *Cl
	w := keyMix
	fm := fullMix
	flush := 3
	switch kind {
	case 0:
		c = e.NewClient(e.P.N(3), node1("mc1"), o)
	case 1:
		ns := []*node.Node{node1("mc1"), node1("mc2")}[:e.P.R(1, 2)]
		c = e.NewPool(ns, e.protos(len(ns)), o)
	case 2:
		prim := []*node.Node{node1("mc1"), node1("mc2")}[:e.P.R(1, 2)]
		c = e.NewReplicaPool(prim, []*node.Node{node1("s1"), node1("s2")}[:e.P.R(1, 2)], o)
	}
	if kind > 0 {
		if _, ok := c.KV.(interface{ Touch(string, int) error }); !ok {
			w, fm = w.with("touch", 0), fm.with("touch", 0)
		}
		if _, ok := c.KV.(interface{ Flush() error }); !ok {
			fm = fm.with("flush", 0)
			flush = 0
		}
		if _, ok := c.KV.(interface {
			Version() (map[string]string, error)
		}); !ok {
			fm = fm.with("version", 0)
		}
	}
	f := &faultPlan{e: e, stall: 4 * sec}
	f.install(e.Nodes...)
	f.on = false
	each := func(fn func(s client.Server)) {
		if c.S != nil {
			fn(c.S)
			return
		}
		for _, x := range c.all() {
			fn(x.S)
		}
	}
	nsub := max(1, len(c.all()))
	heal := func() {
		f.on = false
		rt.Sleep(75 * sec)
		for _, n := range e.Nodes {
			if !n.Up {
				n.Restart()
			}
			for _, x := range n.Conns {
				x.Quiet()
			}
		}
	}
	reconnect := func() { c.Do(&Call{Op: "reconnect"}) }
	closeAll := func() {
		// a replica pool is closed server by server
		if x, ok := c.KV.(interface{ Close() error }); ok {
			x.Close()
			return
		}
		each(func(s client.Server) { s.Close() })
	}
	settle := func() bool {
		heal()
		k := c.one(&Call{Op: "reconnect"})
		ok := k.Err == nil
		e.In(c.Proc, "probe", func() {
			each(func(s client.Server) {
				if _, err := s.Get("probe"); !errors.Is(err, merrors.ItemNotFound) {
					ok = false
				}
			})
		})
		rt.Sleep(1000 * sec)
		if n := len(e.N.OpenOf(c.Proc)); ok && n > nsub {
			e.W.Fail("leaked-connections", "%s with %d servers holds %d connections open, although everything is at rest", c, nsub, n)
		}
		return ok
	}
	sample := func() *node.Node { return e.Nodes[e.P.N(len(e.Nodes))] }
	deeds := []deed{
		{"a call about new keys", 1000, 24, func(n int) { e.manyKeys(c, n, w) }},
		{"a call", 1000, 16, func(n int) { e.calls(c, n, fm, nil) }},
		{"a refused call", 400, 32, func(n int) {
			f.on, f.p, f.w, f.left = true, 900, errOnly, n*4
			e.calls(c, n, fm.with("flush", flush), nil)
			f.on = false
		}},
		{"a call on a failing connection", 40, 200, func(n int) {
			f.on, f.p, f.w, f.left = true, 300, e.connFaults(), n*2
			e.calls(c, n, fm, func() {
				rt.Sleep(dur(e.P, 0, sec))
				reconnect()
			})
			f.on = false
		}},
		{"a reconnect", 250, 50, func(n int) {
			e.spread(c.Proc, n, func(i int) {
				reconnect()
				if e.P.N(4) == 0 {
					c.Do(&Call{Op: "get", Key: "k0"})
				}
				e.purge(100)
			})
		}},
		{"a close and reconnect", 120, 60, func(n int) {
			e.spread(c.Proc, n, func(i int) {
				closeAll()
				if e.P.N(4) == 0 {
					c.Do(&Call{Op: "get", Key: "k0"})
				}
				reconnect()
				if e.P.N(4) == 0 {
					c.Do(&Call{Op: "get", Key: "k0"})
				}
				e.purge(100)
			})
		}},
		{"a reconnect to a server that is down", 150, 50, func(n int) {
			x := sample()
			end := e.outage(x, []int{OCrashRst, OCrashFin, OPower}[e.P.N(3)], c.Proc.Host)
			e.spread(c.Proc, n, func(i int) {
				reconnect()
				e.purge(100)
			})
			end()
		}},
		{"a call while a server is down", 200, 60, func(n int) {
			x := sample()
			if e.P.N(3) == 0 {
				x = nil
			}
			var end func()
			if x != nil {
				end = e.outage(x, []int{OCrashRst, OCrashFin}[e.P.N(2)], c.Proc.Host)
			} else {
				// one server refuses everything
				f.on, f.p, f.w, f.left = true, 1000, errOnly, 1<<30
				f.only = sample()
				end = func() { f.on, f.only = false, nil }
			}
			ww := w
			if e.P.Bool() {
				ww = opWeights{"multi": 1}
			}
			e.manyKeys(c, n, ww)
			end()
		}},
		{"a reconnect that a close interrupts", 30, 150, func(n int) {
			e.spread(c.Proc, n, func(i int) {
				x := sample()
				end := e.outage(x, []int{OPart, OPower, OFreeze}[e.P.N(3)], c.Proc.Host)
				g := rt.GoNamed(c.Proc.Name+"/reconnect", c.Proc, reconnect)
				rt.Sleep(dur(e.P, 0, 100*ms))
				closeAll()
				e.W.Join(600*sec, g)
				end()
				e.purge(100)
			})
			e.In(c.Proc, "reconnect", reconnect)
		}},
		{"an outage", 8, 1500, func(n int) {
			for ; n > 0 && !e.W.Failed(); n-- {
				x := sample()
				end := e.outage(x, allOutages[e.P.N(len(allOutages))], c.Proc.Host)
				stop := false
				gs := e.inOutage(c, genOpt{W: fm.with("reconnect", 3), Keys: 4, Ctr: 1}, &stop)
				rt.Sleep(e.outageLen())
				stop = true
				end()
				if !x.Up {
					x.Restart()
				}
				e.JoinAll(2000*sec, gs...)
				if e.P.Bool() {
					rt.Sleep(dur(e.P, 0, 10*sec))
				}
				e.In(c.Proc, "reconnect", reconnect)
				e.purge(100)
			}
		}},
	}
	if _, ok := c.KV.(interface{ Close() error }); ok && kind > 0 {
		// a closed pool does not come back
		deeds[5].do = func(n int) {
			e.spread(c.Proc, n, func(i int) {
				each(func(s client.Server) { s.Close(); s.Reconnect() })
			})
		}
		closeAll = func() { each(func(s client.Server) { s.Close() }) }
	}
	e.lasting(c.String(), c.Proc, deeds, settle)
}

// longProcess: a process that creates and closes clients and pools.
func (e *Env) longProcess() {
	e.W.ChoosePolicy(false)
	e.netProfile()
	n1, n2 := e.NewNode("mc1", "mc1", 11211), e.NewNode("mc2", "mc2", 11211)
	const host = "app"
	e.N.Host(host)
	p := &rt.Proc{Name: host, Host: host}
	opt := func() ClOpt {
		o := ClOpt{Timeout: []rt.Duration{sec, 3 * sec, 0}[e.P.N(3)]}
		if e.P.Bool() {
			o.HB = []rt.Duration{sec, 300 * ms}[e.P.N(2)]
			o.Auto = e.P.Bool()
		}
		return o
	}
	use := func(kv KV) {
		for i := e.P.N(4); i > 0; i-- {
			switch e.P.N(3) {
			case 0:
				kv.Get("k")
			case 1:
				kv.Set(&client.Item{Key: "k", Value: []byte("v")})
			case 2:
				kv.GetMulti("a", "b", "c")
			}
			e.Raw++
		}
		if e.P.N(4) == 0 {
			rt.Sleep(dur(e.P, 0, 3*sec))
		}
	}
	dial := func(proto int, n *node.Node, o ClOpt) client.Server {
		s, err := dialServer(proto, n.Name, n.Host, n.Port, o)
		if err != nil {
			e.W.Fail("connect", "connecting to a healthy server fails: %v", err)
		}
		return s
	}
	deeds := []deed{
		{"using a client and closing it", 80, 80, func(n int) {
			e.spread(p, n, func(i int) {
				s := dial(e.P.N(3), n1, opt())
				use(s)
				if e.P.N(4) == 0 {
					s.Reconnect()
					use(s)
				}
				s.Close()
				if e.P.N(4) == 0 {
					s.Get("k")
				}
			})
		}},
		{"using a pool and closing it", 50, 150, func(n int) {
			e.spread(p, n, func(i int) {
				o := opt()
				pool, err := client.NewSinglePool(dial(e.P.N(3), n1, o), dial(e.P.N(3), n2, o))
				if err != nil {
					e.W.Fail("connect", "creating a pool fails: %v", err)
				}
				use(pool)
				pool.Close()
			})
		}},
		{"using a replica pool and closing it", 40, 200, func(n int) {
			e.spread(p, n, func(i int) {
				o := opt()
				a, b := dial(Meta, n1, o).(*client.ServerWithMetaProtocol), dial(Meta, n2, o).(*client.ServerWithMetaProtocol)
				use(cluster.NewReplicaPool([]*client.ServerWithMetaProtocol{a}, []*client.ServerWithMetaProtocol{b}))
				a.Close()
				b.Close()
			})
		}},
		{"a first connection that fails", 100, 60, func(n int) {
			end := e.outage(n1, []int{OCrashRst, OCrashFin, OPower, OPart}[e.P.N(4)], host)
			e.spread(p, n, func(i int) {
				ctx, cancel := context.Background(), func() {}
				if e.P.Bool() {
					ctx, cancel = xctx.WithTimeout(ctx, []time.Duration{0, time.Duration(5 * ms), time.Duration(sec)}[e.P.N(3)])
				}
				s, err := dialServerCtx(ctx, e.P.N(3), n1.Name, n1.Host, n1.Port, opt())
				cancel()
				e.Raw++
				if err == nil {
					s.Close()
				}
			})
			end()
		}},
		{"closing a client in trouble", 20, 200, func(n int) {
			e.spread(p, n, func(i int) {
				s, err := dialServer(e.P.N(3), n1.Name, n1.Host, n1.Port, opt())
				if err != nil {
					// the trouble of another caller
					rt.Sleep(sec)
					return
				}
				end := e.outage(n1, []int{OPart, OFreeze, OPartFrom, OPartTo}[e.P.N(4)], host)
				g := rt.GoNamed("app/call", p, func() {
					s.Get("k")
					if e.P.Bool() {
						s.Reconnect()
					}
				})
				rt.Sleep(dur(e.P, 0, 4*sec))
				s.Close()
				end()
				if !e.W.Join(700*sec, g) {
					e.W.Fail("hang", "a call on a closed client does not return")
				}
				s.Close()
			})
		}},
	}
	e.lasting("the process, with no client left,", p, deeds, func() bool {
		for _, n := range e.Nodes {
			if !n.Up {
				n.Restart()
			}
		}
		rt.Sleep(1300 * sec)
		return true
	})
}

// peers opens n connections to a server, one after the other or a few at a
// time, which send something and end in some way.
func (e *Env) peers(host string, port int, n, width int, wire func(i int) []byte) {
	procs := make([]*rt.Proc, width)
	for j := range procs {
		h := fmt.Sprintf("peer%d", j)
		e.N.Host(h)
		procs[j] = &rt.Proc{Name: h, Host: h}
	}
	next := 0
	var gs []*rt.G
	for _, p := range procs {
		gs = append(gs, rt.GoNamed(p.Name+"/client", p, func() {
			for next < n && !e.W.Failed() {
				i := next
				next++
				conn, err := xnet.Dial("tcp", fmt.Sprintf("%s:%d", host, port))
				if err != nil {
					continue
				}
				e.Raw++
				var rd *rt.G
				if e.P.N(4) > 0 {
					rd = rt.GoNamed(p.Name+"/reader", p, func() { io.Copy(io.Discard, conn) })
				}
				conn.SetWriteDeadline(timeIn(30 * sec))
				conn.Write(wire(i))
				if e.P.Bool() {
					rt.Sleep(dur(e.P, 0, 2*sec))
				}
				tc := conn.(*xnet.TCPConn)
				switch e.P.N(6) {
				case 0:
					tc.Abort()
				case 1:
					tc.CloseWrite()
					rt.Sleep(dur(e.P, 0, 5*sec))
					conn.Close()
				case 2:
					// the host vanishes and is back
					e.N.CrashHost(p.Host)
					conn.Close()
					rt.Sleep(dur(e.P, 0, 5*sec))
					e.N.BootHost(p.Host)
				default:
					conn.Close()
				}
				if rd != nil {
					e.W.Join(3600*sec, rd)
				}
			}
		}))
	}
	if !e.W.Join(360000*sec, gs...) {
		e.W.Fail("hang", "a client does not get on")
	}
}

// request is a valid request of either protocol.
func (e *Env) request(bin bool, key string) []byte {
	if bin {
		switch e.P.N(5) {
		case 0:
			return binReq(0, 1, 0, nil, key, "")
		case 1:
			return binReq([]byte{1, 2, 3}[e.P.N(3)], 1, 0, make([]byte, 8), key, "value")
		case 2:
			return binReq(4, 1, 0, nil, key, "")
		case 3:
			return binReq(5, 1, 0, make([]byte, 20), key, "")
		}
		return binReq(0x0a, 1, 0, nil, "", "")
	}
	return []byte(strings.ReplaceAll([]string{"get @\r\n", "gets @\r\n", "set @ 0 0 5\r\nvalue\r\n", "add @ 0 0 5\r\nvalue\r\n", "delete @\r\n", "incr @ 1\r\n",
		"mg @ v\r\n", "ms @ 5 T0\r\nvalue\r\n", "md @\r\n", "version\r\n"}[e.P.N(10)], "@", key))
}

// connections are the deeds of clients of a server.
func (e *Env) connections(host string, port int) []deed {
	uniq := 0
	few := e.P.R(1, 3)
	key := func() string {
		uniq++
		return fmt.Sprintf("%d-%s", uniq, strings.Repeat("k", 200))
	}
	session := func(i int) []byte {
		bin := e.P.Bool()
		var b []byte
		for j := e.P.N(4); j > 0; j-- {
			b = append(b, e.request(bin, key())...)
		}
		if e.P.N(4) == 0 && len(b) > 0 {
			b = b[:e.P.N(len(b))]
		}
		return b
	}
	return []deed{
		{"a connection", 80, 80, func(n int) { e.peers(host, port, n, few, session) }},
		{"a request about a new key", 800, 24, func(n int) {
			const per = 50
			e.peers(host, port, n/per, 1, func(i int) []byte {
				bin := e.P.Bool()
				var b []byte
				for j := 0; j < per; j++ {
					b = append(b, e.request(bin, key())...)
				}
				return b
			})
		}},
		{"a malformed request", 60, 80, func(n int) {
			e.peers(host, port, n, few, func(i int) []byte {
				for try := 0; try < 100; try++ {
					if b, claim := e.malformed("bad", e.P.Bool()); !claim {
						return append(session(i), b...)
					}
				}
				return append(session(i), "bogus bad\r\n"...)
			})
		}},
		{"a connection among many", 120, 80, func(n int) { e.peers(host, port, n, 20, session) }},
	}
}

// longServer: a server that gets many connections and requests.
func (e *Env) longServer() {
	e.W.ChoosePolicy(false)
	e.netProfile()
	sw := e.newSrv()
	var fail int
	sw.evil = func(req *server.Request) ([]*server.Response, error) {
		if e.P.N(8) == 0 {
			rt.Sleep(dur(e.P, 0, 50*ms))
		}
		if e.P.P(fail) {
			return nil, e.handlerError()
		}
		switch e.P.N(4) {
		case 0:
			return []*server.Response{{Key: req.Key, Error: merrors.ItemNotFound}}, nil
		case 1:
			return []*server.Response{{Key: req.Key, Value: bytes.Repeat([]byte("v"), e.P.N(3000))}}, nil
		}
		return []*server.Response{{Key: req.Key, Value: []byte("1")}}, nil
	}
	deeds := e.connections(srvHost, srvPort)
	deeds = append(deeds, deed{"a failure of the handler", 60, 100, func(n int) {
		fail = 600
		deeds[0].do(n)
		fail = 0
	}}, deed{"a failure to accept", 12, 1000, func(n int) {
		l := e.N.ListenerAt(srvHost, srvPort)
		left := n
		l.AcceptErr = func() error {
			if left == 0 {
				return nil
			}
			left--
			e.W.Count("fault.accept_error")
			return errTransient[e.P.N(len(errTransient))]
		}
		for i := 0; i < n && left > 0; i++ {
			l.Wake()
			rt.Sleep(2 * sec)
		}
		l.AcceptErr = nil
		deeds[0].do(n)
	}})
	e.lasting("the server, with no client left,", sw.proc, deeds, func() bool {
		for i := 0; len(e.N.OpenOf(sw.proc)) > 0; i++ {
			if i > 1300 {
				e.W.Fail("leaked-connections", "all clients are gone for 1300 s, but the server holds %d connections", len(e.N.OpenOf(sw.proc)))
			}
			rt.Sleep(sec)
		}
		rt.Sleep(1000 * sec)
		return true
	})
}

// longRouter: a router that runs for long.
func (e *Env) longRouter() {
	e.W.ChoosePolicy(false)
	e.netProfile()
	r := e.newRouter()
	r.free()
	r.f.install(e.Nodes...)
	r.f.on = false
	r.f.stall = 2 * sec
	c := r.client(e.P.N(3), ClOpt{Timeout: 10 * sec})
	w := keyMix
	deeds := e.connections(routerHost, routerPort)
	deeds = append(deeds,
		deed{"a call about new keys", 400, 30, func(n int) { e.manyKeys(c, n, w) }},
		deed{"a get or set of new keys", 600, 30, func(n int) { e.manyKeys(c, n, opWeights{"get": 2, "multi": 2, "set": 2}) }},
		deed{"a get or set of new keys", 600, 30, func(n int) { e.manyKeys(c, n, opWeights{"get": 2, "multi": 2, "set": 2}) }},
		deed{"a call that the backends refuse", 200, 60, func(n int) {
			r.f.on, r.f.p, r.f.w, r.f.left = true, 500, errOnly, n*4
			e.calls(c, n, w, nil)
			r.f.on = false
		}},
		deed{"a call with backends in trouble", 24, 1000, func(n int) {
			r.f.on, r.f.p, r.f.w, r.f.left = true, 200, e.connFaults(), n*2
			e.calls(c, n, w, func() {
				rt.Sleep(dur(e.P, 0, 3*sec))
				c.Do(&Call{Op: "reconnect"})
			})
			r.f.on = false
		}},
		deed{"an outage of a backend", 6, 2000, func(n int) {
			for ; n > 0 && !e.W.Failed(); n-- {
				end := r.outage(e.Nodes[e.P.N(len(e.Nodes))], allOutages[e.P.N(len(allOutages))])
				if e.P.Bool() {
					e.calls(c, 4, w, func() { c.Do(&Call{Op: "reconnect"}) })
				}
				rt.Sleep(e.outageLen())
				end()
				if e.P.Bool() {
					rt.Sleep(dur(e.P, 0, 10*sec))
				}
			}
		}})
	e.lasting("the router, with no client left,", r.proc, deeds, func() bool {
		r.f.on = false
		rt.Sleep(75 * sec)
		for _, n := range e.Nodes {
			if !n.Up {
				n.Restart()
			}
			for _, x := range n.Conns {
				x.Quiet()
			}
		}
		rt.Sleep(1300 * sec)
		// idle connections to backends are made when they are wanted
		if c.one(&Call{Op: "reconnect"}).Err != nil {
			return false
		}
		for _, key := range r.keys {
			c.one(&Call{Op: "set", Key: key, Val: "v"})
			if c.one(&Call{Op: "get", Key: key}).Cls != "" {
				return false
			}
		}
		c.one(&Call{Op: "close"})
		rt.Sleep(60 * sec)
		back := len(e.Nodes)
		if n := len(e.N.OpenOf(r.proc)); n > back {
			e.W.Fail("leaked-connections", "the router with %d backends and no client holds %d connections, although everything is at rest", back, n)
		}
		return true
	})
}

func init() {
	register(&Prop{ID: "C22", Real: append(append([]string(nil), routerReal...), clientReal...), Stub: routerStub,
		Rule: "a run counts if at least one footprint was compared; runs are distinct by the hash of their interleaving",
		Scens: []Scen{
			{"client", 5, func(e *Env) { e.longClient(0) }},
			{"pool", 2, func(e *Env) { e.longClient(1) }},
			{"replica-pool", 3, func(e *Env) { e.longClient(2) }},
			{"process", 3, (*Env).longProcess},
			{"server", 4, (*Env).longServer},
			{"router", 3, (*Env).longRouter},
		}})
}
