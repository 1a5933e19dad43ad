package harness

import (
	"flag"
	"fmt"
	"io"
	"os"
	"strings"

	routermain "go.f110.dev/go-memcached/cmd/router"
	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/server"

	"verif.local/dst/node"
	"verif.local/dst/rt"
	"verif.local/dst/xnet"
)

// The real router (cmd/router from main on) in front of simulated backends.

const routerHost, routerPort = "router", 8090

type routerWorld struct {
	e         *Env
	proc      *rt.Proc
	gen       int
	prim, sec []*node.Node
	at        *node.Node // stands for the router where clients want a server
	at2       *node.Node // a second router in front of the same backends
	writes    map[string][]*Call
	everAt    map[string]map[string]bool
	f         *faultPlan
	keys      []string
	crashIn   int // the router dies soon after that many backend requests
	crashes   int
	ill       int // outages under way
	starting  bool
}

func (e *Env) newRouter() *routerWorld {
	r := &routerWorld{e: e, writes: map[string][]*Call{}, everAt: map[string]map[string]bool{}}
	e.bigValues(e.P.N(60) == 59)
	names, keys := e.poolSet(3)
	r.keys = keys
	r.prim = e.poolNodes(names)
	if e.P.N(4) == 0 && len(names) > 1 {
		r.sec = e.poolNodes(names)
	} else {
		r.sec = e.poolNodes([]string{"s1", "s2", "s3"}[:e.P.R(1, 3)])
	}
	for _, n := range r.prim {
		n.Store.SetCas(uint64(e.P.N(5)))
		n.OnExec = func(x *node.Exec) { r.exec(x, true) }
	}
	for _, n := range r.sec {
		n.Store.SetCas(uint64(e.P.N(8)))
		n.OnExec = func(x *node.Exec) { r.exec(x, false) }
	}
	e.N.Host(routerHost)
	r.at = &node.Node{Name: "router", Host: routerHost, Port: routerPort, MaxItem: r.prim[0].MaxItem}
	r.f = &faultPlan{e: e}
	r.start()
	return r
}

// config lists the servers in any order.
func (r *routerWorld) config() string {
	var sb strings.Builder
	for i, ns := range [][]*node.Node{r.prim, r.sec} {
		sb.WriteString([]string{"primary:\n", "secondary:\n"}[i])
		left := append([]*node.Node(nil), ns...)
		for len(left) > 0 {
			j := r.e.P.N(len(left))
			n := left[j]
			left = append(left[:j], left[j+1:]...)
			fmt.Fprintf(&sb, "  - name: %q\n    host: %s\n    port: %d\n", n.Name, n.Host, n.Port)
		}
	}
	return sb.String()
}

// start runs the router's main in a new process.
func (r *routerWorld) start() {
	r.gen++
	r.proc = r.startOn(routerHost)
}

// startOn runs the router's main on a host.
func (r *routerWorld) startOn(host string) *rt.Proc {
	e := r.e
	p := &rt.Proc{Name: fmt.Sprintf("%s%d", host, r.gen), Host: host}
	p.OnExit = func(reason string) {
		e.W.Fail("router-exit", "the router exits: %s", reason)
	}
	file := fmt.Sprintf("%s/dst-router-%d.yaml", os.TempDir(), os.Getpid())
	if err := os.WriteFile(file, []byte(r.config()), 0o600); err != nil {
		panic(err)
	}
	rt.GoNamed(p.Name+"/main", p, func() {
		flag.CommandLine = flag.NewFlagSet("router", flag.PanicOnError)
		os.Args = []string{"router", "-conf", file}
		routermain.Main()
		e.W.Fail("router-exit", "the router's main function returns")
	})
	r.starting = true
	defer func() { r.starting = false }()
	for i := 0; e.N.ListenerAt(host, routerPort) == nil && !p.Dead; i++ {
		if i > 600 {
			os.Remove(file)
			e.W.Fail("router-start", "the router does not listen")
		}
		rt.Sleep([]rt.Duration{ms, sec}[min(i/100, 1)])
	}
	os.Remove(file)
	return p
}

// second starts another router in front of the same backends.
func (r *routerWorld) second() {
	r.e.N.Host("routerb")
	r.startOn("routerb")
	r.at2 = &node.Node{Name: "routerb", Host: "routerb", Port: routerPort, MaxItem: r.prim[0].MaxItem}
	r.e.W.Count("probe.second_router")
}

// crash ends the router's process at once, restart brings it back.
func (r *routerWorld) crash(power bool) {
	if r.proc.Dead {
		return
	}
	e := r.e
	r.crashes++
	e.W.Count("fault.router_" + []string{"crash", "power_failure"}[b2i(power)])
	if power {
		e.N.CrashHost(routerHost)
	}
	e.W.KillProc(r.proc)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// supervise restarts the router whenever it died and its backends are up.
func (r *routerWorld) supervise(done *bool) *rt.G {
	e := r.e
	return rt.GoNamed("supervisor", nil, func() {
		for !*done || r.proc.Dead {
			rt.Sleep(50 * ms)
			if !r.proc.Dead || r.ill > 0 {
				continue
			}
			rt.Sleep(dur(e.P, 0, 3*sec))
			on := r.f.on
			r.f.on = false
			e.N.BootHost(routerHost)
			rt.Sleep(100 * ms)
			up := r.ill == 0
			for _, n := range e.Nodes {
				up = up && n.Up
			}
			if up {
				r.start()
			}
			r.f.on = on
		}
	})
}

// exec watches everything the backends do.
func (r *routerWorld) exec(x *node.Exec, primary bool) {
	e := r.e
	if r.crashIn > 0 {
		if r.crashIn--; r.crashIn == 0 {
			power := e.P.N(4) == 0
			e.W.At(dur(e.P, 0, 2*ms), func() { r.crash(power) })
		}
	}
	if !x.Executed {
		return
	}
	side := "secondary"
	if primary {
		side = "primary"
	}
	m := mutating[x.Op]
	if m == "" && x.Op != "touch" && x.Op != "gat" && x.Op != "gats" {
		return
	}
	if m != "store" {
		e.W.Fail("unsupported-executed", "the router made %s %s execute %q for key %q, and no client asked for anything but gets and sets", side, x.Node.Name, x.Op, x.Key)
	}
	if dig(x.Pre) == dig(x.Post) || x.Post == nil {
		return
	}
	ks := r.writes[x.Key+"\x00"+string(x.Post.Val)]
	if len(ks) == 0 {
		e.W.Fail("invented-value", "%s %s stores %s for key %q, which nobody set", side, x.Node.Name, entry(x.Post), x.Key)
		return
	}
	for i, k := range ks {
		// values that name nothing may have been sent more than once
		if i == len(ks)-1 || r.differs(k, x, side) == "" {
			r.lives(k, x, side)
			break
		}
	}
	if primary {
		if r.everAt[x.Key] == nil {
			r.everAt[x.Key] = map[string]bool{}
		}
		r.everAt[x.Key][dig(x.Post)] = true
	} else if !r.everAt[x.Key][dig(x.Post)] {
		e.W.Fail("secondary-leads", "secondary %s holds %s for key %q, which no primary ever held", x.Node.Name, entry(x.Post), x.Key)
	}
}

// client connects a library client to the router.
func (r *routerWorld) client(proto int, o ClOpt) *Cl {
	at := r.at
	if r.at2 != nil && r.e.P.Bool() {
		at = r.at2
	}
	return r.e.NewClient(proto, at, o)
}

// do performs one call and checks what can be said at once.
func (r *routerWorld) do(c *Cl, k *Call) {
	k.C = c
	if k.Op == "set" || k.Op == "cas" {
		r.writes[k.Key+"\x00"+k.Val] = append(r.writes[k.Key+"\x00"+k.Val], k)
	}
	c.Do(k)
	if k.Cls == "other" {
		return
	}
	switch k.Op {
	case "set", "cas":
		if k.Tok != 0 && c.Proto == Text {
			r.e.W.Fail("unsupported-accepted", "%s returned %s; the server has no text cas", k, k.Result())
		}
		if k.Cls == "" {
			r.stored(k, r.prim, "primary")
			r.stored(k, r.sec, "secondary")
		}
	case "add", "replace", "delete", "incr", "decr", "touch", "flush", "version":
		r.e.W.Fail("unsupported-accepted", "%s returned %s; the router does not support it", k, k.Result())
	}
}

// stored checks that an acknowledged set was executed.
func (r *routerWorld) stored(k *Call, ns []*node.Node, side string) {
	for _, n := range ns {
		for i := len(n.Log) - 1; i >= 0; i-- {
			x := n.Log[i]
			if x.Seq < k.Inv {
				break
			}
			if x.Executed && x.Key == k.Key && mutating[x.Op] == "store" && x.Outcome == "stored" && x.Post != nil && string(x.Post.Val) == k.Val {
				return
			}
			if k.Exp != 0 && x.Executed && x.Key == k.Key && mutating[x.Op] == "store" && x.Outcome == "stored" && x.Post == nil {
				return // expired at once
			}
		}
	}
	r.e.W.Fail("not-replicated", "%s was acknowledged, but no %s stored it", k, side)
}

const month = 60 * 60 * 24 * 30

// lives checks the flags and the expiration of a copy as it is stored.
func (r *routerWorld) lives(k *Call, x *node.Exec, side string) {
	if d := r.differs(k, x, side); d != "" {
		r.e.W.Fail("copy-differs", "%s", d)
	}
}

func (r *routerWorld) differs(k *Call, x *node.Exec, side string) string {
	if x.Post.Flags != k.Flags {
		return fmt.Sprintf("for %s %s %s stores %s", k, side, x.Node.Name, entry(x.Post))
	}
	bad := false
	ends := x.Post.Exp
	want := "never"
	if k.Exp == 0 {
		bad = ends != 0
	} else {
		// the end of its life in seconds of the backend's clock
		st := x.Node.Store
		end := int64(k.Exp) - st.Start()
		if k.Exp <= month {
			end = int64(k.Exp) + st.Rel()
		}
		d := ends - end
		bad = ends == 0 || d < -2 || d > 2
		want = fmt.Sprint("at ", end)
	}
	if bad {
		return fmt.Sprintf("for %s %s %s stores a copy that expires at %d of its clock (0: never) instead of %s", k, side, x.Node.Name, ends, want)
	}
	return ""
}

var routerMixW = opWeights{"get": 8, "multi": 4, "set": 8, "cas": 6, "add": 1, "replace": 1, "delete": 1, "incr": 1, "decr": 1, "touch": 1, "flush": 1, "version": 1}
var routerPlain = opWeights{"get": 6, "multi": 3, "set": 8, "cas": 3}

// call draws a call for the router.
func (r *routerWorld) call(s *session, w opWeights, keys []string) *Call {
	e := r.e
	k := &Call{Op: e.pickOp(w)}
	switch k.Op {
	case "flush", "version":
		return k
	}
	k.Key = keys[e.P.N(len(keys))]
	switch k.Op {
	case "multi":
		k.Key = ""
		for _, i := range e.perm(len(keys))[:1+e.P.N(len(keys))] {
			k.Keys = append(k.Keys, keys[i])
		}
	case "set", "add", "replace", "cas":
		k.Val = e.anyValue(k.Key, len(e.Calls)*100+e.P.N(100))
		e.flags(k)
		k.Exp = []int{0, 0, 0, 100000, month, int(r.prim[0].Clock()) + r.e.far(5000000)}[e.P.N(6)]
		if k.Op == "cas" {
			if t := s.toks[k.Key]; t != 0 && s.c.Proto != Text {
				k.Tok = t
			} else if t != 0 && e.P.N(4) == 0 {
				k.Tok = t
			} else {
				k.Op = "set"
			}
		}
	case "incr", "decr":
		k.Delta = 1 + e.P.N(20)
		k.Exp = []int{-1, 0, 100000}[e.P.N(3)]
	case "touch":
		k.Exp = []int{0, 100000}[e.P.N(2)]
	}
	return k
}

func (r *routerWorld) snap(ns []*node.Node) map[string]*node.Entry {
	m := map[string]*node.Entry{}
	for _, k := range view(ns).keys() {
		if x := view(ns).Peek(k); x != nil {
			m[k] = cloneEntry(x)
		}
	}
	return m
}

// same compares the contents of a set of backends.
func (r *routerWorld) same(pre map[string]*node.Entry, ns []*node.Node, except, what, side string) {
	post := r.snap(ns)
	for key, x := range pre {
		if key != except && !sameEntry(x, post[key]) {
			r.e.W.Fail("side-effect", "%s changed key %q of the %s from %s to %s", what, key, side, entry(x), entry(post[key]))
		}
	}
	for key, x := range post {
		if key != except && pre[key] == nil {
			r.e.W.Fail("side-effect", "%s created key %q of the %s: %s", what, key, side, entry(x))
		}
	}
}

// equal compares the copies of a key.
func (r *routerWorld) equal(key, when string) {
	p, q := view(r.prim).Peek(key), view(r.sec).Peek(key)
	if dig(p) != dig(q) {
		r.e.W.Fail("copies-differ", "%s the primary holds %s for key %q and the secondary %s", when, entry(p), key, entry(q))
	}
}

// routerExact: calls of several clients one after the other are judged
// exactly, backends refuse some requests.
func (e *Env) routerExact() {
	e.netProfile()
	r := e.newRouter()
	var ss []*session
	for i := e.P.R(1, 3); i > 0; i-- {
		ss = append(ss, newSession(r.client(e.P.N(3), ClOpt{})))
	}
	errP := &faultPlan{e: e, p: []int{0, 0, 150, 300}[e.P.N(4)], w: errOnly, left: 1 << 30}
	errS := &faultPlan{e: e, p: []int{0, 0, 150, 300}[e.P.N(4)], w: errOnly, left: 1 << 30}
	errP.install(r.prim...)
	errS.install(r.sec...)
	for _, n := range e.Nodes {
		decide := n.Decide
		n.Decide = func(c *node.Conn, q *node.Req) node.Action {
			if q.Op == "version" {
				return node.Action{} // heartbeats
			}
			return decide(c, q)
		}
	}
	dirty := map[string]bool{}
	for i := e.P.R(5, 40); i > 0 && !e.W.Failed(); i-- {
		s := ss[e.P.N(len(ss))]
		k := r.call(s, routerMixW, r.keys)
		if k.Op == "cas" && e.P.N(3) == 0 {
			k.Tok += uint64(e.P.N(3))
		}
		pre, preS := r.snap(r.prim), r.snap(r.sec)
		at := map[*node.Node]int{}
		for _, n := range e.Nodes {
			at[n] = len(n.Log)
		}
		e.In(s.c.Proc, s.c.Proc.Name+"/call", func() { r.do(s.c, k) })
		refused := func(ns []*node.Node) (m int) {
			for _, n := range ns {
				for _, x := range n.Log[at[n]:] {
					if x.Action == node.AErr {
						m++
					}
				}
			}
			return
		}
		refP, refS := refused(r.prim), refused(r.sec)
		bad := func(format string, args ...any) {
			e.W.Fail("untruthful", "%s returned %s, but %s", k, k.Result(), fmt.Sprintf(format, args...))
		}
		except := ""
		x := pre[k.Key]
		want := ""
		switch k.Op {
		case "get":
			if x == nil {
				want = "notfound"
			} else if k.Cls == "" {
				e.sameItem(k, k.Item, x, r.prim)
			}
		case "multi":
			got := map[string]bool{}
			for _, i := range k.Items {
				if pre[i.Key] == nil {
					bad("key %q is absent", i.Key)
				}
				if i.Cas == 0 && k.C.Proto == Text {
					i.Cas = pre[i.Key].Cas
				}
				e.sameItem(k, i, pre[i.Key], r.prim)
				got[i.Key] = true
			}
			for _, q := range k.Keys {
				if k.Cls == "" && pre[q] != nil && !got[q] {
					bad("key %q is present and missing from the result", q)
				}
			}
		case "set":
			except = k.Key
		case "cas":
			switch {
			case k.C.Proto == Text:
				want = "other"
			case x == nil:
				want = "notfound"
			case x.Cas != k.Tok:
				want = "exists"
			default:
				except = k.Key
			}
		default:
			want = "other"
		}
		if refP > 0 {
			want, except = "other", ""
		} else if refS > 0 {
			want = "other"
			dirty[k.Key] = true
			if except == "" {
				bad("a secondary was asked and refused it")
			}
		}
		if k.Cls != want {
			w := want
			if w == "" {
				w = "success"
			}
			bad("with key %q being %s on the primary, %d requests refused by primaries and %d by secondaries the outcome is %s", k.Key, entry(x), refP, refS, w)
		}
		r.same(pre, r.prim, except, k.String(), "primary")
		if refS > 0 {
			except = ""
		}
		r.same(preS, r.sec, except, k.String(), "secondary")
		if except != "" {
			post := view(r.prim).Peek(k.Key)
			if post == nil || string(post.Val) != k.Val || post.Flags != k.Flags {
				bad("afterwards the primary holds %s", entry(post))
			}
			dirty[k.Key] = false
			r.equal(k.Key, fmt.Sprintf("after %s returned %s", k, k.Result()))
		}
		s.learn(k)
		if k.Cls == "other" {
			// the router may have ended the connection
			rc := s.c.one(&Call{Op: "reconnect"})
			if rc.Err != nil {
				e.W.Fail("reconnect-failed", "after %s the router cannot be reached: %v", k, rc.Err)
			}
		}
		if e.P.N(6) == 0 {
			rt.Sleep(dur(e.P, 0, 3*sec))
		}
	}
	for _, key := range sortedKeys(e.keysOf()) {
		if !dirty[key] {
			r.equal(key, "at the end")
		}
	}
}

// outage makes a backend unavailable to the router.
func (r *routerWorld) outage(n *node.Node, kind int) func() {
	for r.starting {
		rt.Sleep(10 * ms) // the router has to find its backends when it starts
	}
	r.ill++
	end := r.e.outage(n, kind, routerHost)
	return func() {
		end()
		if !n.Up {
			n.Restart()
		}
		r.ill--
	}
}

// routerMix: any number of clients, backend faults, router crashes.
func (e *Env) routerMix(faults bool) {
	e.W.ChoosePolicy(true)
	e.netProfile()
	r := e.newRouter()
	keys := r.keys
	wide := false
	switch e.P.N(8) {
	case 0, 1, 2, 3:
		keys = keys[:1]
	case 7:
		// large multi-gets
		wide = true
		e.W.Count("probe.many_keys")
		for i := e.P.R(6, 40); i > 0; i-- {
			keys = append(keys[:len(keys):len(keys)], fmt.Sprintf("wide%d", i))
		}
	default:
		if len(keys) > 3 {
			keys = keys[:3]
		}
	}
	r.f = &faultPlan{e: e, w: e.connFaults(), left: 6, stall: 4 * sec}
	crashy := false
	if faults {
		crashy = e.P.N(3) > 0
		r.f.p = []int{0, 20, 60, 200}[e.P.N(4)]
		r.f.install(e.Nodes...)
	} else {
		r.f = e.slow(e.Nodes...)
		if e.P.N(3) == 0 {
			r.second()
		}
	}
	for i := e.P.R(1, 4); i > 0; i-- {
		r.client(e.P.N(3), ClOpt{Timeout: []rt.Duration{0, sec, 10 * sec}[e.P.N(3)]})
	}
	if wide {
		// most of the keys are there
		c := e.Cls[0]
		e.JoinAll(2500*sec, c.Spawn("fill", func() {
			for _, key := range keys {
				if e.P.N(8) < 7 {
					k := &Call{Op: "set", Key: key, Val: e.anyValue(key, len(e.Calls)*100)}
					r.do(c, k)
					if k.Cls == "other" {
						c.Do(&Call{Op: "reconnect"})
					}
				}
			}
		}))
	}
	if crashy && e.P.Bool() {
		r.crashIn = e.P.R(1, 20)
	}
	done := false
	sup := r.supervise(&done)
	var gs []*rt.G
	running := 0
	for _, c := range e.Cls {
		w := routerMixW
		if e.P.Bool() {
			w = routerPlain
		}
		if wide {
			w = routerPlain.with("multi", 12)
		}
		for j := e.P.R(1, 2); j > 0; j-- {
			ops := e.P.R(2, 10)
			running++
			gs = append(gs, c.Spawn("caller"+string(rune('0'+j)), func() {
				defer func() { running-- }()
				s := newSession(c)
				for i := 0; i < ops; i++ {
					k := r.call(s, w, keys)
					r.do(c, k)
					s.learn(k)
					if e.P.N(4) == 3 {
						rt.Sleep(dur(e.P, 0, 20*ms))
					}
					if k.Cls == "other" {
						rt.Sleep(dur(e.P, 0, 500*ms))
						c.Do(&Call{Op: "reconnect"})
					}
				}
			}))
		}
	}
	if faults {
		for i := e.P.N(3); i > 0 && running > 0; i-- {
			rt.Sleep(dur(e.P, 0, 50*ms))
			if crashy && e.P.Bool() {
				r.crash(e.P.N(4) == 0)
				rt.Sleep(dur(e.P, 0, 6*sec))
				continue
			}
			end := r.outage(e.Nodes[e.P.N(len(e.Nodes))], allOutages[e.P.N(len(allOutages))])
			rt.Sleep(dur(e.P, 0, 6*sec))
			end()
		}
	}
	e.JoinAll(2500*sec, gs...)
	r.f.on = false
	r.crashIn = 0
	done = true
	e.JoinAll(600*sec, sup)
	rt.Sleep(130 * sec)
	e.checkItems()
	r.linear()
	if !faults && r.at2 == nil {
		for _, key := range sortedKeys(e.keysOf()) {
			r.equal(key, "at the end")
		}
	}
}

func (r *routerWorld) owner(key string) *node.Node {
	var at *node.Node
	for _, n := range r.prim {
		for _, x := range n.Log {
			if x.HasKey(key) {
				if at != nil && at != n {
					r.e.W.Fail("two-owners", "the router sent requests for key %q to %s and to %s", key, at.Name, n.Name)
				}
				at = n
			}
		}
	}
	return at
}

func (r *routerWorld) linear() {
	e := r.e
	o := defaultLin()
	o.WipesOf = func(key string) []uint64 {
		if n := r.owner(key); n != nil {
			return wipes(n)
		}
		return nil
	}
	o.Skip = func(k *Call) bool {
		switch k.Op {
		case "get", "multi", "set", "cas":
			return false
		}
		return true
	}
	seq := e.W.Seq()
	o.Final = func(key string) *lop {
		l := &lop{call: seq, ret: seq, kind: "get", cls: "notfound", noTok: true, desc: "final contents: absent"}
		if x := view(r.prim).Peek(key); x != nil {
			l.cls, l.val, l.flags = "", string(x.Val), x.Flags
			l.desc = "final contents: " + short(l.val)
		}
		return l
	}
	e.CheckLin(e.Calls, o)
}

// ---- raw clients of the router

// req draws one request of a raw client; the reply it has to get is derived
// from what the primaries hold. It returns the set call it stands for, if any.
func (r *routerWorld) req(c *rawc, n int) (*sreq, *Call) {
	e := r.e
	p := e.P
	s := &sreq{c: c, n: n, opq: uint32(p.N(1 << 16))}
	key := r.keys[p.N(len(r.keys))]
	s.key = key
	hit := func(key string) *server.Response {
		x := view(r.prim).Peek(key)
		if x == nil {
			return nil
		}
		return &server.Response{Key: key, Value: append([]byte(nil), x.Val...), Flags: be32(x.Flags), Cas: int64(x.Cas), TTL: r.prim[0].Store.TTL(x)}
	}
	get := func() {
		if h := hit(key); h != nil {
			s.res = []*server.Response{h}
		} else {
			s.res = []*server.Response{{Error: merrors.ItemNotFound}}
		}
	}
	var k *Call
	store := func() {
		k = &Call{Op: "set", Key: key, Val: e.anyValue(key, len(e.Calls)*100+n), Flags: flagChoices[p.N(len(flagChoices))],
			Exp: []int{0, 0, 100000, month, int(r.prim[0].Clock()) + r.e.far(5000000)}[p.N(5)]}
		e.Calls = append(e.Calls, k)
		r.writes[key+"\x00"+k.Val] = append(r.writes[key+"\x00"+k.Val], k)
		s.val, s.flags, s.exp = k.Val, k.Flags, k.Exp
		s.res = []*server.Response{{}}
	}
	cond := func() {
		x := view(r.prim).Peek(key)
		switch {
		case x == nil:
			s.cas = 1 + uint64(p.N(100))
			s.res = []*server.Response{{Error: merrors.ItemNotFound}}
		case p.Bool():
			s.cas = x.Cas
		default:
			s.cas = casChoices[p.N(len(casChoices))]
			if p.Bool() {
				s.cas = x.Cas + 1
			}
			if s.cas == x.Cas {
				return
			}
			s.res = []*server.Response{{Error: merrors.ItemExists}}
		}
	}
	ops := []string{"get", "gets", "getm", "set", "mg", "mg", "ms", "ms", "noop", "bad", "bad"}
	if c.bin {
		ops = []string{"get", "getkq", "set", "set", "noop", "bad"}
	}
	s.op = ops[p.N(len(ops))]
	switch s.op {
	case "get":
		get()
		if c.bin {
			s.wire = binReq(0x00, s.opq, 0, nil, key, "")
		} else {
			s.wire = []byte("get " + key + "\r\n")
		}
	case "getkq":
		get()
		s.silent = s.res[0].Error != nil
		s.wire = binReq(0x0d, s.opq, 0, nil, key, "")
	case "gets", "getm":
		for _, i := range e.perm(len(r.keys))[:1+p.N(len(r.keys))] {
			s.keys = append(s.keys, r.keys[i])
			if h := hit(r.keys[i]); h != nil {
				s.res = append(s.res, h)
			}
		}
		s.wire = []byte(strings.TrimSuffix(s.op, "m") + " " + strings.Join(s.keys, " ") + "\r\n")
	case "set":
		store()
		if c.bin {
			if p.Bool() {
				cond()
			}
			s.wire = binReq(0x01, s.opq, s.cas, append(be32(s.flags), be32(uint32(s.exp))...), key, s.val)
		} else {
			s.wire = []byte(fmt.Sprintf("set %s %d %d %d\r\n%s\r\n", key, s.flags, s.exp, len(s.val), s.val))
		}
	case "mg":
		get()
		fl := []string{"v", "f", "c", "k", "s"}
		if s.res[0].TTL < 0 {
			fl = append(fl, "t")
		}
		var sh []string
		for _, i := range e.perm(len(fl)) {
			sh = append(sh, fl[i])
		}
		s.mg = sh[:p.R(1, len(sh))]
		if p.N(6) == 0 {
			s.mg = append(s.mg, "q")
			s.silent = s.res[0].Error != nil
		}
		s.wire = []byte("mg " + key + " " + strings.Join(s.mg, " ") + "\r\n")
	case "ms":
		store()
		fl := []string{fmt.Sprintf("T%d", s.exp), fmt.Sprintf("F%d", s.flags)}
		if s.exp == 0 && p.Bool() {
			fl = fl[1:]
		}
		if p.Bool() {
			cond()
			if s.cas != 0 {
				fl = append(fl, fmt.Sprintf("C%d", s.cas))
			}
		}
		if p.N(3) == 0 {
			s.ms = append(s.ms, "k")
		}
		if p.N(3) == 0 {
			s.opqM = int64(1 + p.N(1<<30))
			s.ms = append(s.ms, fmt.Sprintf("O%d", s.opqM))
		}
		if p.N(6) == 0 {
			s.ms = append(s.ms, "q")
			s.silent = s.res[0].Error == nil
		}
		fl = append(fl, s.ms...)
		var sh []string
		for _, i := range e.perm(len(fl)) {
			sh = append(sh, fl[i])
		}
		s.wire = []byte(fmt.Sprintf("ms %s %d %s\r\n%s\r\n", key, len(s.val), strings.Join(sh, " "), s.val))
	case "noop":
		s.res = []*server.Response{{}}
		s.wire = []byte("mn\r\n")
		if c.bin {
			s.wire = binReq(0x0a, s.opq, 0, nil, "", "")
		}
	case "bad":
		s.refused = true
		s.wire = r.unsupported(c.bin, key)
	}
	if s.res != nil && s.res[0].Error != nil {
		k = nil
	}
	return s, k
}

// unsupported draws a well-formed request for something the router does not
// offer.
func (r *routerWorld) unsupported(bin bool, key string) []byte {
	p := r.e.P
	if bin {
		op := []byte{0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x0b, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x18, 0x19, 0x1a, 0x1c, 0x1d, 0x1e}[p.N(23)]
		ex, val := []byte(nil), ""
		switch op {
		case 0x02, 0x03, 0x11, 0x12, 0x13:
			ex, val = make([]byte, 8), "badvalue"
		case 0x05, 0x06, 0x15, 0x16:
			ex = make([]byte, 20)
			ex[7] = 5
		case 0x0e, 0x0f, 0x19, 0x1a:
			val = "badvalue"
		case 0x1c, 0x1d, 0x1e:
			ex = be32(uint32(p.N(100)))
		case 0x07, 0x08, 0x0b, 0x10, 0x18:
			key = ""
		}
		if p.N(6) == 0 {
			// a key the router's backends cannot be asked for
			op = []byte{0, 1}[p.N(2)]
			key = []string{"a b", "nl\nx", "cr\rset x 0 0 1\r\n1\r\n", " ", "nul\x00", "x\r\nflush_all"}[p.N(6)]
			ex, val = nil, ""
			if op == 1 {
				ex, val = make([]byte, 8), "badvalue"
			}
		}
		return binReq(op, 9, 0, ex, key, val)
	}
	l := []string{"append %s 0 0 3\r\nabc\r\n", "prepend %s 0 0 3\r\nabc\r\n", "cas %s 0 0 3 77\r\nabc\r\n", "gat 10 %s\r\n", "gats 10 %s\r\n",
		"mg %s T30\r\n", "mg %s v N30\r\n", "mg %s v T-1\r\n", "ms %s 3 T0 ME\r\nabc\r\n", "ms %s 3 MA\r\nabc\r\n", "ma %s\r\n", "ma %s D5 v\r\n", "me %s\r\n",
		"set %s 0 0 3 noreply\r\nabc\r\n", "delete %s\r\n", "delete %s noreply\r\n", "incr %s 1\r\n", "decr %s 1\r\n", "incr %s 1 noreply\r\n", "md %s\r\n", "md %s q\r\n", "md %s I T30\r\n",
		"add %s 0 0 3\r\nabc\r\n", "replace %s 0 0 3\r\nabc\r\n", "touch %s 10\r\n", "touch %s 0\r\n", "touch %s -1\r\n", "flush_all%.0s\r\n", "flush_all 10%.0s\r\n", "version%.0s\r\n", "verbosity 1%.0s\r\n", "stats%.0s\r\n"}
	return []byte(fmt.Sprintf(l[p.N(len(l))], key))
}

// routerRaw: raw requests one after the other get exactly the reply the
// primaries' contents call for, and unsupported ones have no effect.
func (e *Env) routerRaw() {
	e.netProfile()
	r := e.newRouter()
	sw := &srvWorld{e: e, host: routerHost, port: routerPort, proc: r.proc}
	var c *rawc
	n := 0
	p := &rt.Proc{Name: "raw", Host: "raw"}
	e.N.Host("raw")
	dead := true
	for i := e.P.R(5, 40); i > 0 && !e.W.Failed(); i-- {
		if dead {
			c = &rawc{sw: sw, id: len(sw.conns), bin: e.P.Bool(), proc: p}
			sw.conns = append(sw.conns, c)
			e.In(p, "raw/dial", c.dial)
			dead = false
		}
		pre, preS := r.snap(r.prim), r.snap(r.sec)
		s, k := r.req(c, n)
		n++
		inv := e.W.Seq()
		e.In(p, "raw/request", func() {
			b := s.wire
			for len(b) > 0 {
				m := len(b)
				if e.P.N(4) == 0 {
					m = 1 + e.P.N(m)
				}
				if _, err := c.conn.Write(b[:m]); err != nil {
					if s.refused {
						dead = true
						return
					}
					e.W.Fail("closed", "sending %s fails: %v", s, err)
				}
				b = b[m:]
			}
			if s.silent {
				rt.Sleep(sec)
				if m := c.r.Buffered() + c.conn.(*xnet.TCPConn).Pending(); m > 0 {
					b, _ := c.r.Peek(min(m, 100))
					e.W.Fail("wrong-reply", "%s gets the answer %q, there should be none", s, b)
				}
				return
			}
			msg, eof := s.reply()
			if eof {
				if !s.refused {
					e.W.Fail("unanswered", "%s is not answered, the connection ends (%s)", s, msg)
				}
				dead = true
				return
			}
			if msg != "" {
				e.W.Fail("wrong-reply", "%s: %s; the primary called for %s", s, msg, descRes(s))
			}
			e.Raw++
		})
		e.W.Count("probe.requests")
		except := ""
		if k != nil {
			except = k.Key
			k.Inv = inv
			r.stored(k, r.prim, "primary")
			r.stored(k, r.sec, "secondary")
		}
		if s.refused {
			e.W.Count("probe.refused_requests")
			// what follows on this connection is open
			e.In(p, "raw/close", func() { c.conn.Close() })
			dead = true
			rt.Sleep(dur(e.P, 0, 3*sec))
		}
		r.same(pre, r.prim, except, s.String(), "primary")
		r.same(preS, r.sec, except, s.String(), "secondary")
		if except != "" {
			r.equal(except, "after "+s.String())
		}
	}
}

// ---- C19

// routerRecovers: outages of backends of any kind and length.
func (e *Env) routerRecovers() {
	e.W.ChoosePolicy(false)
	e.netProfile()
	r := e.newRouter()
	keys := append([]string(nil), r.keys...)
	for i := 0; i < 6; i++ {
		keys = append(keys, fmt.Sprintf("key-%d-%d", i, e.P.N(100000)))
	}
	c := r.client(e.P.N(3), ClOpt{})
	set := func(c *Cl, key string) *Call {
		k := &Call{Op: "set", Key: key, Val: e.value(key, len(e.Calls)*100)}
		e.In(c.Proc, c.Proc.Name+"/call", func() { r.do(c, k) })
		return k
	}
	for _, key := range keys {
		if k := set(c, key); k.Cls != "" {
			e.W.Fail("spurious-error", "%s failed with %v although nothing was wrong", k, k.Err)
		}
	}
	on := func(key string, ns []*node.Node) *node.Node {
		for _, n := range ns {
			for _, x := range n.Log {
				if x.HasKey(key) {
					return n
				}
			}
		}
		return nil
	}
	for round := e.P.R(1, 4); round > 0 && !e.W.Failed(); round-- {
		sick := map[*node.Node]bool{}
		for i := e.P.R(1, 2); i > 0; i-- {
			sick[e.Nodes[e.P.N(len(e.Nodes))]] = true
		}
		if e.P.N(5) == 0 {
			for _, n := range e.Nodes {
				sick[n] = true
			}
		}
		var good, bad []string
		for _, key := range keys {
			if sick[on(key, r.prim)] || sick[on(key, r.sec)] {
				bad = append(bad, key)
			} else {
				good = append(good, key)
			}
		}
		stop := false
		var gs, bs []*rt.G
		caller := func(keys []string, good bool) *rt.G {
			o := ClOpt{Timeout: []rt.Duration{0, sec, 5 * sec}[e.P.N(3)]}
			c := r.client(e.P.N(3), o)
			m := e.P.R(2, 10)
			return c.Spawn("caller", func() {
				s := newSession(c)
				for i := 0; i < m && !stop; i++ {
					k := r.call(s, routerPlain, keys)
					if k.Op == "cas" && c.Proto == Text {
						k.Op, k.Tok = "set", 0
					}
					r.do(c, k)
					s.learn(k)
					if good {
						if k.Cls == "other" {
							e.W.Fail("not-isolated", "%s failed with %v because of trouble with backends of other keys", k, k.Err)
						}
						if d := k.T1 - k.T0; d > 2*sec {
							e.W.Fail("not-isolated", "%s took %.3f s because of trouble with backends of other keys", k, float64(d)/1e9)
						}
					} else if k.Cls == "other" {
						c.Do(&Call{Op: "reconnect"})
					}
					rt.Sleep(dur(e.P, 0, 400*ms))
				}
			})
		}
		early := e.P.Bool()
		if early && len(bad) > 0 {
			bs = append(bs, caller(bad, false))
			rt.Sleep(dur(e.P, 0, 20*ms))
		}
		loud := true
		var ends []func()
		for _, n := range e.Nodes {
			if !sick[n] {
				continue
			}
			kind := allOutages[e.P.N(len(allOutages))]
			if e.P.N(3) == 0 {
				kind = loudOutages[e.P.N(len(loudOutages))]
			}
			isLoud := false
			for _, l := range loudOutages {
				isLoud = isLoud || l == kind
			}
			loud = loud && isLoud
			ends = append(ends, r.outage(n, kind))
		}
		if len(good) > 0 {
			for i := e.P.R(1, 2); i > 0; i-- {
				gs = append(gs, caller(good, true))
			}
		}
		if len(bad) > 0 {
			for i := e.P.N(3); i > 0; i-- {
				bs = append(bs, caller(bad, false))
			}
		}
		rt.Sleep(e.outageLen())
		if e.P.N(6) == 0 {
			rt.Sleep(dur(e.P, 0, 3000*sec))
		}
		e.JoinAll(60*sec, gs...)
		for _, end := range ends {
			end()
		}
		// a heartbeat that failed, one that is under way, a dial that is
		// under way; silent losses are noticed by TCP alone
		wait := 6 * sec
		if !loud {
			wait = 300 * sec
		}
		rt.Sleep(wait)
		stop = true
		e.JoinAll(900*sec, bs...)
		c := r.client(e.P.N(3), ClOpt{Timeout: 10 * sec})
		for _, i := range e.perm(len(keys)) {
			k := set(c, keys[i])
			if k.Cls == "" {
				k = &Call{Op: "get", Key: keys[i]}
				e.In(c.Proc, c.Proc.Name+"/call", func() { r.do(c, k) })
			}
			if k.Cls != "" {
				e.W.Fail("not-recovered", "%.0f s after all backends became reachable %s returned %s", float64(wait)/1e9, k, k.Result())
			}
		}
	}
	e.checkItems()
}

// routerAbused: clients misbehave and backends fail at the same time.
func (e *Env) routerAbused() {
	e.W.ChoosePolicy(true)
	e.netProfile()
	r := e.newRouter()
	r.f = &faultPlan{e: e, p: []int{0, 50, 200}[e.P.N(3)], w: e.connFaults(), left: 8, stall: 4 * sec}
	r.f.install(e.Nodes...)
	if e.P.N(3) == 0 {
		l := e.N.ListenerAt(routerHost, routerPort)
		from := e.W.Now() + dur(e.P, 0, 2*sec)
		to := from + dur(e.P, 0, 3*sec)
		err := errTransient[e.P.N(len(errTransient))]
		left := []int{1, 3, 1 << 20}[e.P.N(3)]
		l.AcceptErr = func() error {
			if now := e.W.Now(); now < from || now >= to || left == 0 {
				return nil
			}
			left--
			e.W.Count("fault.accept_error")
			return err
		}
		e.W.At(from-e.W.Now(), l.Wake)
	}
	var gs []*rt.G
	for i := e.P.R(1, 6); i > 0; i-- {
		gs = append(gs, r.abuse(i))
	}
	var ends []func()
	if e.P.Bool() {
		rt.Sleep(dur(e.P, 0, sec))
		ends = append(ends, r.outage(e.Nodes[e.P.N(len(e.Nodes))], allOutages[e.P.N(len(allOutages))]))
		rt.Sleep(e.outageLen())
	}
	for _, end := range ends {
		end()
	}
	if !e.W.Join(2500*sec, gs...) {
		e.W.Fail("hang", "a misbehaving client does not get on")
	}
	r.f.on = false
	rt.Sleep(300 * sec)
	for _, n := range e.Nodes {
		for _, x := range n.Conns {
			x.Quiet()
		}
	}
	c := r.client(e.P.N(3), ClOpt{Timeout: 10 * sec})
	for _, key := range r.keys {
		k := &Call{Op: "set", Key: key, Val: e.value(key, len(e.Calls)*100)}
		e.In(c.Proc, c.Proc.Name+"/call", func() { r.do(c, k) })
		if k.Cls == "" {
			k = &Call{Op: "get", Key: key}
			e.In(c.Proc, c.Proc.Name+"/call", func() { r.do(c, k) })
		}
		if k.Cls != "" {
			e.W.Fail("not-recovered", "300 s after the last fault %s returned %s", k, k.Result())
		}
	}
}

// abuse is one client that sends anything and leaves in any way.
func (r *routerWorld) abuse(id int) *rt.G {
	e := r.e
	p := e.P
	host := fmt.Sprintf("evil%d", id)
	e.N.Host(host)
	proc := &rt.Proc{Name: host, Host: host}
	bin := p.Bool()
	sw := &srvWorld{e: e, host: routerHost, port: routerPort, proc: r.proc}
	c := &rawc{sw: sw, id: 1000 + id, bin: bin, proc: proc}
	var wire []byte
	for i := p.N(6); i > 0; i-- {
		s, _ := r.req(c, i)
		wire = append(wire, s.wire...)
	}
	kind := p.N(5)
	e.W.Count("fault.client_" + []string{"malformed", "truncated", "mutated", "garbage", "vanishing"}[kind])
	switch kind {
	case 0:
		b, _ := e.malformed("bad", bin)
		wire = append(wire, b...)
	case 1:
		if len(wire) > 0 {
			wire = wire[:p.N(len(wire))]
		}
	case 2:
		// damaged requests may be valid ones of another kind
		r.free()
		wire = e.mutate(wire)
	case 3:
		b := make([]byte, p.N(300))
		for i := range b {
			b[i] = byte(p.N(256))
		}
		wire = append(wire, b...)
	}
	return rt.GoNamed(host+"/client", proc, func() {
		rt.Sleep(dur(p, 0, 2*sec))
		conn, err := xnet.Dial("tcp", fmt.Sprintf("%s:%d", routerHost, routerPort))
		if err != nil {
			e.W.Fail("not-accepted", "a connection to the router fails: %v", err)
			return
		}
		if p.Bool() {
			rt.GoNamed(host+"/reader", proc, func() { io.Copy(io.Discard, conn) })
		}
		conn.SetWriteDeadline(timeIn(30 * sec))
		for len(wire) > 0 {
			k := len(wire)
			if p.N(3) == 0 {
				k = 1 + p.N(k)
			}
			if _, err := conn.Write(wire[:k]); err != nil {
				break
			}
			wire = wire[k:]
		}
		if p.Bool() {
			rt.Sleep(dur(p, 0, 5*sec))
		}
		switch p.N(4) {
		case 0:
			e.W.Count("fault.client_reset")
			conn.(*xnet.TCPConn).Abort()
		case 1:
			e.W.Count("fault.client_half_close")
			conn.(*xnet.TCPConn).CloseWrite()
			rt.Sleep(dur(p, 0, 5*sec))
			conn.Close()
		case 2:
			e.W.Count("fault.client_host_crash")
			e.N.CrashHost(host)
		default:
			conn.Close()
		}
	})
}

// free stops the watch on what the backends execute.
func (r *routerWorld) free() {
	for _, n := range r.e.Nodes {
		n.OnExec = nil
	}
}

var routerReal = []string{"cmd/router (from main on; -conf names a real file in the temporary directory)", "proxy", "server", "cluster", "client", "errors"}
var routerStub = []string{"memcached backends: byte-level model (node), compared with memcached 1.6 by cmd/conformance", "network, clocks, timers, scheduling, process exit: simulator"}

func init() {
	register(&Prop{ID: "C18", Real: routerReal, Stub: routerStub,
		Rule: "a run counts if at least one call or raw request was answered; runs are distinct by the hash of their interleaving",
		Scens: []Scen{
			{"exact", 6, (*Env).routerExact},
			{"raw", 6, (*Env).routerRaw},
			{"concurrent", 5, func(e *Env) { e.routerMix(false) }},
			{"faults", 8, func(e *Env) { e.routerMix(true) }},
		}})
	register(&Prop{ID: "C19", Real: routerReal, Stub: routerStub,
		Rule: "a run counts if at least one call was answered; runs are distinct by the hash of their interleaving",
		Scens: []Scen{
			{"outages", 10, (*Env).routerRecovers},
			{"abuse", 6, (*Env).routerAbused},
		}})
}
