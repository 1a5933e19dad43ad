package harness

import (
	"fmt"

	"verif.local/dst/node"
	"verif.local/dst/rt"
	"verif.local/dst/xtime"
)

// C20: how long items live, on every copy.

// never is a point in time no run reaches.
const never = rt.Duration(1) << 61

// life is what is known about a key: it lives until some moment of [lo, hi].
type life struct {
	val    string
	flags  uint32
	lo, hi rt.Duration // of the simulated time
}

func (l *life) String() string {
	if l == nil {
		return "absent"
	}
	if l.lo == never {
		return short(l.val) + " for ever"
	}
	return fmt.Sprintf("%s until %.1f..%.1f s", short(l.val), float64(l.lo)/1e9, float64(l.hi)/1e9)
}

// span returns when something ends that is stored with expiration exp between
// t0 and t1; nil if it is over at once.
func span(exp int, t0, t1 rt.Duration) (lo, hi rt.Duration) {
	switch {
	case exp == 0:
		return never, never
	case exp < 0:
		return -1, t1
	case exp <= month:
		return t0 + rt.Duration(exp)*sec - sec, t1 + rt.Duration(exp)*sec + sec
	}
	t := (int64(exp) - xtime.Epoch.Unix()) * int64(sec)
	if t <= t0 {
		return -1, max(t1, t+sec)
	}
	return t - sec, t + sec
}

type lifeWorld struct {
	e      *Env
	m      map[string]*life
	over   map[string]*life // whose life is over according to the primary
	prim   []*node.Node
	sec    []*node.Node
	cls    []*Cl
	keys   []string
	router *routerWorld
}

func (e *Env) newLife(kind int) *lifeWorld {
	l := &lifeWorld{e: e, m: map[string]*life{}, over: map[string]*life{}}
	switch kind {
	case 0:
		n := e.NewNode("mc1", "mc-host", 11211)
		n.MaxItem, n.Store.MaxItem = 40000, 40000
		l.prim = []*node.Node{n}
		for i := e.P.R(1, 3); i > 0; i-- {
			l.cls = append(l.cls, e.NewClient(e.P.N(3), n, ClOpt{}))
		}
		l.keys = []string{"k0", "k1", "k2"}[:e.P.R(1, 3)]
	case 1, 2:
		names, keys := e.poolSet(3)
		l.keys = keys
		if len(keys) > 4 {
			l.keys = keys[:4]
		}
		l.prim = e.poolNodes(names)
		if kind == 2 {
			l.sec = e.poolNodes([]string{"s1", "s2", "s3"}[:e.P.R(1, 3)])
		}
		for i := e.P.R(1, 2); i > 0; i-- {
			if kind == 2 {
				l.cls = append(l.cls, e.NewReplicaPool(e.shuffled(l.prim), e.shuffled(l.sec), ClOpt{}))
			} else {
				l.cls = append(l.cls, e.NewPool(e.shuffled(l.prim), e.protos(len(l.prim)), ClOpt{}))
			}
		}
	case 3:
		r := e.newRouter()
		l.router, l.prim, l.sec, l.keys = r, r.prim, r.sec, r.keys
		if len(l.keys) > 4 {
			l.keys = l.keys[:4]
		}
		for i := e.P.R(1, 2); i > 0; i-- {
			l.cls = append(l.cls, r.client(e.P.N(3), ClOpt{}))
		}
	}
	return l
}

func (l *lifeWorld) gone(key string) {
	if x := l.m[key]; x != nil {
		l.over[key] = x
		delete(l.m, key)
	}
}

// at forgets what is certainly over and says whether a key must be or may be
// there between t0 and t1.
func (l *lifeWorld) at(key string, t0, t1 rt.Duration) (x *life, must bool) {
	x = l.m[key]
	if x == nil {
		return nil, false
	}
	if t0 > x.hi {
		l.gone(key)
		return nil, false
	}
	return x, t1 < x.lo
}

// copies compares what the servers hold with what is known.
func (l *lifeWorld) copies(when string) {
	e := l.e
	now := e.W.Now()
	for i, ns := range [][]*node.Node{l.prim, l.sec} {
		if len(ns) == 0 {
			continue
		}
		side := []string{"the server", "the secondary"}[i]
		slack := rt.Duration(0)
		if i == 1 {
			slack = 2 * sec
		}
		for _, key := range l.keys {
			x, must := l.at(key, now, now)
			y := view(ns).Peek(key)
			n := view(ns).at(key)
			if x == nil || x.lo < 0 {
				if z := l.over[key]; i == 1 && z != nil && now <= z.hi+slack {
					continue // the clocks of the two sides differ
				}
				if y != nil && (x == nil || now > x.hi) {
					e.W.Fail("outlived", "%s, at %.1f s, %s holds %s for key %q, which should be gone", when, float64(now)/1e9, side, entry(y), key)
				}
				continue
			}
			if y == nil {
				if must && now+slack < x.lo {
					e.W.Fail("expired-early", "%s, at %.1f s, %s does not hold key %q, which should be %s", when, float64(now)/1e9, side, key, x)
				}
				continue
			}
			if string(y.Val) != x.val && !sameVal(x.val, string(y.Val)) {
				e.W.Fail("wrong-value", "%s, %s holds %s for key %q instead of %s", when, side, entry(y), key, x)
			}
			if (y.Exp == 0) != (x.lo == never) {
				e.W.Fail("wrong-life", "%s, %s holds key %q with expiration %d of its clock (0: never), it should be %s", when, side, key, y.Exp, x)
			}
			if y.Exp == 0 {
				continue
			}
			end := rt.Duration(y.Exp+n.Store.Start()-xtime.Epoch.Unix()) * sec
			if end < x.lo-sec-slack || end > x.hi+sec+slack {
				e.W.Fail("wrong-life", "%s, %s holds key %q until %.0f s, it should be %s", when, side, key, float64(end)/1e9, x)
			}
		}
	}
}

// read checks an item that was returned, reported says whether the protocol
// says how long it lives.
func (l *lifeWorld) read(k *Call, i *itemT) {
	e := l.e
	x, _ := l.at(i.Key, k.T0, k.T1)
	if x == nil {
		e.W.Fail("outlived", "%s returned %s between %.1f and %.1f s; the item should be gone", k, itemStr(i), float64(k.T0)/1e9, float64(k.T1)/1e9)
	}
	if string(i.Value) != x.val && !sameVal(x.val, string(i.Value)) || flagsOf(i) != x.flags {
		e.W.Fail("wrong-value", "%s returned %s, it should be %s", k, itemStr(i), x)
	}
	if k.C.protoFor(i.Key) != Meta || l.router != nil && k.C.Proto != Meta {
		return
	}
	lo, hi := span(i.Expiration, k.T0, k.T1)
	if (lo == never) != (x.lo == never) || lo != never && (hi < x.lo-3*sec || lo > x.hi+3*sec) {
		e.W.Fail("wrong-life", "%s returned %q at %.1f s with expiration %d, it should be %s", k, i.Key, float64(k.T1)/1e9, i.Expiration, x)
	}
}

var lifeExps = []int{0, 0, 1, 2, 3, 5, 10, 60, 100, 1000, 3600, 86400, month - 1, month, month + 1, 365 * 86400, -1}

func (l *lifeWorld) exp() int {
	p := l.e.P
	switch p.N(4) {
	case 0:
		// a point in time
		return int(xtime.Epoch.Unix()+int64(l.e.W.Now()/sec)) + []int{-1000, 0, 1, 2, 5, 30, 1000, 100000, month, l.e.far(month + 5), l.e.far(3 * month), l.e.far(300 * 86400)}[p.N(12)]
	case 1:
		return 1 + p.N(10)
	}
	return lifeExps[p.N(len(lifeExps))]
}

func (l *lifeWorld) weights() opWeights {
	switch {
	case l.router != nil:
		return opWeights{"get": 5, "multi": 3, "set": 6, "cas": 4}
	case len(l.sec) > 0:
		return opWeights{"get": 5, "multi": 3, "set": 6, "cas": 4, "add": 3, "replace": 2, "delete": 1, "incr": 4, "decr": 3}
	}
	return opWeights{"get": 5, "multi": 3, "set": 6, "cas": 4, "add": 3, "replace": 2, "delete": 1, "incr": 3, "decr": 2, "touch": 5, "flush": 1}
}

// expiry: calls one after the other over any time; every copy of every item
// lives as long as it was asked to.
func (e *Env) expiry(kind int) {
	e.netProfile()
	l := e.newLife(kind)
	w := l.weights()
	last := map[string]*itemT{} // as read
	var lastBy = map[string]*Cl{}
	budget := 40 * 86400 * sec
	if l.router != nil {
		budget = 300 * sec // heartbeats make time expensive
	}
	for i := e.P.R(4, 40); i > 0 && !e.W.Failed(); i-- {
		c := l.cls[e.P.N(len(l.cls))]
		k := &Call{Op: e.pickOp(w)}
		back := false
		if k.Op != "flush" {
			k.Key = l.keys[e.P.N(len(l.keys))]
		}
		switch k.Op {
		case "multi":
			k.Key = ""
			for _, i := range e.perm(len(l.keys))[:1+e.P.N(len(l.keys))] {
				k.Keys = append(k.Keys, l.keys[i])
			}
		case "cas":
			// write back an item as it was read
			it := last[k.Key]
			if it == nil {
				k.Op = "get"
				break
			}
			back = true
			k.Val, k.Flags, k.Exp, k.Tok = string(it.Value), flagsOf(it), it.Expiration, it.Cas
			c = lastBy[k.Key]
			if l.router != nil && c.Proto == Text || e.P.N(3) == 0 {
				k.Op, k.Tok = "set", 0
			}
			if e.P.N(8) == 0 {
				k.Op, k.Tok = []string{"add", "replace"}[e.P.N(2)], 0
				if l.router != nil {
					k.Op = "set"
				}
			}
		case "set", "add", "replace":
			if e.P.N(3) == 0 {
				k.Val = fmt.Sprint(e.P.N(120))
			} else {
				k.Val = e.anyValue(k.Key, len(e.Calls)*100+e.P.N(100))
			}
			e.flags(k)
			k.Exp = l.exp()
		case "incr", "decr":
			k.Delta = 1 + e.P.N(20)
			k.Exp = []int{-1, 0, 1, 2, 5, 100, 100000, month}[e.P.N(8)]
			if e.P.N(4) == 0 {
				k.Exp = max(l.exp(), 0)
			}
		case "touch":
			k.Exp = l.exp()
		}
		if k.Exp < 0 && (c.Proto == Bin || len(c.Subs) > 0 && len(l.sec) == 0) && (k.Op == "set" || k.Op == "add" || k.Op == "replace" || k.Op == "touch") {
			k.Exp = 1 // the binary protocol has no negative expiration
		}
		if l.router != nil {
			e.In(c.Proc, c.Proc.Name+"/call", func() { l.router.do(c, k) })
		} else {
			c.one(k)
		}
		e.learnOwners()
		l.judge(k, back)
		switch k.Op {
		case "get":
			if k.Cls == "" {
				last[k.Key], lastBy[k.Key] = k.Item, c
			}
		case "multi":
			for _, i := range k.Items {
				last[i.Key], lastBy[i.Key] = i, c
			}
		}
		l.copies("after " + k.String())
		if e.P.N(3) > 0 {
			budget -= l.pause(budget)
			l.copies("later")
		}
	}
	e.checkItems()
}

// pause lets time pass, often until something is about to expire.
func (l *lifeWorld) pause(budget rt.Duration) rt.Duration {
	e := l.e
	now := e.W.Now()
	var d rt.Duration
	switch e.P.N(5) {
	case 0:
		d = dur(e.P, 0, 2*sec)
	case 1:
		d = dur(e.P, 0, 20*sec)
	case 2:
		d = dur(e.P, 0, 20*86400*sec)
	default:
		// to one of the ends
		var ends []rt.Duration
		for _, key := range l.keys {
			if x := l.m[key]; x != nil && x.lo != never && x.hi > now {
				ends = append(ends, x.lo, x.hi)
			}
		}
		if len(ends) == 0 {
			return 0
		}
		d = ends[e.P.N(len(ends))] - now + []rt.Duration{-1500 * ms, -500 * ms, -1, 1, 500 * ms, 1500 * ms, 3 * sec}[e.P.N(7)]
	}
	d = min(max(d, 0), max(budget, 0))
	rt.Sleep(d)
	return d
}

// judge checks the outcome of a call and records what it means.
func (l *lifeWorld) judge(k *Call, back bool) {
	e := l.e
	x, must := l.at(k.Key, k.T0, k.T1)
	if k.Cls == "other" {
		_, isNum := parseNum("")
		if x != nil {
			_, isNum = parseNum(x.val)
		}
		if (k.Op == "incr" || k.Op == "decr") && x != nil && !isNum {
			return
		}
		e.W.Fail("spurious-error", "%s failed with %v although nothing was wrong", k, k.Err)
	}
	there := func(yes bool) {
		if yes && x == nil {
			e.W.Fail("outlived", "%s returned %s at %.1f s as if key %q, which should be gone, were there", k, k.Result(), float64(k.T1)/1e9, k.Key)
		}
		if !yes && must {
			e.W.Fail("expired-early", "%s returned %s at %.1f s as if key %q, which should be %s, were gone", k, k.Result(), float64(k.T1)/1e9, k.Key, x)
		}
		if !yes {
			l.gone(k.Key)
		}
	}
	put := func() {
		lo, hi := span(k.Exp, k.T0, k.T1)
		y := &life{val: k.Val, flags: k.Flags, lo: lo, hi: hi}
		if back && k.Exp < 0 {
			e.W.Fail("wrong-life", "%s writes the item back as it was read, and its life is over", k)
		}
		l.m[k.Key] = y
	}
	switch k.Op {
	case "get":
		there(k.Cls == "")
		if k.Cls == "" {
			l.read(k, k.Item)
		}
	case "multi":
		got := map[string]bool{}
		for _, i := range k.Items {
			got[i.Key] = true
			l.read(k, i)
		}
		for _, q := range k.Keys {
			if x, must := l.at(q, k.T0, k.T1); must && !got[q] {
				e.W.Fail("expired-early", "%s returned %s at %.1f s without key %q, which should be %s", k, k.Result(), float64(k.T1)/1e9, q, x)
			}
		}
	case "set":
		put()
	case "cas":
		switch k.Cls {
		case "":
			there(true)
			put()
		case "exists":
			there(true)
		default:
			there(false)
		}
	case "add":
		there(k.Cls != "")
		if k.Cls == "" {
			put()
		}
	case "replace":
		there(k.Cls == "")
		if k.Cls == "" {
			put()
		}
	case "delete":
		if k.Cls != "" || k.C.protoFor(k.Key) != Meta {
			there(k.Cls == "")
		}
		delete(l.m, k.Key)
		delete(l.over, k.Key)
	case "touch":
		there(k.Cls == "")
		if k.Cls == "" {
			lo, hi := span(k.Exp, k.T0, k.T1)
			l.m[k.Key] = &life{val: x.val, flags: x.flags, lo: lo, hi: hi}
		}
	case "incr", "decr":
		if k.Cls != "" {
			there(false)
			return
		}
		if x == nil {
			if k.C.protoFor(k.Key) != Bin || k.Exp < 0 {
				there(true)
			}
			lo, hi := span(k.Exp, k.T0, k.T1)
			l.m[k.Key] = &life{val: "1", lo: lo, hi: hi}
			return
		}
		nv := fmt.Sprint(uint64(k.Num))
		if !must && k.C.protoFor(k.Key) == Bin && k.Exp >= 0 && k.Num == 1 {
			// it may have been created anew
			lo, hi := span(k.Exp, k.T0, k.T1)
			y := view(l.prim).Peek(k.Key)
			anew := y == nil || (y.Exp == 0) == (lo == never) && y.Flags == 0
			if anew && y != nil && y.Exp != 0 {
				end := rt.Duration(y.Exp+view(l.prim).at(k.Key).Store.Start()-xtime.Epoch.Unix()) * sec
				anew = end >= lo-sec && end <= hi+sec
			}
			if anew {
				l.m[k.Key] = &life{val: nv, lo: lo, hi: hi}
				return
			}
		}
		l.m[k.Key] = &life{val: nv, flags: x.flags, lo: x.lo, hi: x.hi}
	case "flush":
		l.m = map[string]*life{}
	}
}

// replicaLives: callers of one replica pool at once; when they are done both
// copies of every item live equally long.
func (e *Env) replicaLives() {
	e.W.ChoosePolicy(true)
	e.netProfile()
	l := e.newLife(2)
	c := l.cls[0]
	keys := l.keys[:e.P.R(1, min(3, len(l.keys)))]
	var gs []*rt.G
	for j := e.P.R(2, 4); j > 0; j-- {
		ops := e.P.R(2, 10)
		gs = append(gs, c.Spawn("caller"+string(rune('0'+j)), func() {
			s := newSession(c)
			for i := 0; i < ops; i++ {
				k := s.poolCall(replicaMix, keys, true)
				switch k.Op {
				case "set", "add", "replace", "cas":
					if e.P.Bool() {
						k.Val = fmt.Sprint(e.P.N(120))
					}
					k.Exp = []int{0, 100, 1000, 50000, month, int(l.prim[0].Clock()) + l.e.far(2*month)}[e.P.N(6)]
				}
				c.Do(k)
				s.learn(k)
				if e.P.N(3) == 0 {
					rt.Sleep(dur(e.P, 0, 10*sec))
				}
			}
		}))
	}
	e.JoinAll(2500*sec, gs...)
	slow := rt.Duration(0)
	for _, k := range e.Calls {
		slow = max(slow, k.T1-k.T0)
	}
	ends := func(ns []*node.Node, key string) (rt.Duration, *node.Entry) {
		x := view(ns).Peek(key)
		if x == nil || x.Exp == 0 {
			return never, x
		}
		return rt.Duration(x.Exp+view(ns).at(key).Store.Start()-xtime.Epoch.Unix()) * sec, x
	}
	for _, key := range keys {
		a, x := ends(l.prim, key)
		b, y := ends(l.sec, key)
		if (x == nil) != (y == nil) {
			if a != never && a < e.W.Now()+2*sec+slow || b != never && b < e.W.Now()+2*sec+slow {
				continue
			}
			e.W.Fail("copies-differ", "at the end the primary holds %s for key %q and the secondary %s", entry(x), key, entry(y))
		}
		if d := a - b; d < -2*sec-slow || d > 2*sec+slow {
			e.W.Fail("wrong-life", "at the end key %q lives until %.0f s on the primary and until %.0f s on the secondary", key, float64(a)/1e9, float64(b)/1e9)
		}
	}
	e.checkItems()
}

func init() {
	register(&Prop{ID: "C20",
		Real: []string{"client", "cluster", "errors", "for the router scenario also proxy, server and cmd/router"},
		Stub: []string{"memcached: byte-level model (node), compared with memcached 1.6 by cmd/conformance", "network, clocks, timers, scheduling: simulator"},
		Rule: "a run counts if at least one call was answered; runs are distinct by the hash of their interleaving",
		Scens: []Scen{
			{"client", 6, func(e *Env) { e.expiry(0) }},
			{"pool", 4, func(e *Env) { e.expiry(1) }},
			{"replica-pool", 6, func(e *Env) { e.expiry(2) }},
			{"router", 5, func(e *Env) { e.expiry(3) }},
			{"replica-concurrent", 4, (*Env).replicaLives},
		}})
}
