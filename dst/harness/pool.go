package harness

import (
	"fmt"
	"strings"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/cluster"

	"verif.local/dst/node"
	"verif.local/dst/rt"
)

type ownerKey struct {
	c   *Cl
	key string
}

// NewPool connects a client pool to the given servers. protos has one element
// per server.
func (e *Env) NewPool(nodes []*node.Node, protos []int, o ClOpt) *Cl {
	return e.newPool(nodes, nil, protos, o)
}

// NewReplicaPool connects a replica pool.
func (e *Env) NewReplicaPool(prim, sec []*node.Node, o ClOpt) *Cl {
	return e.newPool(prim, sec, nil, o)
}

func (e *Env) newPool(nodes, second []*node.Node, protos []int, o ClOpt) *Cl {
	c := &Cl{E: e, ID: len(e.Cls), Node: nodes[0], Timeout: o.Timeout, HB: o.HB, Auto: o.Auto, Replica: second != nil}
	c.Proto = Meta
	if protos != nil {
		c.Proto = protos[0]
	}
	host := fmt.Sprintf("app%d", c.ID)
	e.N.Host(host)
	c.Proc = &rt.Proc{Name: fmt.Sprintf("c%d", c.ID), Host: host}
	e.Cls = append(e.Cls, c)
	e.In(c.Proc, c.Proc.Name+"/dial", func() {
		dial := func(n *node.Node, proto int) *Cl {
			s, err := dialServer(proto, n.Name, n.Host, n.Port, o)
			if err != nil {
				e.W.Fail("connect", "connecting to a healthy server fails: %v", err)
			}
			return &Cl{E: e, ID: c.ID, Proto: proto, Node: n, Timeout: o.Timeout, HB: o.HB, Auto: o.Auto, Proc: c.Proc, S: s, KV: s}
		}
		if second == nil {
			var ss []client.Server
			for i, n := range nodes {
				sub := dial(n, protos[i])
				c.Subs = append(c.Subs, sub)
				ss = append(ss, sub.S)
			}
			p, err := client.NewSinglePool(ss...)
			if err != nil {
				e.W.Fail("connect", "creating a pool fails: %v", err)
			}
			c.KV = p
			return
		}
		var ps, qs []*client.ServerWithMetaProtocol
		for _, n := range nodes {
			sub := dial(n, Meta)
			c.Subs = append(c.Subs, sub)
			ps = append(ps, sub.S.(*client.ServerWithMetaProtocol))
		}
		for _, n := range second {
			sub := dial(n, Meta)
			c.Second = append(c.Second, sub)
			qs = append(qs, sub.S.(*client.ServerWithMetaProtocol))
		}
		c.KV = cluster.NewReplicaPool(ps, qs)
	})
	return c
}

func (c *Cl) all() []*Cl { return append(append([]*Cl(nil), c.Subs...), c.Second...) }

// learnOwners derives the owner of each key from the requests the servers have
// got, and fails if a client sent requests for a key to two servers of a set.
func (e *Env) learnOwners() {
	if e.owners == nil {
		e.owners = map[ownerKey]*Cl{}
		e.owners2 = map[ownerKey]*Cl{}
		e.ownAt = map[*node.Node]int{}
	}
	for _, n := range e.Nodes {
		for _, x := range n.Log[e.ownAt[n]:] {
			for _, c := range e.Cls {
				if c.Proc != x.Conn.Proc || len(c.Subs) == 0 {
					continue
				}
				look := func(subs []*Cl, m map[ownerKey]*Cl) {
					for _, sub := range subs {
						if sub.Node != n {
							continue
						}
						for _, key := range x.Keys {
							if key == "" {
								continue
							}
							k := ownerKey{c, key}
							if o := m[k]; o != nil && o != sub {
								e.W.Fail("two-owners", "%s sent requests for key %q to %s and to %s", c, key, o.Node.Name, n.Name)
							}
							m[k] = sub
						}
					}
				}
				look(c.Subs, e.owners)
				look(c.Second, e.owners2)
			}
		}
		e.ownAt[n] = len(n.Log)
	}
}

// ---- server sets

// poolSet draws server names and keys that are interesting for them.
func (e *Env) poolSet(max int) (names, keys []string) {
	if e.P.N(3) == 0 {
		p := ringPairs[e.P.N(len(ringPairs))]
		names = append(names, p.a, p.b)
		keys = append(keys, p.keys[:]...)
	}
	perm := e.perm(len(ringNames))
	for _, i := range perm[:e.P.R(1, max)] {
		if len(names) >= max {
			break
		}
		names = append(names, ringNames[i].name)
		keys = append(keys, ringNames[i].keys[e.P.N(len(ringNames[i].keys))])
	}
	if e.P.N(6) == 0 && len(names) < max {
		names = append(names, []string{"mc1/1", "mc1/", "x", "server with space", "caf\u00e9:11211"}[e.P.N(5)])
	}
	for i := e.P.R(1, 5); i > 0; i-- {
		keys = append(keys, e.keyName(i))
	}
	return
}

func (e *Env) poolNodes(names []string) []*node.Node {
	var ns []*node.Node
	for i, nm := range names {
		n := e.NewNode(nm, fmt.Sprintf("mc-host%d", len(e.Nodes)), 11211)
		n.Version = fmt.Sprintf("1.6.%d", i+len(e.Nodes))
		n.Store.Version = n.Version
		n.MaxItem = 40000
		n.Store.MaxItem = 40000
		if e.big {
			n.MaxItem = 1 << 20
			n.Store.MaxItem = 1 << 20
		}
		ns = append(ns, n)
	}
	return ns
}

func (e *Env) shuffled(ns []*node.Node) []*node.Node {
	var out []*node.Node
	for _, i := range e.perm(len(ns)) {
		out = append(out, ns[i])
	}
	return out
}

func (e *Env) protos(n int) []int {
	p := make([]int, n)
	mixed := e.P.N(3) == 0
	for i := range p {
		p[i] = p[0]
		if i == 0 || mixed {
			p[i] = e.P.N(3)
		}
	}
	return p
}

// poolCall draws a call on one of the given keys.
func (s *session) poolCall(w opWeights, keys []string, replica bool) *Call {
	e := s.c.E
	k := &Call{Op: e.pickOp(w)}
	switch k.Op {
	case "flush", "version", "close", "reconnect":
		return k
	}
	k.Key = keys[e.P.N(len(keys))]
	switch k.Op {
	case "multi":
		k.Key = ""
		perm := e.perm(len(keys))
		for _, i := range perm[:1+e.P.N(len(keys))] {
			k.Keys = append(k.Keys, keys[i])
		}
	case "set", "add", "replace", "cas":
		if e.P.N(5) == 4 {
			k.Val = fmt.Sprint(e.P.N(120))
		} else {
			k.Val = e.anyValue(k.Key, len(e.Calls)*100+e.P.N(100))
		}
		e.flags(k)
		k.Exp = []int{0, 0, 100000}[e.P.N(3)]
		if k.Op == "cas" {
			if t := s.toks[k.Key]; t != 0 {
				k.Tok = t
			} else {
				k.Op = "set"
			}
		}
	case "incr", "decr":
		k.Delta = 1 + e.P.N(20)
		k.Exp = []int{-1, 0, 100000}[e.P.N(3)]
	case "touch":
		k.Exp = []int{0, 100000}[e.P.N(2)]
	}
	return k
}

var replicaMix = opWeights{"get": 5, "multi": 3, "set": 7, "cas": 4, "add": 3, "replace": 3, "delete": 3, "incr": 3, "decr": 2}

// ---- C11

func (e *Env) ownerOf(c *Cl, key string) *node.Node {
	if o := e.owners[ownerKey{c, key}]; o != nil {
		return o.Node
	}
	return nil
}

// routing: pools with the same set of servers agree, pools with one server
// more or less agree except about keys of that server.
func (e *Env) routing() {
	names, keys := e.poolSet(6)
	nodes := e.poolNodes(names)
	var pools []*Cl
	sets := map[*Cl]*node.Node{} // the server a pool lacks
	for i := e.P.R(2, 4); i > 0; i-- {
		ns := e.shuffled(nodes)
		var lacks *node.Node
		if len(ns) > 1 && e.P.N(3) == 0 {
			lacks = ns[len(ns)-1]
			ns = ns[:len(ns)-1]
		}
		var c *Cl
		if e.P.N(4) == 0 {
			c = e.NewReplicaPool(ns, e.poolNodes([]string{"sec1", "sec2"}[:1+e.P.N(2)]), ClOpt{})
		} else {
			c = e.NewPool(ns, e.protos(len(ns)), ClOpt{})
		}
		sets[c] = lacks
		pools = append(pools, c)
	}
	for i := 0; i < e.P.R(4, 10); i++ {
		keys = append(keys, fmt.Sprintf("key-%d-%d", i, e.P.N(100000)))
	}
	for _, c := range pools {
		s := newSession(c)
		w := opWeights{"get": 3, "multi": 2, "set": 3, "cas": 2, "add": 2, "replace": 1, "delete": 1, "incr": 1, "decr": 1}
		if !c.Replica {
			w["touch"] = 1
		}
		for i := e.P.R(5, 25); i > 0; i-- {
			k := s.poolCall(w, keys, c.Replica)
			c.one(k)
			s.learn(k)
			if k.Cls == "other" && k.Op != "incr" && k.Op != "decr" {
				e.W.Fail("spurious-error", "%s failed with %v although nothing was wrong", k, k.Err)
			}
		}
		// every key has an owner now
		for _, key := range keys {
			c.one(&Call{Op: "get", Key: key})
		}
		e.learnOwners()
	}
	for _, key := range keys {
		for i, a := range pools {
			for _, b := range pools[:i] {
				oa, ob := e.ownerOf(a, key), e.ownerOf(b, key)
				if oa == nil || ob == nil {
					e.W.Fail("not-sent", "a get of key %q reached no server", key)
				}
				if oa == ob {
					continue
				}
				if sets[a] == sets[b] {
					e.W.Fail("owners-differ", "%s sends key %q to %s, %s with the same servers sends it to %s", a, key, oa.Name, b, ob.Name)
				}
				if oa != sets[b] && ob != sets[a] {
					la, lb := "-", "-"
					if sets[a] != nil {
						la = sets[a].Name
					}
					if sets[b] != nil {
						lb = sets[b].Name
					}
					if sets[a] != nil && sets[b] != nil {
						// two steps: remove one server, add the other; only
						// keys of these two may move
						continue
					}
					e.W.Fail("owners-differ", "%s (without %s) sends key %q to %s, %s (without %s) sends it to %s", a, la, key, oa.Name, b, lb, ob.Name)
				}
			}
		}
	}
}

// isolation: trouble with one server does not affect keys of the others.
func (e *Env) isolation() {
	e.W.ChoosePolicy(false)
	e.netProfile()
	names, keys := e.poolSet(5)
	if len(names) < 2 {
		names = append(names, "other")
	}
	nodes := e.poolNodes(names)
	o := ClOpt{Timeout: []rt.Duration{sec, 0, 5 * sec}[e.P.N(3)]}
	var c *Cl
	replica := e.P.N(3) == 0 && len(nodes) >= 2
	if replica {
		cut := e.P.R(1, len(nodes)-1)
		if len(nodes) == 2 {
			nodes = append(nodes, e.poolNodes([]string{"third"})...)
		}
		c = e.NewReplicaPool(nodes[:cut], nodes[cut:], o)
	} else {
		c = e.NewPool(nodes, e.protos(len(nodes)), o)
	}
	for i := 0; i < 6; i++ {
		keys = append(keys, fmt.Sprintf("key-%d-%d", i, e.P.N(100000)))
	}
	for _, key := range keys {
		k := c.one(&Call{Op: "set", Key: key, Val: "start#" + key})
		if k.Cls != "" {
			e.W.Fail("spurious-error", "%s failed with %v although nothing was wrong", k, k.Err)
		}
	}
	e.learnOwners()
	sick := nodes[e.P.N(len(nodes))]
	var good, bad []string
	for _, key := range keys {
		on := e.ownerOf(c, key) == sick
		if replica {
			on = on || e.owners2[ownerKey{c, key}].Node == sick
		}
		if on {
			bad = append(bad, key)
		} else {
			good = append(good, key)
		}
	}
	f := &faultPlan{e: e, p: []int{0, 100, 400}[e.P.N(3)], w: e.connFaults(), left: 10, stall: 8 * sec}
	f.install(sick)
	end := func() {}
	if e.P.N(4) > 0 {
		end = e.outage(sick, allOutages[e.P.N(len(allOutages))], e.hosts()...)
	}
	w := replicaMix
	if !replica {
		w = w.with("touch", 1)
	}
	var gs []*rt.G
	stop := false
	caller := func(keys []string) {
		if len(keys) == 0 {
			return
		}
		for j := e.P.R(1, 2); j > 0; j-- {
			gs = append(gs, c.Spawn(fmt.Sprintf("caller%d", len(gs)), func() {
				s := newSession(c)
				for i := e.P.R(3, 10); i > 0 && !stop; i-- {
					k := s.poolCall(w, keys, replica)
					c.Do(k)
					s.learn(k)
					rt.Sleep(dur(e.P, 0, 300*ms))
				}
			}))
		}
	}
	caller(bad)
	first := len(gs)
	caller(good)
	e.JoinAll(60*sec, gs[first:]...)
	isGood := map[string]bool{}
	for _, k := range good {
		isGood[k] = true
	}
	for _, k := range e.Calls {
		all := k.Key == "" || isGood[k.Key]
		for _, x := range k.Keys {
			all = all && isGood[x]
		}
		if !all {
			continue
		}
		if k.Ret == 0 {
			e.W.Fail("not-isolated", "%s does not return because of trouble with another server (%s)", k, sick.Name)
		}
		if k.Cls == "other" && k.Op != "incr" && k.Op != "decr" {
			e.W.Fail("not-isolated", "%s failed with %v because of trouble with another server (%s)", k, k.Err, sick.Name)
		}
		if d := k.T1 - k.T0; d > 2*sec {
			e.W.Fail("not-isolated", "%s took %.3f s because of trouble with another server (%s)", k, float64(d)/1e9, sick.Name)
		}
	}
	stop = true
	f.on = false
	end()
	if !sick.Up {
		sick.Restart()
	}
	e.learnOwners()
	e.checkItems()
}

// ---- C12

// multiExact: sequential multi-gets between other calls are judged exactly.
func (e *Env) multiExact() {
	e.netProfile()
	e.bigValues(e.P.N(60) == 59)
	names, keys := e.poolSet(5)
	nodes := e.poolNodes(names)
	o := ClOpt{}
	if e.P.Bool() {
		o.Timeout = 600 * sec
	}
	c := e.NewPool(nodes, e.protos(len(nodes)), o)
	if len(nodes) == 1 && e.P.Bool() {
		c = e.NewClient(e.P.N(3), nodes[0], o)
	}
	if e.P.N(12) == 11 {
		// many keys and values
		for i := e.P.N(400); i > 0; i-- {
			keys = append(keys, fmt.Sprintf("many-%d-%s", i, longKey(e.P.N(200))))
		}
	}
	for _, i := range e.perm(len(keys)) {
		if e.P.N(3) > 0 {
			n := nodes[e.P.N(len(nodes))]
			_ = n
			c.one(&Call{Op: "set", Key: keys[i], Val: e.anyValue(keys[i], len(e.Calls)*100), Flags: flagChoices[e.P.N(len(flagChoices))], Exp: []int{0, 100000}[e.P.N(2)]})
		}
	}
	f := &faultPlan{e: e, p: []int{0, 0, 150}[e.P.N(3)], w: errOnly, left: 1 << 30}
	f.install(nodes...)
	s := newSession(c)
	w := opWeights{"multi": 10, "get": 2, "set": 2, "delete": 3, "cas": 1, "incr": 1, "touch": 1, "version": 1, "flush": 1}
	for i := e.P.R(3, 15); i > 0; i-- {
		k := s.poolCall(w, keys, false)
		e.judgedOn(nodes, c, k)
		s.learn(k)
	}
}

// poolMix: concurrent calls on pools with connection faults and outages.
func (e *Env) poolMix(w opWeights, many bool) {
	e.W.ChoosePolicy(true)
	e.netProfile()
	if e.P.N(4) == 0 {
		e.N.Cfg.BufCap = 4608
	}
	names, keys := e.poolSet(4)
	nodes := e.poolNodes(names)
	protos := e.protos(len(nodes))
	for i := e.P.R(1, 2); i > 0; i-- {
		o := ClOpt{Timeout: []rt.Duration{0, 200 * ms, 2 * sec}[e.P.N(3)]}
		if e.P.N(4) == 0 {
			o.HB, o.Auto = sec, true
		}
		e.NewPool(nodes, protos, o)
	}
	if many && e.P.N(10) == 9 {
		for i := e.P.N(300); i > 0; i-- {
			keys = append(keys, fmt.Sprintf("many-%d-%s", i, longKey(e.P.N(200))))
		}
	}
	if len(keys) > 6 && e.P.Bool() && !many {
		keys = keys[:3]
	}
	f := &faultPlan{e: e, p: []int{0, 60, 200}[e.P.N(3)], w: e.connFaults(), left: 6, stall: 4 * sec}
	f.install(nodes...)
	var gs []*rt.G
	running := 0
	for _, c := range e.Cls {
		c := c
		for j := e.P.R(1, 3); j > 0; j-- {
			ops := e.P.R(3, 12)
			running++
			gs = append(gs, c.Spawn("caller"+string(rune('0'+j)), func() {
				defer func() { running-- }()
				s := newSession(c)
				for i := 0; i < ops; i++ {
					k := s.poolCall(w, keys, false)
					c.Do(k)
					s.learn(k)
					if e.P.N(4) == 3 {
						rt.Sleep(dur(e.P, 0, 20*ms))
					}
					if k.Cls == "other" && e.P.P(700) {
						rt.Sleep(dur(e.P, 0, 500*ms))
						c.Do(&Call{Op: "reconnect"})
					}
				}
			}))
		}
	}
	if e.P.N(3) == 0 && running > 0 {
		rt.Sleep(dur(e.P, 0, 50*ms))
		n := nodes[e.P.N(len(nodes))]
		end := e.outage(n, allOutages[e.P.N(len(allOutages))], e.hosts()...)
		rt.Sleep(dur(e.P, 0, 6*sec))
		end()
	}
	e.JoinAll(2500*sec, gs...)
	f.on = false
	rt.Sleep(130 * sec)
	e.learnOwners()
	e.poolOracles(nodes)
}

// wipesOf lists the losses of data at the owner of a key.
func (e *Env) wipesOf(key string) []uint64 {
	for _, c := range e.Cls {
		if n := e.ownerOf(c, key); n != nil {
			return wipes(n)
		}
	}
	return nil
}

func (e *Env) poolOracles(nodes []*node.Node) {
	e.checkItems()
	e.checkOwnAnswers(nodes...)
	e.checkAtMostOnce(nodes...)
	e.checkPoolWide(nodes)
	o := defaultLin()
	o.Lenient = func(k *Call) bool { return k.C.protoFor(k.Key) == Meta }
	o.Creates = func(k *Call) bool { return k.C.protoFor(k.Key) == Bin && uint32(k.Exp) != 0xffffffff }
	o.WipesOf = e.wipesOf
	seq := e.W.Seq()
	o.Final = func(key string) *lop {
		l := &lop{call: seq, ret: seq, kind: "get", cls: "notfound", noTok: true, desc: "final contents: absent"}
		if x := view(nodes).Peek(key); x != nil {
			l.cls, l.val, l.flags = "", string(x.Val), x.Flags
			l.desc = "final contents: " + short(l.val)
		}
		return l
	}
	e.CheckLin(e.Calls, o)
}

// checkPoolWide: flush and version that succeed were answered by every server.
func (e *Env) checkPoolWide(nodes []*node.Node) {
	for _, k := range e.Calls {
		if k.Ret == 0 || k.Cls != "" || k.Op != "flush" && k.Op != "version" || len(k.C.Subs) == 0 {
			continue
		}
		for _, sub := range k.C.Subs {
			found := false
			for _, x := range sub.Node.Log {
				if x.Seq > k.Inv && x.Seq < k.Ret && x.Conn.Proc == k.C.Proc && x.Executed && x.Replied != 0 && x.Replied < k.Ret &&
					(k.Op == "flush" && mutating[x.Op] == "flush" || x.Op == k.Op) {
					found = true
				}
			}
			if !found {
				e.W.Fail("not-covered", "%s returned %s, but server %s did not confirm it during the call", k, k.Result(), sub.Node.Name)
			}
			if k.Op == "version" && k.Strs[sub.Node.Name] != sub.Node.Version {
				e.W.Fail("not-covered", "%s returned %s; the version of %s is %q", k, k.Result(), sub.Node.Name, sub.Node.Version)
			}
		}
		if k.Op == "version" && len(k.Strs) != len(k.C.Subs) {
			e.W.Fail("not-covered", "%s returned %s for %d servers", k, k.Result(), len(k.C.Subs))
		}
	}
}

// ---- C13

func (e *Env) poolWide() {
	e.W.ChoosePolicy(false)
	e.netProfile()
	names, keys := e.poolSet(5)
	nodes := e.poolNodes(names)
	o := ClOpt{Timeout: []rt.Duration{sec, 0, 3 * sec}[e.P.N(3)]}
	if e.P.Bool() {
		o.HB = []rt.Duration{sec, 5 * sec}[e.P.N(2)]
		o.Auto = e.P.Bool()
	}
	c := e.NewPool(nodes, e.protos(len(nodes)), o)
	for _, key := range keys {
		c.one(&Call{Op: "set", Key: key, Val: "v#" + key})
	}
	var ends []func()
	var ill []*node.Node
	f := &faultPlan{e: e, p: 0, w: e.connFaults(), left: 1 << 30, stall: 4 * sec}
	if e.P.Bool() {
		f.w = errOnly
	}
	for _, n := range nodes {
		switch e.P.N(4) {
		case 0:
			ill = append(ill, n)
			f.p = 300
			f.install(n)
		case 1:
			ends = append(ends, e.outage(n, allOutages[e.P.N(len(allOutages))], e.hosts()...))
			ill = append(ill, n)
			if e.P.Bool() {
				n := n
				ends[len(ends)-1]()
				ends = ends[:len(ends)-1]
				if !n.Up {
					n.Restart()
				}
			}
		case 2:
			if e.P.N(3) == 0 {
				// closed by itself beforehand
				for _, sub := range c.Subs {
					if sub.Node == n {
						sub.Proc = c.Proc
						sub.one(&Call{Op: "close"})
					}
				}
				ill = append(ill, n)
			}
		}
	}
	rt.Sleep([]rt.Duration{0, 10 * sec}[e.P.N(2)])
	var gs []*rt.G
	closing := false
	gs = append(gs, c.Spawn("caller", func() {
		for i := e.P.R(0, 5); i > 0; i-- {
			k := &Call{Op: []string{"flush", "version", "get", "set"}[e.P.N(4)], Key: keys[e.P.N(len(keys))]}
			k.Val = e.value(k.Key, len(e.Calls)*100)
			if k.Op == "flush" || k.Op == "version" {
				k.Key = ""
			}
			c.Do(k)
			if len(ill) == 0 && k.Cls == "other" && !closing {
				e.W.Fail("spurious-error", "%s failed with %v although nothing was wrong", k, k.Err)
			}
			if e.P.N(3) == 0 && !closing {
				c.Do(&Call{Op: "reconnect"})
			}
		}
	}))
	if o.Timeout > 0 {
		e.JoinAll(2500*sec, gs...)
	} else {
		rt.Sleep(dur(e.P, 0, 5*sec))
	}
	f.on = false
	e.checkPoolWide(nodes)
	// close reaches every server, whatever its state
	if e.P.Bool() {
		for _, end := range ends {
			end()
		}
		ends = nil
	}
	closing = true
	if n := len(e.Calls); n > 0 && e.Calls[n-1].Op == "reconnect" && e.Calls[n-1].Ret == 0 {
		// the outcome of a race with an explicit reconnect is open
		for _, end := range ends {
			end()
		}
		ends = nil
		e.JoinAll(2500*sec, gs...)
	}
	k := c.one(&Call{Op: "close"})
	rt.Sleep(200 * ms)
	if m := len(e.N.OpenOf(c.Proc)); m != 0 {
		e.W.Fail("not-closed", "%s returned %s, but %d connections of the pool stay open", k, k.Result(), m)
	}
	rt.Sleep(3*o.HB + 5*sec)
	e.JoinAll(2500*sec, gs...)
	if l := c.Leaked(); len(l) > 0 {
		e.W.Fail("not-closed", "%s returned %s, but %d background goroutines of the pool still run (%s)", k, k.Result(), len(l), l[0].Name)
	}
	e.checkPoolWide(nodes)
	for _, end := range ends {
		end()
	}
}

// ---- C14, C15

type repl struct {
	e         *Env
	c         *Cl
	prim, sec []*node.Node
	everAt    map[string]map[string]bool // values the primary held
	f         *faultPlan
}

func dig(x *node.Entry) string {
	if x == nil {
		return "absent"
	}
	return fmt.Sprintf("%s|%d", x.Val, x.Flags)
}

func (e *Env) newRepl(o ClOpt) (*repl, []string) {
	r := &repl{e: e, everAt: map[string]map[string]bool{}}
	names, keys := e.poolSet(3)
	r.prim = e.poolNodes(names)
	r.sec = e.poolNodes([]string{"s1", "s2", "s3"}[:e.P.R(1, 3)])
	if e.P.N(4) == 0 && len(names) > 1 {
		// the same names on both sides
		r.sec = nil
		r.sec = e.poolNodes(names)
	}
	r.c = e.NewReplicaPool(r.prim, r.sec, o)
	// the secondary must not hold what the primary never held
	for _, n := range r.prim {
		n.OnExec = func(x *node.Exec) {
			if x.Executed && x.Post != nil {
				m := r.everAt[x.Key]
				if m == nil {
					m = map[string]bool{}
					r.everAt[x.Key] = m
				}
				m[dig(x.Post)] = true
			}
		}
	}
	for _, n := range r.sec {
		n := n
		n.OnExec = func(x *node.Exec) {
			if x.Executed && x.Post != nil && dig(x.Post) != dig(x.Pre) && !r.everAt[x.Key][dig(x.Post)] {
				e.W.Fail("secondary-leads", "secondary %s holds %s for key %q, which no primary ever held", n.Name, entry(x.Post), x.Key)
			}
		}
	}
	// other version tokens on the two sides
	for _, n := range r.prim {
		n.Store.SetCas(uint64(e.P.N(5)))
	}
	for _, n := range r.sec {
		n.Store.SetCas(uint64(e.P.N(8)))
	}
	return r, keys
}

// equal compares the copies of a key.
func (r *repl) equal(key, when string) {
	p, q := view(r.prim).Peek(key), view(r.sec).Peek(key)
	if dig(p) != dig(q) {
		r.e.W.Fail("copies-differ", "%s the primary holds %s for key %q and the secondary %s", when, entry(p), key, entry(q))
	}
	if p != nil {
		a, b := r.prim[0].Store.TTL(p), r.sec[0].Store.TTL(q)
		if (a < 0) != (b < 0) || r.f == nil && !r.e.W.Pausing() && (a-b > 2 || b-a > 2) {
			r.e.W.Fail("copies-differ", "%s key %q expires in %d s on the primary and in %d s on the secondary (-1: never)", when, key, a, b)
		}
	}
}

// replSequential: each call is judged exactly, including refusals and
// failures on either side.
func (e *Env) replSequential() {
	e.netProfile()
	r, keys := e.newRepl(ClOpt{Timeout: []rt.Duration{0, 600 * sec}[e.P.N(2)]})
	c := r.c
	s := newSession(c)
	errP := &faultPlan{e: e, p: []int{0, 0, 150, 300}[e.P.N(4)], w: errOnly, left: 1 << 30}
	errS := &faultPlan{e: e, p: []int{0, 0, 150, 300}[e.P.N(4)], w: errOnly, left: 1 << 30}
	errP.install(r.prim...)
	errS.install(r.sec...)
	snap := func(ns []*node.Node) map[string]*node.Entry {
		m := map[string]*node.Entry{}
		for _, k := range view(ns).keys() {
			if x := view(ns).Peek(k); x != nil {
				m[k] = cloneEntry(x)
			}
		}
		return m
	}
	dirty := map[string]bool{} // a failure left the copies different
	evict := []int{0, 0, 100, 300}[e.P.N(4)]
	for i := e.P.R(5, 40); i > 0 && !e.W.Failed(); i-- {
		k := s.poolCall(replicaMix, keys, true)
		if k.Op == "cas" && e.P.N(3) == 0 {
			k.Tok += uint64(e.P.N(3))
		}
		if e.P.P(evict) {
			// one side is short of memory
			side := [][]*node.Node{r.prim, r.sec}[e.P.N(2)]
			if e.evict(side, k.Key) {
				dirty[k.Key] = true
			}
		}
		pre, preS := snap(r.prim), snap(r.sec)
		at := map[*node.Node]int{}
		for _, n := range e.Nodes {
			at[n] = len(n.Log)
		}
		c.one(k)
		e.learnOwners()
		refP, refS, execP := 0, 0, 0
		for _, n := range r.prim {
			for _, x := range n.Log[at[n]:] {
				if x.Action == node.AErr {
					refP++
				} else if mutating[x.Op] != "" {
					execP++
				}
			}
		}
		for _, n := range r.sec {
			for _, x := range n.Log[at[n]:] {
				if x.Action == node.AErr {
					refS++
				}
			}
		}
		bad := func(format string, args ...any) {
			e.W.Fail("untruthful", "%s returned %s, but %s", k, k.Result(), fmt.Sprintf(format, args...))
		}
		post, postS := view(r.prim).Peek(k.Key), view(r.sec).Peek(k.Key)
		secSame := sameEntry(preS[k.Key], postS)
		for key, x := range preS {
			if key != k.Key && !sameEntry(x, view(r.sec).Peek(key)) {
				bad("the secondary's key %q changed", key)
			}
		}
		for key, x := range pre {
			if key != k.Key && !sameEntry(x, view(r.prim).Peek(key)) {
				bad("the primary's key %q changed", key)
			}
		}
		x := pre[k.Key]
		if (refP > 0 || refS > 0) && k.Cls != "other" {
			bad("a server had refused the request with an error")
		}
		if refP > 0 {
			if execP == 0 && !secSame {
				bad("the primary refused it and the secondary went from %s to %s", entry(preS[k.Key]), entry(postS))
			}
			if execP > 0 {
				// a counter was updated and could not be read back
				dirty[k.Key] = true
			}
			continue
		}
		want := ""
		effect := false
		switch k.Op {
		case "get", "multi":
			if refS > 0 || !secSame {
				bad("it disturbed the secondary")
			}
			if k.Op == "get" {
				if x == nil {
					want = "notfound"
				} else if k.Cls == "" {
					e.sameItem(k, k.Item, x, view(r.prim))
				}
			} else {
				got := map[string]bool{}
				for _, i := range k.Items {
					if pre[i.Key] == nil {
						bad("key %q is absent", i.Key)
					}
					e.sameItem(k, i, pre[i.Key], view(r.prim))
					got[i.Key] = true
				}
				for _, q := range k.Keys {
					if pre[q] != nil && !got[q] {
						bad("key %q is present and missing from the result", q)
					}
				}
			}
		case "set":
			effect = true
		case "cas":
			effect = x != nil && x.Cas == k.Tok
			if x == nil {
				want = "notfound"
			} else if !effect {
				want = "exists"
			}
		case "add":
			effect = x == nil
			if !effect {
				want = "exists"
			}
		case "replace":
			effect = x != nil
			if !effect {
				want = "notfound"
			}
		case "delete":
			effect = true
		case "incr", "decr":
			if x == nil {
				want = "notfound"
			} else if _, ok := parseNum(string(x.Val)); !ok || x.Val[0] == ' ' {
				want = "other"
			} else {
				effect = true
			}
		}
		if refS > 0 {
			want = "other"
			dirty[k.Key] = true
			if !effect {
				bad("the primary refused it, yet the secondary was asked")
			}
		}
		if k.Cls != want && !(k.Op == "delete" && x == nil && k.Cls == "notfound") {
			w := want
			if w == "" {
				w = "success"
			}
			bad("with key %q being %s on the primary the outcome is %s", k.Key, entry(x), w)
		}
		if !effect && k.Op != "get" && k.Op != "multi" && !secSame {
			bad("the secondary went from %s to %s", entry(preS[k.Key]), entry(postS))
		}
		if effect && k.Cls == "" {
			switch k.Op {
			case "set", "cas", "add", "replace":
				if post == nil || string(post.Val) != k.Val || post.Flags != k.Flags {
					bad("afterwards the primary holds %s", entry(post))
				}
			case "delete":
				if post != nil {
					bad("afterwards the primary holds %s", entry(post))
				}
			default:
				if post == nil || !sameVal(fmt.Sprint(k.Num), string(post.Val)) {
					bad("afterwards the primary holds %s", entry(post))
				}
			}
			dirty[k.Key] = false
			r.equal(k.Key, fmt.Sprintf("after %s returned %s", k, k.Result()))
		}
		s.learn(k)
		if e.P.N(6) == 0 {
			rt.Sleep(dur(e.P, 0, 3*sec))
		}
	}
	for _, key := range sortedKeys(e.keysOf()) {
		if !dirty[key] {
			r.equal(key, "at the end")
		}
	}
}

// evict makes servers drop a key, as they do when they are short of memory.
func (e *Env) evict(ns []*node.Node, key string) bool {
	done := false
	for _, n := range ns {
		if n.Store.Peek(key) != nil {
			n.Store.Evict(key)
			e.W.Count("fault.eviction")
			e.W.Logf("%s evicts %q", n.Name, key)
			done = true
		}
	}
	return done
}

func (e *Env) keysOf() map[string]bool {
	m := map[string]bool{}
	for _, k := range e.Calls {
		if k.Key != "" {
			m[k.Key] = true
		}
	}
	return m
}

// replConcurrent: any number of callers, optionally with connection faults.
func (e *Env) replConcurrent(faults bool) {
	e.W.ChoosePolicy(true)
	e.netProfile()
	o := ClOpt{}
	if faults {
		o.Timeout = []rt.Duration{0, 200 * ms, 2 * sec}[e.P.N(3)]
		if e.P.N(4) == 0 {
			o.HB, o.Auto = sec, true
		}
	}
	r, keys := e.newRepl(o)
	c := r.c
	if e.P.Bool() {
		keys = keys[:1]
	} else if len(keys) > 3 {
		keys = keys[:3]
	}
	f := &faultPlan{e: e, w: e.connFaults(), left: 6, stall: 4 * sec}
	if !faults {
		f = e.slow(e.Nodes...)
		if f.p > 0 {
			r.f = f
		}
	} else {
		r.f = f
		f.p = []int{20, 60, 200}[e.P.N(3)]
		switch e.P.N(3) {
		case 0:
			f.install(r.prim...)
		case 1:
			f.install(r.sec...)
		case 2:
			f.install(e.Nodes...)
		}
	}
	var gs []*rt.G
	running := 0
	for j := e.P.R(1, 4); j > 0; j-- {
		ops := e.P.R(2, 10)
		running++
		gs = append(gs, c.Spawn("caller"+string(rune('0'+j)), func() {
			defer func() { running-- }()
			s := newSession(c)
			for i := 0; i < ops; i++ {
				k := s.poolCall(replicaMix, keys, true)
				c.Do(k)
				s.learn(k)
				if e.P.N(4) == 3 {
					rt.Sleep(dur(e.P, 0, 20*ms))
				}
				if k.Cls == "other" && e.P.P(700) {
					rt.Sleep(dur(e.P, 0, 500*ms))
					c.Do(&Call{Op: "reconnect"})
				}
			}
		}))
	}
	if faults && e.P.N(3) == 0 {
		rt.Sleep(dur(e.P, 0, 50*ms))
		n := e.Nodes[e.P.N(len(e.Nodes))]
		end := e.outage(n, allOutages[e.P.N(len(allOutages))], e.hosts()...)
		rt.Sleep(dur(e.P, 0, 6*sec))
		end()
	}
	e.JoinAll(2500*sec, gs...)
	f.on = false
	if faults {
		e.Calm()
		rt.Sleep(130 * sec)
	}
	for _, n := range e.Nodes {
		if !n.Up {
			n.Restart()
		}
	}
	e.learnOwners()
	r.oracles()
	if faults {
		// once faults have stopped, writes repair the copies
		if k := c.one(&Call{Op: "reconnect"}); k.Cls != "" {
			e.W.Fail("reconnect-failed", "all servers are reachable again, but %s returns %v", k, k.Err)
		}
		s := newSession(c)
		for _, key := range keys {
			k := s.poolCall(opWeights{"set": 2, "delete": 1, "incr": 1}, []string{key}, true)
			c.one(k)
			if k.Cls == "" {
				r.equal(key, fmt.Sprintf("after %s returned %s", k, k.Result()))
			} else if k.Op == "set" || k.Op == "delete" {
				e.W.Fail("not-restored", "all servers are healthy and reconnected, but %s returns %s", k, k.Result())
			}
		}
	}
}

func (r *repl) oracles() {
	e := r.e
	uncertain := map[string]bool{}
	for _, k := range e.Calls {
		switch k.Op {
		case "set", "cas", "add", "replace", "delete", "incr", "decr":
			if k.Ret == 0 || k.Cls == "other" {
				uncertain[k.Key] = true
			}
			if k.Cls != "" || k.Ret == 0 {
				continue
			}
			// the secondary applied it while the call ran
			want := map[string]string{"delete": "del"}[k.Op]
			if want == "" {
				want = "store"
			}
			for side, ns := range [][]*node.Node{r.prim, r.sec} {
				found := false
				for _, n := range ns {
					for _, x := range n.Log {
						if x.Seq < k.Inv || x.Seq > k.Ret || !x.Executed || x.Key != k.Key || x.Replied == 0 || x.Replied > k.Ret {
							continue
						}
						m := mutating[x.Op]
						if side == 0 && (k.Op == "incr" || k.Op == "decr") {
							found = found || m == "count"
						} else if m == want && (want != "store" || x.Outcome == "stored") && (k.Val == "" || x.Post != nil && string(x.Post.Val) == k.Val) {
							found = true
						}
					}
				}
				if !found {
					e.W.Fail("not-replicated", "%s returned %s, but no %s executed it during the call", k, k.Result(), []string{"primary", "secondary"}[side])
				}
			}
		}
	}
	// refused stores never appear on the secondary
	for _, k := range e.Calls {
		if k.Ret != 0 && (k.Cls == "exists" || k.Cls == "notfound") && strings.Contains(k.Val, "#") {
			for _, n := range r.sec {
				for _, x := range n.Log {
					if x.Executed && x.Post != nil && x.Key == k.Key && string(x.Post.Val) == k.Val {
						e.W.Fail("untruthful", "%s returned %s, but the secondary stored its value", k, k.Result())
					}
				}
			}
		}
	}
	for _, key := range sortedKeys(e.keysOf()) {
		skip := uncertain[key]
		for _, o := range []*Cl{e.owners[ownerKey{r.c, key}], e.owners2[ownerKey{r.c, key}]} {
			if o != nil && len(o.Node.Wipes) > 0 {
				skip = true
			}
		}
		if !skip {
			e.W.Count("probe.copies_compared")
			r.equal(key, "after all calls")
		}
	}
	e.checkItems()
	e.checkOwnAnswers(r.prim...)
	o := defaultLin()
	o.WipesOf = e.wipesOf
	seq := e.W.Seq()
	o.Final = func(key string) *lop {
		l := &lop{call: seq, ret: seq, kind: "get", cls: "notfound", noTok: true, desc: "final contents of the primary: absent"}
		if x := view(r.prim).Peek(key); x != nil {
			l.cls, l.val, l.flags = "", string(x.Val), x.Flags
			l.desc = "final contents of the primary: " + short(l.val)
		}
		return l
	}
	e.CheckLin(e.Calls, o)
}

func init() {
	real := append(append([]string(nil), clientReal...), "client.SinglePool", "client.Ring", "cluster.ReplicaPool")
	register(&Prop{ID: "C11", Real: real, Stub: clientStub,
		Rule: "Cases: pools (single and replica) over 1-6 servers in shuffled orders and with one server more or less, names with colliding ring points, keys on and around points; then one server in trouble of any kind while callers use keys of the others.",
		Scens: []Scen{
			{"routing", 5, func(e *Env) { e.routing() }},
			{"isolation", 5, func(e *Env) { e.isolation() }},
		}})
	multiMix := opWeights{"multi": 8, "get": 2, "set": 5, "delete": 2, "incr": 1, "cas": 1, "flush": 1}
	register(&Prop{ID: "C12", Real: real, Stub: clientStub,
		Rule: "Cases: multi-gets of 1-400 keys over 1-5 servers and any mix of protocols, sequentially between other calls (judged exactly) and concurrently with faults and outages.",
		Scens: []Scen{
			{"exact", 5, func(e *Env) { e.multiExact() }},
			{"faults", 5, func(e *Env) { e.poolMix(multiMix, true) }},
		}})
	register(&Prop{ID: "C13", Real: real, Stub: clientStub,
		Rule: "Cases: flush, version and close on pools of 1-5 servers of which any subset refuses, fails, hangs, is down or was closed before.",
		Scens: []Scen{
			{"subsets", 5, func(e *Env) { e.poolWide() }},
			{"concurrent", 3, func(e *Env) {
				e.poolMix(opWeights{"flush": 5, "version": 5, "get": 3, "set": 5, "multi": 1}, false)
			}},
		}})
	register(&Prop{ID: "C14", Real: real, Stub: clientStub,
		Rule: "Cases: replica pools of 1-3 primaries and secondaries with 1-4 concurrent callers on few keys, with and without faults on either side, and sequential calls judged exactly.",
		Scens: []Scen{
			{"concurrent-healthy", 5, func(e *Env) { e.replConcurrent(false) }},
			{"concurrent-faults", 3, func(e *Env) { e.replConcurrent(true) }},
			{"sequential", 3, func(e *Env) { e.replSequential() }},
		}})
	register(&Prop{ID: "C15", Real: real, Stub: clientStub,
		Rule: "Cases: replica pools whose primaries and secondaries refuse, fail, hang, crash or are partitioned off at any point of any write.",
		Scens: []Scen{
			{"sequential-refusals", 5, func(e *Env) { e.replSequential() }},
			{"concurrent-faults", 5, func(e *Env) { e.replConcurrent(true) }},
		}})
}
