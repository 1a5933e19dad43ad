package harness

import (
	"fmt"

	"verif.local/dst/node"
	"verif.local/dst/rt"
)

// what the callers use
const (
	viaClients = iota
	viaPool
	viaReplica
)

// users starts servers and the clients, pools or replica pools of the callers.
// It returns the servers that decide.
func (e *Env) users(via int, opt func() ClOpt) (nodes []*node.Node) {
	if via == viaClients {
		n := e.NewNode("mc1", "mc1", 11211)
		for i := e.P.R(1, 3); i > 0; i-- {
			e.NewClient(e.P.N(3), n, opt())
		}
		return []*node.Node{n}
	}
	for i := e.P.R(1, 3); i > 0; i-- {
		nodes = append(nodes, e.NewNode(fmt.Sprintf("mc%d", i), fmt.Sprintf("mc%d", i), 11211))
	}
	if via == viaPool {
		protos := e.protos(len(nodes))
		for i := e.P.R(1, 3); i > 0; i-- {
			e.NewPool(e.shuffled(nodes), protos, opt())
		}
		return nodes
	}
	var second []*node.Node
	for i := e.P.R(1, 2); i > 0; i-- {
		second = append(second, e.NewNode(fmt.Sprintf("s%d", i), fmt.Sprintf("s%d", i), 11211))
	}
	e.NewReplicaPool(nodes, second, opt())
	return nodes
}

// usersOracles judges what the callers saw.
func (e *Env) usersOracles(via int, nodes []*node.Node) {
	if via == viaClients {
		e.mixOracles()
		return
	}
	e.learnOwners()
	e.poolOracles(nodes)
}

// rmw runs callers that only change a key by reading it and storing a derived
// value with the token they read.
func (e *Env) rmw(via int) {
	e.netProfile()
	nodes := e.users(via, func() ClOpt {
		o := ClOpt{}
		if e.P.P(700) {
			o.Timeout = []rt.Duration{50 * ms, 200 * ms, 2 * sec}[e.P.N(3)]
		}
		return o
	})
	var log []*node.Exec
	nkeys := e.P.R(1, 2)
	kname := func(i int) string { return fmt.Sprintf("rmw%d", i) }
	f := &faultPlan{e: e, p: []int{0, 0, 60, 150}[e.P.N(4)], w: e.connFaults(), left: 5, stall: 4 * sec}
	f.install(e.Nodes...)
	exp := []int{0, 0, 100000}[e.P.N(3)]
	parent := map[int]string{}
	var gs []*rt.G
	for _, c := range e.Cls {
		c := c
		for j := e.P.R(1, 3); j > 0; j-- {
			ops := e.P.R(2, 6)
			gs = append(gs, c.Spawn("caller"+string(rune('0'+j)), func() {
				last := map[string]uint64{}
				for i := 0; i < ops; i++ {
					key := kname(e.P.N(nkeys))
					var it *itemT
					var r *Call
					if e.P.Bool() {
						r = c.Do(&Call{Op: "get", Key: key})
						it = r.Item
					} else {
						r = &Call{Op: "multi"}
						for _, x := range e.perm(nkeys + 1) {
							r.Keys = append(r.Keys, kname(x))
						}
						c.Do(r)
						for _, x := range r.Items {
							if x.Key == key {
								it = x
							}
						}
					}
					switch {
					case r.Cls == "other":
						if e.P.P(700) {
							c.Do(&Call{Op: "reconnect"})
						}
						continue
					case it == nil:
						k := &Call{Op: "add", Key: key, Flags: uint32(e.P.N(3)), Exp: exp, Tok: last[key]}
						k.Val = e.value(key, len(e.Calls)*100)
						c.Do(k)
						continue
					}
					if it.Cas == 0 {
						e.W.Fail("no-token", "%s returned %s without a version token", r, itemStr(it))
					}
					last[key] = it.Cas
					if e.P.N(8) == 7 {
						// add must not replace the key, whatever the token
						k := &Call{Op: "add", Key: key, Tok: it.Cas, Val: e.value(key, len(e.Calls)*100)}
						c.Do(k)
						continue
					}
					if e.P.N(3) == 2 {
						rt.Sleep(dur(e.P, 0, 30*ms))
					}
					k := &Call{Op: "cas", Key: key, Flags: flagsOf(it), Exp: it.Expiration, Tok: it.Cas}
					k.Val = e.value(key, len(e.Calls)*100)
					parent[len(e.Calls)] = string(it.Value)
					c.Do(k)
				}
			}))
		}
	}
	e.JoinAll(700*sec, gs...)
	f.on = false
	rt.Sleep(70 * sec)
	for _, n := range nodes {
		log = append(log, n.Log...)
	}
	for _, k := range e.Calls {
		if k.Op != "cas" || k.Cls != "" {
			continue
		}
		var x *node.Exec
		for _, l := range log {
			if l.Executed && l.Key == k.Key && l.Post != nil && string(l.Post.Val) == k.Val && l.Outcome == "stored" {
				x = l
			}
		}
		if x == nil {
			e.W.Fail("not-applied", "%s reported success, but the server never stored that value", k)
		}
		if x.Pre == nil || string(x.Pre.Val) != parent[k.ID] {
			e.W.Fail("lost-update", "%s succeeded; it was derived from %s but replaced %s", k, short(parent[k.ID]), entry(x.Pre))
		}
	}
	for _, l := range log {
		// nothing but an add, or a store with the version it replaces, may
		// have changed a key
		if l.Executed && l.Outcome == "stored" && l.Pre != nil {
			var who *Call
			for _, k := range e.Calls {
				if k.Key == l.Key && k.Val != "" && l.Post != nil && k.Val == string(l.Post.Val) {
					who = k
				}
			}
			switch {
			case who == nil:
				e.W.Fail("foreign-store", "the server stored %s, which no caller asked for", entry(l.Post))
			case who.Op == "add":
				e.W.Fail("lost-update", "%s replaced the present value %s", who, entry(l.Pre))
			case string(l.Pre.Val) != parent[who.ID]:
				e.W.Fail("lost-update", "%s was derived from %s but replaced %s", who, short(parent[who.ID]), entry(l.Pre))
			}
		}
	}
	e.usersOracles(via, nodes)
}

// counters runs counter updates on a healthy server between other calls.
func (e *Env) counters(via int) {
	e.netProfile()
	nodes := e.users(via, func() ClOpt { return ClOpt{} })
	e.slow(e.Nodes...)
	ctrs := e.P.R(1, 2)
	cname := func(i int) string { return fmt.Sprintf("ctr%d", i) }
	start := []uint64{0, 0}
	for i := 0; i < ctrs; i++ {
		start[i] = []uint64{1 << 45, 1<<45 + 99, 1 << 62, 1<<63 - 1, 1<<63 + 1<<50}[e.P.N(5)]
		e.Cls[0].one(&Call{Op: "set", Key: cname(i), Val: fmt.Sprint(start[i]), Flags: 7})
	}
	want := append([]uint64(nil), start...)
	other := genOpt{W: opWeights{"get": 3, "set": 3, "cas": 6, "add": 1, "delete": 1, "multi": 2, "replace": 1, "incr": 1}, Keys: 3}
	if via != viaReplica {
		other.W["touch"], other.W["version"] = 1, 1
	}
	var gs []*rt.G
	for _, c := range e.Cls {
		c := c
		for j := e.P.R(1, 3); j > 0; j-- {
			ops := e.P.R(3, 12)
			gs = append(gs, c.Spawn("caller"+string(rune('0'+j)), func() {
				s := newSession(c)
				for i := 0; i < ops; i++ {
					if e.P.N(5) < 2 {
						s.learn(c.Do(s.next(other)))
						continue
					}
					x := e.P.N(ctrs)
					k := &Call{Op: "incr", Key: cname(x), Delta: []int{1, 2, 9, 1000, 1 << 33}[e.P.N(5)], Exp: []int{-1, 0, 100000}[e.P.N(3)]}
					if e.P.N(3) == 2 {
						k.Op = "decr"
					}
					c.Do(k)
					if k.Cls != "" {
						e.W.Fail("refused", "%s failed with %v on a healthy server", k, k.Err)
					}
					if k.Op == "incr" {
						want[x] += uint64(k.Delta)
					} else {
						want[x] -= uint64(k.Delta)
					}
				}
			}))
		}
	}
	e.JoinAll(600*sec, gs...)
	for i := 0; i < ctrs; i++ {
		x := view(nodes).Peek(cname(i))
		if x == nil || !sameVal(fmt.Sprint(want[i]), string(x.Val)) {
			e.W.Fail("wrong-total", "counter %s started at %d and should be %d after all updates; the server holds %s", cname(i), start[i], want[i], entry(x))
		}
	}
	e.usersOracles(via, nodes)
}
