package harness

import (
	"verif.local/dst/node"
	"verif.local/dst/rt"
)

// ---- C21

func mangleFaults() [node.NumActions]int {
	return [node.NumActions]int{node.AMangle: 20, node.AFlood: 2, node.ATruncFin: 2, node.ATruncHang: 2, node.ATruncRst: 1, node.AErr: 2, node.AStallAfter: 1, node.ADribble: 1}
}

// garbled: servers that answer nonsense, and peers that are no servers.
func (e *Env) garbled() {
	e.W.ChoosePolicy(false)
	e.netProfile()
	n := e.NewNode("mc1", "mc1", 11211)
	n.MaxItem = 40000
	n.Store.MaxItem = 40000
	for i := e.P.R(1, 2); i > 0; i-- {
		o := ClOpt{Timeout: []rt.Duration{0, 200 * ms, sec, 3 * sec}[e.P.N(4)]}
		if e.P.N(4) == 0 {
			o.HB = []rt.Duration{sec, 300 * ms, 5 * sec}[e.P.N(3)]
			o.Auto = e.P.Bool()
		}
		if e.N.Cfg.MaxLat > 10*ms && o.Timeout > 0 {
			o.Timeout = max(o.Timeout, sec)
		}
		e.NewClient(e.P.N(3), n, o)
	}
	before := heapAllocs()
	f := &faultPlan{e: e, p: []int{60, 150, 300}[e.P.N(3)], w: mangleFaults(), left: 12, stall: 2 * sec}
	f.install(n)
	greetP := []int{0, 0, 100, 500}[e.P.N(4)]
	n.Greet = func(c *node.Conn) (string, bool) {
		if !f.on || !e.P.P(greetP) {
			return "", false
		}
		if e.P.N(4) == 0 {
			return "ERROR Too many open connections\r\n", true
		}
		end := e.P.N(3) == 0
		if !end {
			e.W.At(dur(e.P, 5*sec, 60*sec), func() { c.CloseConn(true) })
		}
		return node.Greetings[e.P.N(len(node.Greetings))], end
	}
	g := genOpt{W: fullMix, Keys: 5, Ctr: 2}
	if e.P.N(3) == 0 {
		g.W = opWeights{"multi": 6, "set": 3, "get": 5}
	}
	var gs []*rt.G
	for _, c := range e.Cls {
		c := c
		for j := e.P.R(1, 3); j > 0; j-- {
			ops := e.P.R(3, 14)
			gs = append(gs, c.Spawn("caller"+string(rune('0'+j)), func() {
				s := newSession(c)
				for i := 0; i < ops; i++ {
					k := s.next(g)
					c.Do(k)
					s.learn(k)
					if e.P.N(4) == 3 {
						rt.Sleep(dur(e.P, 0, 20*ms))
					}
					if k.Cls == "other" && e.P.P(600) {
						rt.Sleep(dur(e.P, 0, 100*ms))
						c.Do(&Call{Op: "reconnect"})
					}
				}
			}))
		}
	}
	e.JoinAll(2500*sec, gs...)
	if got := heapAllocs() - before; got > uint64(300<<20)+64*uint64(n.Mangled) {
		e.W.Fail("memory", "%d bytes of broken replies made the client allocate %d MB", n.Mangled, got>>20)
	}
	e.bounded()
	f.on = false
	rt.Sleep(70 * sec)
	for _, x := range n.Conns {
		x.Quiet()
	}
	e.Calm()
	for _, c := range e.Cls {
		if r := c.one(&Call{Op: "reconnect"}); r.Err != nil {
			e.W.Fail("reconnect-failed", "the server is in order again, but %s returns %v", r, r.Err)
		}
		s := newSession(c)
		for i := e.P.R(1, 5); i > 0; i-- {
			k := s.next(g)
			e.judged(n, c, k)
			s.learn(k)
		}
	}
	e.mixOracles()
}

// connFaults is the mix of faults of a run.
func (e *Env) connFaults() [node.NumActions]int {
	if e.replies != nil {
		return e.replies()
	}
	return connFaults()
}

func init() {
	register(&Prop{ID: "C21", Real: routerReal, Stub: routerStub,
		Rule: "Cases: clients of all protocols against a server that answers with mangled, truncated, oversized and endless replies, and against peers that are no memcached at all.",
		Scens: []Scen{
			{"garbled-replies", 8, func(e *Env) { e.garbled() }},
			{"garbled-pool", 1, func(e *Env) { e.replies = mangleFaults; e.poolMix(fullMix, false) }},
			{"garbled-replica-pool", 1, func(e *Env) { e.replies = mangleFaults; e.replConcurrent(true) }},
			{"garbled-router", 1, func(e *Env) { e.replies = mangleFaults; e.routerMix(true) }},
			{"garbled-router-abuse", 1, func(e *Env) { e.replies = mangleFaults; e.routerAbused() }},
		}})
}
