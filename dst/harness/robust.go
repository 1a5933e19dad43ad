package harness

import (
	"context"
	"fmt"
	"time"

	"go.f110.dev/go-memcached/client"

	"verif.local/dst/node"
	"verif.local/dst/rt"
	"verif.local/dst/xctx"
)

// ---- C06

func timeoutFaults() [node.NumActions]int {
	return [node.NumActions]int{node.AErr: 1, node.AStall: 4, node.AStallAfter: 4, node.AFinBefore: 1, node.AFinAfter: 1,
		node.ARstBefore: 1, node.ARstAfter: 1, node.ATruncFin: 1, node.ATruncRst: 1, node.ATruncHang: 4,
		node.AHangBefore: 4, node.AHangAfter: 4, node.ACrashBefore: 1, node.ACrashAfter: 1, node.AMute: 4,
		node.ADribble: 5, node.ASlowRead: 3}
}

// bounded checks that every call kept to its client's timeout.
func (e *Env) bounded() {
	for _, k := range e.Calls {
		c := k.C
		if k.Ret == 0 || c == nil || c.Timeout == 0 {
			continue
		}
		q := 0
		for _, o := range e.Calls {
			if o != k && o.C == c && o.Inv < k.Ret && (o.Ret == 0 || o.Ret > k.Inv) {
				q++
			}
		}
		turns := rt.Duration(1 + q)
		if c.HB > 0 {
			// a probe, and a reconnect, may get in between each time
			turns *= 3
		}
		limit := turns*c.Timeout + 10*ms
		if d := k.T1 - k.T0; d > limit {
			e.W.Fail("timeout-exceeded", "%s returned %s after %.3f s; with a timeout of %.3f s and %d calls overlapping it the limit is %.3f s",
				k, k.Result(), float64(d)/1e9, float64(c.Timeout)/1e9, q, float64(limit)/1e9)
		}
	}
}

func (e *Env) timeouts(heartbeat bool) {
	e.W.ChoosePolicy(false)
	e.netProfile()
	if e.P.N(3) == 0 {
		e.N.Cfg.BufCap = 4608
	}
	n := e.NewNode("mc1", "mc1", 11211)
	n.MaxItem = 40000
	n.Store.MaxItem = 40000
	for i := e.P.R(1, 2); i > 0; i-- {
		o := ClOpt{Timeout: []rt.Duration{50 * ms, 200 * ms, sec, 3 * sec}[e.P.N(4)]}
		if heartbeat {
			o.HB = []rt.Duration{sec, 300 * ms, 5 * sec}[e.P.N(3)]
			o.Auto = e.P.Bool()
		}
		if e.N.Cfg.MaxLat > 10*ms {
			o.Timeout = max(o.Timeout, sec)
		}
		e.NewClient(e.P.N(3), n, o)
	}
	f := &faultPlan{e: e, p: []int{60, 150, 300}[e.P.N(3)], w: timeoutFaults(), left: 10, stall: 8 * sec}
	f.install(n)
	g := genOpt{W: fullMix.with("reconnect", 3), Keys: 9, Ctr: 1, MaxOver: 3}
	if e.P.N(3) == 0 {
		g.W = opWeights{"multi": 5, "set": 5, "get": 2, "reconnect": 1}
	}
	var gs []*rt.G
	running := 0
	for _, c := range e.Cls {
		c := c
		for j := []int{1, 1, 2, 4}[e.P.N(4)]; j > 0; j-- {
			ops := e.P.R(3, 14)
			running++
			gs = append(gs, c.Spawn("caller"+string(rune('0'+j)), func() {
				defer func() { running-- }()
				s := newSession(c)
				for i := 0; i < ops; i++ {
					k := s.next(g)
					c.Do(k)
					s.learn(k)
					if e.P.N(4) == 3 {
						rt.Sleep(dur(e.P, 0, 300*ms))
					}
					if k.Cls == "other" && e.P.P(700) {
						rt.Sleep(dur(e.P, 0, 500*ms))
						c.Do(&Call{Op: "reconnect"})
					}
				}
			}))
		}
	}
	for i := e.P.N(4); i > 0 && running > 0; i-- {
		rt.Sleep(dur(e.P, 0, 400*ms))
		end := e.outage(n, allOutages[e.P.N(len(allOutages))], e.hosts()...)
		rt.Sleep(dur(e.P, 0, 6*sec))
		end()
	}
	e.JoinAll(700*sec, gs...)
	f.on = false
	for _, c := range e.Cls {
		c.one(&Call{Op: "close"})
	}
	rt.Sleep(70 * sec)
	e.bounded()
	e.mixOracles()
}

// Calm ends the suspension of goroutines and makes the network quick until the
// returned function runs: what a client with a short timeout has to manage once
// faults have stopped is then possible.
func (e *Env) Calm() func() {
	o := e.W.SetPausing(0)
	if o > 0 {
		rt.Sleep(2100 * ms)
	}
	c := &e.N.Cfg
	cfg := *c
	c.BufCap = max(c.BufCap, 1<<17)
	c.MaxLat = min(c.MaxLat, 3*ms)
	c.MinLat = min(c.MinLat, c.MaxLat)
	return func() {
		e.W.SetPausing(o)
		c.BufCap, c.MinLat, c.MaxLat = cfg.BufCap, cfg.MinLat, cfg.MaxLat
	}
}

// ---- C07

// inOutage runs calls of client c that are expected to have trouble.
func (e *Env) inOutage(c *Cl, g genOpt, stop *bool) []*rt.G {
	var gs []*rt.G
	for j := e.P.R(0, 3); j > 0; j-- {
		ops := e.P.R(1, 8)
		gs = append(gs, c.Spawn("caller"+string(rune('0'+j)), func() {
			s := newSession(c)
			for i := 0; i < ops && !*stop; i++ {
				k := s.next(g)
				c.Do(k)
				s.learn(k)
				if e.P.Bool() {
					rt.Sleep(dur(e.P, 0, sec))
				}
			}
		}))
	}
	return gs
}

// steady runs a caller that goes on calling for the given time, faster than
// the heartbeat, whatever comes back.
func (e *Env) steady(c *Cl, hb, d rt.Duration) []*rt.G {
	if e.P.N(3) != 2 {
		return nil
	}
	e.W.Count("probe.steady_calls")
	end := e.W.Now() + d
	every := max(hb*rt.Duration(e.P.R(1, 9))/10, d/200)
	g := genOpt{W: fullMix, Keys: 4, Ctr: 1}
	if e.P.Bool() {
		g.W = opWeights{opOrder[e.P.N(10)]: 1}
	}
	return []*rt.G{c.Spawn("steady", func() {
		s := newSession(c)
		for e.W.Now() < end {
			k := s.next(g)
			c.Do(k)
			s.learn(k)
			rt.Sleep(every)
		}
	})}
}

func (e *Env) reconnects() {
	e.W.ChoosePolicy(true)
	e.netProfile()
	n := e.NewNode("mc1", "mc1", 11211)
	n.MaxItem = 40000
	n.Store.MaxItem = 40000
	o := ClOpt{Timeout: []rt.Duration{500 * ms, 0, sec, 3 * sec}[e.P.N(4)]}
	if e.P.N(3) == 0 {
		o.HB = []rt.Duration{sec, 300 * ms, 5 * sec}[e.P.N(3)]
		o.Auto = e.P.Bool()
	}
	c := e.NewClient(e.P.N(3), n, o)
	f := &faultPlan{e: e, p: []int{0, 60, 200}[e.P.N(3)], w: e.connFaults(), left: 8, stall: 4 * sec}
	f.install(n)
	g := genOpt{W: fullMix.with("reconnect", []int{0, 5, 30}[e.P.N(3)]).with("close", []int{0, 0, 2}[e.P.N(3)]), Keys: 4, Ctr: 1}
	jg := genOpt{W: fullMix, Keys: 4, Ctr: 1}
	s := newSession(c)
	for round := e.P.R(1, 4); round > 0 && !e.W.Failed(); round-- {
		f.on = true
		stop := false
		var gs []*rt.G
		before := e.P.Bool()
		if before {
			gs = e.inOutage(c, g, &stop)
			rt.Sleep(dur(e.P, 0, 20*ms))
		}
		end := e.outage(n, allOutages[e.P.N(len(allOutages))], e.hosts()...)
		if !before {
			gs = e.inOutage(c, g, &stop)
		}
		rt.Sleep(e.outageLen())
		f.on = false
		stop = true
		end()
		if !n.Up {
			n.Restart()
		}
		e.JoinAll(900*sec, gs...)
		calm := e.Calm()
		if e.P.Bool() {
			// faults armed earlier (restarts, resets of silent connections) end
			rt.Sleep(70 * sec)
		}
		for _, x := range n.Conns {
			x.Quiet()
		}
		if !n.Up {
			n.Restart()
		}
		r := c.one(&Call{Op: "reconnect"})
		if r.Err != nil {
			e.W.Fail("reconnect-failed", "the server is reachable again, but %s returns %v", r, r.Err)
		}
		open := e.N.OpenOf(c.Proc)
		if len(open) != 1 {
			e.W.Fail("connection-leak", "after a successful reconnect the client holds %d connections open", len(open))
		}
		for i := e.P.N(4); i > 0; i-- {
			k := s.next(jg)
			c.one(k)
			if k.Cls == "other" && k.Op != "incr" && k.Op != "decr" {
				e.W.Fail("not-restored", "after a successful reconnect to a healthy server %s returned %s", k, k.Result())
			}
			s.learn(k)
		}
		// late requests of dead connections execute
		rt.Sleep(130 * sec)
		for i := e.P.R(1, 6); i > 0; i-- {
			k := s.next(jg)
			e.judged(n, c, k)
			s.learn(k)
		}
		calm()
	}
	e.checkItems()
	e.checkOwnAnswers(n)
	e.checkAtMostOnce(n)
}

// firstConnection: a client is either connected or not there at all.
func (e *Env) firstConnection() {
	e.W.ChoosePolicy(false)
	e.netProfile()
	n := e.NewNode("mc1", "mc1", 11211)
	n.MaxItem = 40000
	n.Store.MaxItem = 40000
	for round := e.P.R(1, 4); round > 0 && !e.W.Failed(); round-- {
		o := ClOpt{Timeout: []rt.Duration{0, 500 * ms, 3 * sec}[e.P.N(3)]}
		if e.P.N(3) == 0 {
			o.HB = []rt.Duration{sec, 300 * ms, 5 * sec}[e.P.N(3)]
			o.Auto = e.P.Bool()
		}
		c := &Cl{E: e, ID: len(e.Cls), Proto: e.P.N(3), Node: n, Timeout: o.Timeout, HB: o.HB, Auto: o.Auto}
		host := fmt.Sprintf("app%d", c.ID)
		e.N.Host(host)
		c.Proc = &rt.Proc{Name: fmt.Sprintf("c%d", c.ID), Host: host}
		e.Cls = append(e.Cls, c)
		end, out := func() {}, e.P.N(3) > 0
		disturbed := out
		if out {
			end = e.outage(n, allOutages[e.P.N(len(allOutages))], e.hosts()...)
		}
		ctx, cancel := context.Context(context.Background()), func() {}
		limit := 200 * sec
		how := e.P.N(4)
		var ended rt.Duration = -1
		g := c.Spawn("dial", func() {
			switch how {
			case 1:
				limit = dur(e.P, ms, 5*sec)
				ctx, cancel = xctx.WithTimeout(ctx, time.Duration(limit))
			case 2:
				ctx, cancel = xctx.WithCancel(ctx)
				limit = dur(e.P, 0, 5*sec)
				c.Spawn("cancel", func() { rt.Sleep(limit); cancel() })
			}
			t := e.W.Now()
			s, err := dialServerCtx(ctx, c.Proto, n.Name, n.Host, n.Port, o)
			ended = e.W.Now() - t
			if err == nil {
				c.S, c.KV = s, s
			} else if !out && (how == 0 || how == 3) {
				e.W.Fail("connect", "connecting to a healthy server fails: %v", err)
			}
		})
		rt.Sleep(dur(e.P, 0, 8*sec))
		if e.P.Bool() && out {
			end()
			out = false
		}
		e.JoinAll(400*sec, g)
		if ended > limit+10*ms {
			e.W.Fail("context-ignored", "connecting took %.3f s, although the context ended after %.3f s", float64(ended)/1e9, float64(limit)/1e9)
		}
		if out {
			end()
		}
		rt.Sleep(5 * sec)
		cancel()
		rt.Sleep(10 * ms)
		if c.S == nil {
			if m := len(e.N.OpenOf(c.Proc)); m != 0 {
				e.W.Fail("connection-leak", "connecting failed, but %d connections of the client are open", m)
			}
			if l := c.Leaked(); len(l) != 0 {
				e.W.Fail("goroutine-leak", "connecting failed, but left %d goroutines behind, among them %s", len(l), l[0].Name)
			}
			continue
		}
		// the end of the context, or of an outage, does not matter any more
		s := newSession(c)
		if disturbed || e.P.Bool() {
			if r := c.one(&Call{Op: "reconnect"}); r.Err != nil {
				e.W.Fail("reconnect-failed", "the server is reachable, but %s returns %v", r, r.Err)
			}
		}
		for i := e.P.R(1, 5); i > 0; i-- {
			k := s.next(genOpt{W: fullMix, Keys: 4, Ctr: 1})
			e.judged(n, c, k)
			s.learn(k)
		}
		c.one(&Call{Op: "close"})
	}
}

// ---- C08

// autoHeal: with auto-reconnect the client serves again soon after any outage.
func (e *Env) autoHeal() {
	e.W.ChoosePolicy(false)
	e.netProfile()
	n := e.NewNode("mc1", "mc1", 11211)
	n.MaxItem = 40000
	n.Store.MaxItem = 40000
	o := ClOpt{HB: []rt.Duration{sec, 300 * ms, 5 * sec}[e.P.N(3)], Auto: true}
	o.Timeout = []rt.Duration{500 * ms, sec, 3 * sec, 0}[e.P.N(4)]
	c := e.NewClient(e.P.N(3), n, o)
	kinds := allOutages
	if o.Timeout == 0 {
		kinds = loudOutages
	}
	g := genOpt{W: fullMix, Keys: 4, Ctr: 1}
	jg := genOpt{W: fullMix, Keys: 4, Ctr: 1}
	s := newSession(c)
	for round := e.P.R(1, 5); round > 0 && !e.W.Failed(); round-- {
		stop := false
		var gs []*rt.G
		if e.P.Bool() {
			gs = e.inOutage(c, g, &stop)
		}
		rt.Sleep(dur(e.P, 0, 2*o.HB))
		end := e.outage(n, kinds[e.P.N(len(kinds))], e.hosts()...)
		rt.Sleep(e.outageLen())
		if e.P.N(3) == 0 {
			// one outage runs into the next
			end2 := e.outage(n, kinds[e.P.N(len(kinds))], e.hosts()...)
			rt.Sleep(e.outageLen())
			end2()
		}
		stop = true
		end()
		if !n.Up {
			n.Restart()
		}
		// a probe that failed, one that is under way, a dial that is under
		// way (its SYN may be a second late), and calls queued in front
		wait := 3*o.HB + 8*o.Timeout + 3*sec
		if sg := e.steady(c, o.HB, wait+4*o.Timeout); sg != nil {
			wait += 4 * o.Timeout
			gs = append(gs, sg...)
		}
		rt.Sleep(wait)
		e.JoinAll(900*sec, gs...)
		k := s.next(jg)
		c.one(k)
		s.learn(k)
		if k.Cls == "other" && k.Op != "incr" && k.Op != "decr" {
			e.W.Fail("not-repaired", "%.1f s (%d heartbeats) after the server became reachable %s returned %s", float64(wait)/1e9, wait/o.HB, k, k.Result())
		}
		if e.P.Bool() {
			continue
		}
		// late requests of dead connections execute
		rt.Sleep(130 * sec)
		for i := e.P.R(1, 4); i > 0; i-- {
			k := s.next(jg)
			e.judged(n, c, k)
			s.learn(k)
		}
		if m := len(e.N.OpenOf(c.Proc)); m != 1 {
			e.W.Fail("connection-leak", "after the repair the client holds %d connections open", m)
		}
	}
	c.closeFinal()
}

// noAuto: without auto-reconnect a dead connection is closed soon.
func (e *Env) noAuto() {
	e.W.ChoosePolicy(false)
	e.netProfile()
	n := e.NewNode("mc1", "mc1", 11211)
	o := ClOpt{HB: []rt.Duration{sec, 300 * ms, 5 * sec}[e.P.N(3)]}
	o.Timeout = []rt.Duration{500 * ms, sec, 3 * sec, 0}[e.P.N(4)]
	c := e.NewClient(e.P.N(3), n, o)
	kinds := allOutages
	if o.Timeout == 0 {
		kinds = loudOutages
	}
	g := genOpt{W: fullMix, Keys: 4, Ctr: 1}
	s := newSession(c)
	for round := e.P.R(1, 3); round > 0 && !e.W.Failed(); round-- {
		rt.Sleep(dur(e.P, 0, 3*o.HB))
		var gs []*rt.G
		stop := false
		if e.P.N(3) == 0 {
			gs = e.inOutage(c, g, &stop)
		}
		kind := kinds[e.P.N(len(kinds))]
		end := e.outage(n, kind, e.hosts()...)
		stop = true
		wait := 3*o.HB + 8*o.Timeout + 100*ms
		if sg := e.steady(c, o.HB, wait+4*o.Timeout); sg != nil {
			wait += 4 * o.Timeout
			gs = append(gs, sg...)
		}
		rt.Sleep(wait)
		e.JoinAll(900*sec, gs...)
		if m := len(e.N.OpenOf(c.Proc)); m != 0 {
			e.W.Fail("dead-connection", "the connection died, but %.1f s (%d heartbeats) later the client still holds it open", float64(wait)/1e9, wait/o.HB)
		}
		t := e.W.Now()
		k := s.next(g)
		c.one(k)
		if k.Cls != "other" {
			e.W.Fail("dead-connection", "%s returned %s on a dead connection", k, k.Result())
		}
		if d := e.W.Now() - t; d > 10*ms {
			e.W.Fail("slow-failure", "%s on a dead connection took %.3f s", k, float64(d)/1e9)
		}
		if e.P.Bool() {
			// long gone by the time the server is back
			rt.Sleep(e.outageLen())
		}
		end()
		if !n.Up {
			n.Restart()
		}
		if r := c.one(&Call{Op: "reconnect"}); r.Err != nil {
			e.W.Fail("reconnect-failed", "the server is reachable again, but %s returns %v", r, r.Err)
		}
		if k := c.one(s.next(g)); k.Cls == "other" && k.Op != "incr" && k.Op != "decr" {
			e.W.Fail("reconnect-failed", "after a reconnect %s returns %s", k, k.Result())
		} else {
			s.learn(k)
		}
		// late requests of dead connections execute
		rt.Sleep(130 * sec)
		for i := e.P.R(1, 4); i > 0; i-- {
			k := s.next(g)
			e.judged(n, c, k)
			s.learn(k)
		}
	}
	c.closeFinal()
}

// healthyBeat: the heartbeat disturbs nothing on a healthy connection.
func (e *Env) healthyBeat() {
	e.W.ChoosePolicy(true)
	e.netProfile()
	n := e.NewNode("mc1", "mc1", 11211)
	n.MaxItem = 40000
	n.Store.MaxItem = 40000
	nc := e.P.R(1, 2)
	for i := 0; i < nc; i++ {
		o := ClOpt{HB: []rt.Duration{100 * ms, 300 * ms, 20 * ms}[e.P.N(3)], Auto: e.P.Bool()}
		o.Timeout = []rt.Duration{0, 30 * sec}[e.P.N(2)]
		e.NewClient(e.P.N(3), n, o)
	}
	f := &faultPlan{e: e, p: []int{0, 100, 300}[e.P.N(3)], left: 1 << 30, stall: 2 * sec}
	f.w[node.AStall], f.w[node.AStallAfter], f.w[node.AErr] = 3, 3, 2
	errs := e.P.Bool()
	if !errs {
		f.w[node.AErr] = 0
	}
	f.install(n)
	var gs []*rt.G
	for _, c := range e.Cls {
		c := c
		for j := e.P.R(1, 3); j > 0; j-- {
			ops := e.P.R(3, 14)
			gs = append(gs, c.Spawn("caller"+string(rune('0'+j)), func() {
				s := newSession(c)
				for i := 0; i < ops; i++ {
					k := s.next(genOpt{W: fullMix, Keys: 4, Ctr: 1})
					c.Do(k)
					s.learn(k)
					if e.P.Bool() {
						rt.Sleep(dur(e.P, 0, 400*ms))
					}
				}
			}))
		}
	}
	e.JoinAll(700*sec, gs...)
	f.on = false
	rt.Sleep(5 * sec)
	if !errs {
		if n.Accepts != nc {
			e.W.Fail("disturbed", "%d clients on a healthy server opened %d connections", nc, n.Accepts)
		}
		for _, k := range e.Calls {
			if k.Cls == "other" && k.Op != "incr" && k.Op != "decr" {
				e.W.Fail("disturbed", "%s failed with %v although the connection was healthy", k, k.Err)
			}
		}
	}
	e.mixOracles()
	for _, c := range e.Cls {
		c.closeFinal()
	}
}

// ---- C09

// closeFinal closes the client with nothing else running and checks that the
// close is final.
func (c *Cl) closeFinal() {
	e := c.E
	if e.W.Failed() {
		return
	}
	e.Calm()
	t := e.W.Now()
	k := c.one(&Call{Op: "close"})
	c.closed(t, k)
}

func (c *Cl) closed(t rt.Duration, k *Call) {
	e := c.E
	rt.Sleep(100 * ms)
	if m := len(e.N.OpenOf(c.Proc)); m != 0 {
		e.W.Fail("not-closed", "%s returned, but the client still holds %d connections", k, m)
	}
	dials := len(e.dialsOf(c.Proc))
	rt.Sleep(3*c.HB + 2*sec)
	if l := c.Leaked(); len(l) > 0 {
		e.W.Fail("not-closed", "%s returned %.1f s ago, but %d background goroutines of the client still run (%s)", k, float64(e.W.Now()-k.T1)/1e9, len(l), l[0].Name)
	}
	for _, op := range []string{"get", "set", "multi", "version"} {
		if e.P.Bool() {
			continue
		}
		q := &Call{Op: op, Key: "k0", Keys: []string{"k0", "k1"}, Val: "x#after"}
		t := e.W.Now()
		c.one(q)
		if q.Cls != "other" {
			e.W.Fail("not-closed", "%s returned %s on a closed client", q, q.Result())
		}
		if d := e.W.Now() - t; d > 10*ms && !e.W.Pausing() {
			e.W.Fail("not-closed", "%s took %.3f s to fail on a closed client", q, float64(d)/1e9)
		}
	}
	if m := len(e.N.OpenOf(c.Proc)); m != 0 {
		e.W.Fail("not-closed", "%s returned, but the client holds %d connections", k, m)
	}
	if len(e.dialsOf(c.Proc)) != dials {
		e.W.Fail("not-closed", "%s returned, but the client connected again", k)
	}
}

func (e *Env) dialsOf(p *rt.Proc) []int {
	var out []int
	for i, d := range e.N.DialLog {
		if d.Owner == p {
			out = append(out, i)
		}
	}
	return out
}

// closes calls Close at any time from any number of callers.
func (e *Env) closes() {
	pause := e.P.Bool()
	e.W.ChoosePolicy(pause)
	e.netProfile()
	n := e.NewNode("mc1", "mc1", 11211)
	n.MaxItem = 40000
	n.Store.MaxItem = 40000
	o := ClOpt{Timeout: []rt.Duration{0, 200 * ms, 3 * sec}[e.P.N(3)]}
	if e.P.N(3) > 0 {
		o.HB = []rt.Duration{sec, 20 * ms, 300 * ms}[e.P.N(3)]
		o.Auto = e.P.Bool()
	}
	c := e.NewClient(e.P.N(3), n, o)
	f := &faultPlan{e: e, p: []int{0, 60, 200}[e.P.N(3)], w: e.connFaults(), left: 8, stall: 4 * sec}
	f.install(n)
	if e.P.N(5) == 4 {
		// values that do not fit into the buffers of the connection
		e.W.Count("probe.full_buffers")
		e.big = true
		e.N.Cfg.BufCap = []int{16384, 8192, 4608}[e.P.N(3)]
		f.w[node.ASlowRead] += 20
	}
	recon := e.P.N(3) == 0
	g := genOpt{W: fullMix, Keys: 4, Ctr: 1}
	if recon {
		g.W = g.W.with("reconnect", 8)
	}
	var gs []*rt.G
	stop := false
	for j := e.P.R(0, 4); j > 0; j-- {
		ops := e.P.R(1, 12)
		gs = append(gs, c.Spawn("caller"+string(rune('0'+j)), func() {
			s := newSession(c)
			for i := 0; i < ops && !stop; i++ {
				k := s.next(g)
				c.Do(k)
				s.learn(k)
				if e.P.Bool() {
					rt.Sleep(dur(e.P, 0, 100*ms))
				}
			}
		}))
	}
	end := func() {}
	if e.P.N(3) == 0 {
		rt.Sleep(dur(e.P, 0, 100*ms))
		end = e.outage(n, allOutages[e.P.N(len(allOutages))], e.hosts()...)
		if e.P.Bool() {
			rt.Sleep(e.outageLen())
		}
	}
	rt.Sleep(dur(e.P, 0, []rt.Duration{0, 5 * ms, 300 * ms, 3 * sec}[e.P.N(4)]))
	nclosers := e.P.R(1, 3)
	var closers []*rt.G
	var first *Call
	for i := 0; i < nclosers; i++ {
		times := 1 + e.P.N(2)
		d := []rt.Duration{0, 0, dur(e.P, 0, 5*ms), dur(e.P, 0, sec)}[e.P.N(4)]
		closers = append(closers, c.Spawn(fmt.Sprintf("closer%d", i), func() {
			rt.Sleep(d)
			for ; times > 0; times-- {
				k := c.Do(&Call{Op: "close"})
				if first == nil {
					first = k
				}
			}
		}))
	}
	e.JoinAll(60*sec, closers...)
	if e.P.Bool() {
		stop = true
	}
	if recon {
		// the outcome of a race with an explicit reconnect is open
		rt.Sleep(dur(e.P, 0, 200*ms))
		end()
		stop = true
		f.on = false
		if !n.Up {
			n.Restart()
		}
		e.JoinAll(700*sec, gs...)
		c.closeFinal()
		return
	}
	e.JoinAll(700*sec, gs...)
	paused := e.W.Pausing()
	e.Calm()
	if !paused {
		for _, k := range e.Calls {
			lim := k.T0
			if first.T1 > lim {
				lim = first.T1
			}
			if k.Op == "close" {
				lim = k.T0
			}
			if k.T1 > lim+20*ms {
				e.W.Fail("slow-close", "%s started at %.3f s and returned %s at %.3f s, although close had returned at %.3f s",
					k, float64(k.T0)/1e9, k.Result(), float64(k.T1)/1e9, float64(first.T1)/1e9)
			}
			if k.Inv > first.Ret && k.Op != "close" && k.Cls != "other" {
				e.W.Fail("not-closed", "%s returned %s after close had returned", k, k.Result())
			}
		}
	}
	c.closed(first.T0, first)
	end()
	if !n.Up {
		n.Restart()
	}
	f.on = false
	if e.P.Bool() {
		// an explicit reconnect may revive the client
		rt.Sleep(70 * sec)
		if e.big {
			e.big = false
			e.N.Cfg.BufCap = 1 << 18
		}
		k := c.one(&Call{Op: "reconnect"})
		if k.Err == nil {
			s := newSession(c)
			for i := e.P.R(0, 3); i > 0; i-- {
				q := s.next(g)
				e.judged(n, c, q)
			}
			rt.Sleep(3 * c.HB)
			c.closeFinal()
		}
	}
	e.checkItems()
	e.checkAtMostOnce(n)
}

// besides runs a scenario while, in one case of five, other clients wait for
// another server that does not answer. They have nothing to do with each other.
func (e *Env) besides(run func()) {
	if e.P.N(5) != 4 {
		run()
		return
	}
	e.W.Count("probe.stuck_neighbours")
	n := node.New(e.W, e.N, "stuck", "stuck", 11299, &e.ver)
	stop := false
	var gs []*rt.G
	var procs []*rt.Proc
	var subs []client.Server
	var hosts []string
	for i := e.P.R(1, 3); i > 0; i-- {
		host := fmt.Sprintf("neighbour%d", i)
		e.N.Host(host)
		hosts = append(hosts, host)
		p := &rt.Proc{Name: host, Host: host}
		o := ClOpt{Timeout: []rt.Duration{0, 0, sec}[e.P.N(3)], HB: []rt.Duration{0, sec, 300 * ms}[e.P.N(3)], Auto: e.P.Bool()}
		proto := e.P.N(3)
		var s client.Server
		e.In(p, host+"/dial", func() {
			var err error
			if s, err = dialServer(proto, n.Name, n.Host, n.Port, o); err != nil {
				e.W.Fail("connect", "connecting to a healthy server fails: %v", err)
			}
		})
		if e.W.Failed() {
			return
		}
		procs, subs = append(procs, p), append(subs, s)
		for j := e.P.R(0, 2); j > 0; j-- {
			op, gap := e.P.N(5), []rt.Duration{10 * ms, 300 * ms, 3 * sec}[e.P.N(3)]
			gs = append(gs, rt.GoNamed(fmt.Sprintf("%s/%d", host, j), p, func() {
				for n := 0; n < 300 && !stop; n++ {
					switch op {
					case 0:
						s.Get("k")
					case 1:
						s.GetMulti("k", "l")
					case 2:
						s.Set(&client.Item{Key: "k", Value: []byte("v")})
					case 3:
						s.Version()
					case 4:
						s.Reconnect()
					}
					rt.Sleep(gap)
				}
			}))
		}
	}
	rt.Sleep(dur(e.P, 0, sec))
	end := e.outage(n, []int{OFreeze, OPower, OPart, OPartFrom, OPartTo}[e.P.N(5)], hosts...)
	rt.Sleep(dur(e.P, 0, 2*sec))
	run()
	if e.W.Failed() {
		return
	}
	end()
	stop = true
	for i := range subs {
		s := subs[i]
		gs = append(gs, rt.GoNamed(procs[i].Name+"/close", procs[i], func() { s.Close() }))
	}
	e.JoinAll(900*sec, gs...)
}

// ---- C10

func (e *Env) memory(run func()) {
	e.W.OnSwitch = func() {
		if !e.W.Failed() {
			e.CheckMemory("during")
		}
	}
	run()
	rt.Sleep(sec)
	e.CheckMemory("after")
	e.CheckResults()
}

func init() {
	register(&Prop{ID: "C06", Real: clientReal, Stub: clientStub,
		Rule: "Cases: clients with timeouts from 50 ms to 3 s and 1-4 callers (with and without heartbeat) against a server that stalls, answers nothing, half or byte by byte, stops or slows reading, freezes, vanishes or is partitioned off; small socket buffers and large values.",
		Scens: []Scen{
			{"stalls-and-outages", 5, func(e *Env) { e.besides(func() { e.timeouts(false) }) }},
			{"with-heartbeat", 2, func(e *Env) { e.besides(func() { e.timeouts(true) }) }},
		}})
	register(&Prop{ID: "C07", Real: clientReal, Stub: clientStub,
		Rule: "Cases: rounds of an outage of any kind and length with calls, reconnects and closes failing meanwhile, then one reconnect and exactly judged calls; first connections during outages, with contexts that end before, meanwhile or afterwards.",
		Scens: []Scen{
			{"outage-rounds", 9, func(e *Env) { e.besides(func() { e.reconnects() }) }},
			{"first-connection", 1, func(e *Env) { e.besides(func() { e.firstConnection() }) }},
		}})
	register(&Prop{ID: "C08", Real: clientReal, Stub: clientStub,
		Rule: "Cases: heartbeat clients through any number of outages of all kinds and lengths with and without auto-reconnect, and on a healthy but slow server with concurrent calls.",
		Scens: []Scen{
			{"auto-reconnect", 4, func(e *Env) { e.besides(func() { e.autoHeal() }) }},
			{"no-auto-reconnect", 3, func(e *Env) { e.besides(func() { e.noAuto() }) }},
			{"healthy", 3, func(e *Env) { e.besides(func() { e.healthyBeat() }) }},
		}})
	register(&Prop{ID: "C09", Real: clientReal, Stub: clientStub,
		Rule:  "Cases: close from 1-3 callers at any time during calls, heartbeats, reconnects, faults and outages; then goroutine, connection and dial accounting and calls on the closed client.",
		Scens: []Scen{{"close-any-time", 1, func(e *Env) { e.besides(e.closes) }}}})
	register(&Prop{ID: "C10", Real: clientReal, Stub: clientStub,
		Rule: "Cases: concurrent calls of all protocols whose items and key lists live in larger buffers that are compared after every scheduling slice; results are compared with what was returned at the end.",
		Scens: []Scen{
			{"clients", 5, func(e *Env) {
				e.W.ChoosePolicy(true)
				e.memory(func() {
					e.runMix(mixCfg{Clients: [2]int{1, 2}, Callers: [2]int{1, 3}, Ops: [2]int{3, 10}, Protos: allProtos,
						G:       genOpt{W: fullMix, Keys: 4, Ctr: 1, BadP: 10, OddP: 10, MaxOver: 10},
						Timeout: 700, HB: 100, FaultP: []int{0, 60, 200}[e.P.N(3)], FaultW: connFaults(), MaxFault: 6, Recon: 700})
				})
			}},
			{"pools", 1, func(e *Env) { e.memory(func() { e.poolMix(fullMix, e.P.Bool()) }) }},
			{"replica-pools", 1, func(e *Env) { e.memory(func() { e.replConcurrent(e.P.Bool()) }) }},
			{"server-requests", 2, (*Env).serverFidelity},
		}})
}
