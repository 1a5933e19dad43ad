package harness

import (
	"verif.local/dst/node"
	"verif.local/dst/rt"
	"verif.local/dst/xtime"
)

// faultPlan is the fault model of one run, drawn from the plan stream.
type faultPlan struct {
	e     *Env
	on    bool
	p     int // per mille of requests hit
	w     [node.NumActions]int
	stall rt.Duration // longest stall
	left  int
	only  *node.Node // if set, nothing happens elsewhere
}

var errOnly = [node.NumActions]int{node.AErr: 1}

func connFaults() [node.NumActions]int {
	return [node.NumActions]int{node.AErr: 3, node.AStall: 3, node.AStallAfter: 3, node.AFinBefore: 2, node.AFinAfter: 2,
		node.ARstBefore: 2, node.ARstAfter: 2, node.ATruncFin: 3, node.ATruncRst: 2, node.ATruncHang: 2,
		node.AHangBefore: 2, node.AHangAfter: 2, node.ACrashBefore: 1, node.ACrashAfter: 1, node.AMute: 1,
		node.ADribble: 2, node.ASlowRead: 1, node.AMangle: 2}
}

func (f *faultPlan) install(nodes ...*node.Node) {
	f.on = true
	for _, n := range nodes {
		n.Decide = f.decide
	}
}

func (f *faultPlan) decide(c *node.Conn, r *node.Req) node.Action {
	if !f.on || f.left <= 0 || f.only != nil && c.N != f.only || !f.e.P.P(f.p) {
		return node.Action{}
	}
	k := f.e.P.W(f.w[:]...)
	if k == node.AErr && (r.Op == "mn" || r.Op == "noop") {
		// these are never refused
		return node.Action{}
	}
	f.left--
	a := node.Action{Kind: k, N: f.e.P.N(1 << 16)}
	switch k {
	case node.AStall, node.AStallAfter:
		a.D = dur(f.e.P, ms, f.stall)
	case node.ADribble:
		a.D = []rt.Duration{ms, 20 * ms, 300 * ms}[f.e.P.N(3)]
	case node.ASlowRead:
		a.D = []rt.Duration{ms, 20 * ms}[f.e.P.N(2)]
	case node.ACrashBefore, node.ACrashAfter:
		n := c.N
		f.e.W.At(dur(f.e.P, ms, 5*sec), func() { n.Restart() })
	case node.ATruncHang, node.AHangBefore, node.AHangAfter, node.AMute, node.AMangle, node.AFlood:
		// a silent connection is finally reset, so that clients without a
		// time limit get on as well
		f.e.W.At(dur(f.e.P, 5*sec, 60*sec), func() { c.CloseConn(true) })
	}
	return a
}

// slow makes healthy servers take their time now and then.
func (e *Env) slow(nodes ...*node.Node) *faultPlan {
	f := &faultPlan{e: e, p: []int{0, 0, 100, 400}[e.P.N(4)], left: 100, stall: []rt.Duration{30 * ms, 300 * ms}[e.P.N(2)],
		w: [node.NumActions]int{node.AStall: 3, node.AStallAfter: 4, node.ADribble: 1, node.ASlowRead: 1}}
	f.install(nodes...)
	return f
}

// netProfile draws the network's behaviour.
func (e *Env) netProfile() {
	c := &e.N.Cfg
	switch e.P.N(4) {
	case 1:
		c.SegProb = 200
		c.ShortRead = 100
	case 2:
		c.SegProb = 700
		c.ShortRead = 500
		c.MaxLat = 3 * ms
	case 3:
		c.MinLat, c.MaxLat = ms, 40*ms
		c.SegProb = 100
	}
	if e.P.N(6) == 5 {
		// never smaller than real sockets can be
		c.BufCap = []int{16384, 8192, 4608}[e.P.N(3)]
	}
	e.clocks()
	e.bigValues(e.big)
}

// clocks makes the wall clocks of the processes wrong, each in its own way:
// they are off, and they are set while the process runs. The servers' clocks
// stay right: they decide how long items live. What depends on the wall clock
// of a client is the point in time an item ends that lives for more than a
// month, so there are no such items then (see far); nothing else may notice.
func (e *Env) clocks() {
	p := e.P
	if p.N(5) != 4 {
		return
	}
	e.skewed = true
	span := []rt.Duration{2 * sec, 3600 * sec, 10 * 86400 * sec}[p.N(3)]
	off := func() rt.Duration {
		if p.N(8) == 7 {
			// a clock that starts at 1970, one that is far ahead
			return []rt.Duration{1000*sec - rt.Duration(xtime.Epoch.Unix())*sec, 15 * 365 * 86400 * sec}[p.N(2)]
		}
		return dur(p, 0, 2*span) - span
	}
	type jump struct{ at, to rt.Duration }
	var clocks [5][]jump
	for i := range clocks {
		if p.N(3) > 0 {
			clocks[i] = append(clocks[i], jump{0, off()})
			e.W.Count("fault.clock_skew")
		}
		for at, n := rt.Duration(0), p.N(4); n > 0; n-- {
			at += dur(p, 0, []rt.Duration{500 * ms, 10 * sec, 100 * sec}[p.N(3)])
			clocks[i] = append(clocks[i], jump{at, off()})
			e.W.Count("fault.clock_jump")
		}
	}
	next := 0
	e.W.Skew = func(p *rt.Proc) (d rt.Duration) {
		if p == nil {
			return 0
		}
		if p.Clock == nil {
			p.Clock = next % len(clocks)
			next++
		}
		for _, j := range clocks[p.Clock.(int)] {
			if e.W.Now() >= j.at {
				d = j.to
			}
		}
		return d
	}
}

// far is a point in time more than a month ahead, or another one if the wall
// clocks of the clients are wrong.
func (e *Env) far(exp int) int {
	if e.skewed {
		return 100000
	}
	return exp
}

// bigValues turns values of up to the largest size on. The limits on how long
// things take presume that such a value gets across within a second, so the
// network is not among the worst then.
func (e *Env) bigValues(on bool) {
	e.big = on
	if c := &e.N.Cfg; on {
		c.BufCap = max(c.BufCap, 1<<17)
		c.MaxLat = min(c.MaxLat, 3*ms)
		c.MinLat = min(c.MinLat, c.MaxLat)
	}
}
