package harness

import (
	"fmt"
	"hash/fnv"
	"sort"
	"time"

	"verif.local/dst/rt"
	"verif.local/dst/xnet"
)

// Scen is one kind of simulated execution.
type Scen struct {
	Name   string
	Weight int
	Run    func(*Env)
}

// Prop is one checked property.
type Prop struct {
	ID    string
	Scens []Scen
	Rule  string
	Real  []string
	Stub  []string
}

var Props = map[string]*Prop{}

func register(p *Prop) { Props[p.ID] = p }

// PropIDs lists all properties in order.
func PropIDs() []string {
	var s []string
	for k := range Props {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// Streams are the decisions of one run.
type Streams struct {
	Plan  []uint32 `json:"plan"`
	Sched []uint32 `json:"sched"`
	Net   []uint32 `json:"net"`
}

func (s Streams) Len() int { return len(s.Plan) + len(s.Sched) + len(s.Net) }

// Result of one run.
type Result struct {
	Viol     *rt.Violation
	Hash     uint64
	Sig      uint64
	Steps    int
	Switches int
	Sim      rt.Duration
	Counters map[string]int
	Scen     string
	Used     Streams
	Trace    []string
	Calls    int
	OK       int
}

func propHash(id string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(id))
	return h.Sum64()
}

// RunSeed executes run number i of a property under a base seed.
func RunSeed(p *Prop, seed uint64, i uint64) *Result {
	s := rt.Mix(seed, propHash(p.ID), i)
	return run(p, rt.NewStream(rt.Mix(s, 1)), rt.NewStream(rt.Mix(s, 2)), rt.NewStream(rt.Mix(s, 3)), false)
}

// RunStreams replays recorded decisions.
func RunStreams(p *Prop, s Streams, trace bool) *Result {
	return run(p, rt.ReplayStream(s.Plan), rt.ReplayStream(s.Sched), rt.ReplayStream(s.Net), trace)
}

// OnlyScen restricts runs to one scenario (development).
var OnlyScen string

// TraceAll traces every run (development).
var TraceAll bool

func run(p *Prop, plan, sched, net *rt.Stream, trace bool) *Result {
	w := rt.NewWorld(plan, sched, net)
	w.Tracing = trace || TraceAll
	ws := make([]int, len(p.Scens))
	for i, s := range p.Scens {
		ws[i] = s.Weight
		if OnlyScen != "" && s.Name != OnlyScen {
			ws[i] = 0
		}
	}
	sc := p.Scens[plan.W(ws...)]
	e := &Env{W: w, N: xnet.New(w), P: plan, Prop: p.ID, Scen: sc.Name}
	w.Count("scenario." + sc.Name)
	w.Run(func() {
		rt.ResetGlobals()
		sc.Run(e)
	})
	r := &Result{Viol: w.Viol, Hash: w.Hash(), Sig: w.Sig, Steps: w.Steps, Switches: w.Switches, Sim: w.Now(),
		Counters: w.Counters, Scen: sc.Name, Trace: w.Trace, Calls: len(e.Calls) + e.Raw, OK: e.Raw}
	r.Used = Streams{plan.Used(), sched.Used(), net.Used()}
	for _, k := range e.Calls {
		if k.Ret != 0 && k.Cls != "other" {
			r.OK++
		}
	}
	return r
}

// Minimise shrinks the decisions of a failing run while it fails in the same
// class.
func Minimise(p *Prop, s Streams, class string, budget time.Duration) (Streams, int) {
	end := time.Now().Add(budget)
	tries := 0
	get := func(x *Streams, i int) *[]uint32 {
		return []*[]uint32{&x.Plan, &x.Sched, &x.Net}[i]
	}
	test := func(c Streams) bool {
		tries++
		r := RunStreams(p, c, false)
		return r.Viol != nil && r.Viol.Class == class
	}
	cp := func(x Streams) Streams {
		return Streams{append([]uint32(nil), x.Plan...), append([]uint32(nil), x.Sched...), append([]uint32(nil), x.Net...)}
	}
	if !test(s) {
		return s, tries
	}
	more := func() bool { return time.Now().Before(end) }
	// 1: whole streams, then prefixes
	for _, i := range []int{1, 2, 0} {
		c := cp(s)
		*get(&c, i) = nil
		if more() && test(c) {
			s = c
			continue
		}
		lo, hi := 0, len(*get(&s, i))
		for more() && lo < hi {
			m := (lo + hi) / 2
			c := cp(s)
			*get(&c, i) = (*get(&c, i))[:m]
			if test(c) {
				hi = m
				s = c
			} else {
				lo = m + 1
			}
		}
	}
	// 2: zero and delete chunks
	for round := 0; round < 4 && more(); round++ {
		changed := false
		for _, i := range []int{0, 1, 2} {
			n := len(*get(&s, i))
			for size := n / 2; size >= 1 && more(); size /= 2 {
				if size > 1 && n/size > 400 {
					break
				}
				for at := 0; at < len(*get(&s, i)) && more(); {
					a := *get(&s, i)
					end := at + size
					if end > len(a) {
						end = len(a)
					}
					// delete
					c := cp(s)
					*get(&c, i) = append(append([]uint32(nil), a[:at]...), a[end:]...)
					if test(c) {
						s = c
						changed = true
						continue
					}
					// zero
					nz := false
					for _, v := range a[at:end] {
						nz = nz || v != 0
					}
					if nz {
						c = cp(s)
						b := *get(&c, i)
						for j := at; j < end; j++ {
							b[j] = 0
						}
						if test(c) {
							s = c
							changed = true
						}
					}
					at = end
				}
			}
		}
		if !changed {
			break
		}
	}
	// 3: smaller values in the plan
	for j := 0; j < len(s.Plan) && more(); j++ {
		for _, v := range []uint32{1, s.Plan[j] / 2, s.Plan[j] - 1} {
			if s.Plan[j] > v && v > 0 {
				c := cp(s)
				c.Plan[j] = v
				if test(c) {
					s = c
				}
			}
		}
	}
	trim := func(a []uint32) []uint32 {
		for len(a) > 0 && a[len(a)-1] == 0 {
			a = a[:len(a)-1]
		}
		return a
	}
	c := Streams{trim(s.Plan), trim(s.Sched), trim(s.Net)}
	if test(c) {
		s = c
	}
	return s, tries
}

func (r *Result) String() string {
	if r.Viol == nil {
		return fmt.Sprintf("%s: ok, %d calls, %d steps, %.1f s", r.Scen, r.Calls, r.Steps, float64(r.Sim)/1e9)
	}
	return fmt.Sprintf("%s: %s: %s", r.Scen, r.Viol.Class, r.Viol.Msg)
}
