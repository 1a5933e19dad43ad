// Package rt is the deterministic simulator: virtual time, discrete events and
// a seeded scheduler that runs exactly one goroutine of the simulated system
// at a time.
package rt

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

type Duration = int64 // nanoseconds of virtual time

const (
	Microsecond Duration = 1000
	Millisecond          = 1000 * Microsecond
	Second               = 1000 * Millisecond
)

// Proc groups goroutines and connections that live and die together.
type Proc struct {
	Name   string
	Host   string
	Dead   bool
	OnExit func(reason string)
	OnKill []func()
	Timers int // timers and tickers that run
	Clock  any // of the harness
}

// G is a simulated goroutine.
type G struct {
	ID     int
	Name   string
	Proc   *Proc
	wake   chan struct{}
	run    bool // in run queue
	done   bool
	killed bool
	prio   int
	reason string
	doneQ  WaitQ
	wq     *WaitQ
	timed  bool
}

func (g *G) Done() bool { return g.done }

// Violation is what a run found.
type Violation struct {
	Class string // stable class, used by the minimiser
	Msg   string
}

type Timer struct {
	at   Duration
	seq  uint64
	fn   func()
	idx  int
	live bool
}

type timerHeap []*Timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*Timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	return t
}

// Scheduling policies.
const (
	PolFIFO = iota
	PolRandomBlock
	PolPreempt
	PolPriority
)

type World struct {
	Plan, Sched, Net *Stream

	// Skew, if set, is how far the wall clock of a process is ahead.
	Skew func(p *Proc) Duration

	now    Duration
	seq    uint64
	tseq   uint64
	timers timerHeap
	gs     []*G
	runq   []*G
	cur    *G
	nextID int
	back   chan struct{}
	peak   int // most goroutines there ever were at once

	policy    int
	meanSlice int
	slice     int
	pauseProb int
	changePts map[int]bool

	Steps    int
	MaxSteps int
	nextTick int
	tickNow  Duration
	Switches int

	stop     bool
	aborting bool
	Viol     *Violation
	Tracing  bool
	Trace    []string
	hash     uint64
	Sig      uint64 // coarse interleaving signature

	chans     map[uintptr]*chanState
	mapWriter map[unsafe.Pointer]*G

	Counters map[string]int
	procMain *Proc

	// NetState belongs to the simulated network.
	NetState any
	// OnSwitch runs after every slice of execution.
	OnSwitch func()
	// Resets are run when the world ends.
	AtEnd []func()
}

// W is the running world. Exactly one exists per process at a time.
var W *World

func NewWorld(plan, sched, net *Stream) *World {
	w := &World{Plan: plan, Sched: sched, Net: net, back: make(chan struct{}, 1),
		chans: map[uintptr]*chanState{}, Counters: map[string]int{}, hash: 14695981039346656037,
		Sig: 14695981039346656037, MaxSteps: 3000000}
	w.procMain = &Proc{Name: "main", Host: "client"}
	return w
}

func (w *World) Now() Duration { return w.now }

// Cur is the running goroutine, nil in event context.
func (w *World) Cur() *G { return w.cur }

// Seq returns the next global event sequence number.
func (w *World) Seq() uint64 { w.seq++; return w.seq }

func (w *World) Hash() uint64 { return w.hash }

func (w *World) note(a, b uint64) {
	h := w.hash
	h = (h ^ a) * 1099511628211
	h = (h ^ b) * 1099511628211
	h ^= h >> 29
	w.hash = h
}

// Note folds an observable event into the execution hash.
func (w *World) Note(kind string, b uint64) {
	var a uint64 = 1469598103
	for i := 0; i < len(kind); i++ {
		a = (a ^ uint64(kind[i])) * 1099511628211
	}
	w.note(a, b)
}

// NoteSig folds an event into the coarse interleaving signature.
func (w *World) NoteSig(kind string, b uint64) {
	a := w.Sig
	for i := 0; i < len(kind); i++ {
		a = (a ^ uint64(kind[i])) * 1099511628211
	}
	w.Sig = (a ^ b) * 1099511628211
}

func (w *World) Count(k string) { w.Counters[k]++ }

func (w *World) Logf(format string, args ...any) {
	if !w.Tracing {
		return
	}
	name := "-"
	if w.cur != nil {
		name = w.cur.Name
	}
	if LiveTrace {
		fmt.Printf("%12.6f %-14s %s\n", float64(w.now)/1e9, name, fmt.Sprintf(format, args...))
	}
	w.Trace = append(w.Trace, fmt.Sprintf("%12.6f %-14s %s", float64(w.now)/1e9, name, fmt.Sprintf(format, args...)))
}

// LiveTrace prints traces as they grow (development).
var LiveTrace bool

// Fail records a violation and ends the run.
func (w *World) Fail(class, format string, args ...any) {
	if w.Viol == nil && !w.aborting {
		w.Viol = &Violation{Class: class, Msg: fmt.Sprintf(format, args...)}
		w.Logf("VIOLATION %s: %s", class, w.Viol.Msg)
	}
	w.stop = true
	if w.cur != nil && !w.aborting {
		w.park("failed")
	}
}

func (w *World) Failed() bool { return w.Viol != nil }

// ---- timers

func (w *World) At(d Duration, fn func()) *Timer {
	w.tseq++
	at := w.now + d
	if d < 0 {
		at = w.now
	}
	t := &Timer{at: at, seq: w.tseq, fn: fn, live: true}
	heap.Push(&w.timers, t)
	return t
}

// Stop cancels the timer; it reports whether it was still pending.
func (w *World) StopTimer(t *Timer) bool {
	if t == nil || !t.live {
		return false
	}
	t.live = false
	heap.Remove(&w.timers, t.idx)
	return true
}

// ---- goroutines

func Cur() *G {
	if W == nil {
		return nil
	}
	return W.cur
}

// Go starts a simulated goroutine.
func Go(fn func()) { GoNamed("", nil, fn) }

func GoNamed(name string, p *Proc, fn func()) *G {
	w := W
	if w == nil {
		// A package is initialised. Every run does that again.
		return nil
	}
	w.nextID++
	g := &G{ID: w.nextID, Name: name, wake: make(chan struct{}, 1), Proc: p}
	if p == nil {
		if w.cur != nil {
			g.Proc = w.cur.Proc
		} else {
			g.Proc = w.procMain
		}
	}
	if g.Name == "" {
		g.Name = fmt.Sprintf("%s/g%d", g.Proc.Name, g.ID)
	}
	if w.policy == PolPriority {
		g.prio = w.Sched.N(1000)
	}
	w.gs = append(w.gs, g)
	w.peak = max(w.peak, len(w.gs))
	w.Logf("go %s", g.Name)
	go func() {
		<-g.wake
		normal := false
		defer func() {
			if !normal {
				if r := recover(); r != nil && !w.aborting && !g.killed {
					st := string(debug.Stack())
					w.cur = g
					if w.Viol == nil {
						w.Viol = &Violation{Class: "panic", Msg: fmt.Sprintf("panic in %s: %v\n%s", g.Name, r, trimStack(st))}
						w.Logf("PANIC %v", r)
					}
					w.stop = true
				}
			}
			g.done = true
			g.doneQ.NotifyAll()
			w.remove(g)
			w.back <- struct{}{}
		}()
		if !g.killed && !w.aborting {
			fn()
		}
		normal = true
	}()
	w.ready(g)
	if w.cur != nil {
		w.yieldPoint()
	}
	return g
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "go-memcached/") {
			loc := strings.TrimSpace(lines[i+1])
			if k := strings.LastIndex(loc, " +0x"); k > 0 {
				loc = loc[:k]
			}
			fn := l
			if k := strings.Index(fn, "("); k > 0 && !strings.HasPrefix(fn[k:], "(*") {
				fn = fn[:k]
			}
			if k := strings.LastIndex(loc, "/"); k > 0 {
				loc = loc[k+1:]
			}
			out = append(out, "  at "+fn+" "+loc)
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

func (w *World) remove(g *G) {
	for i, x := range w.gs {
		if x == g {
			w.gs = append(w.gs[:i], w.gs[i+1:]...)
			return
		}
	}
}

// Live returns the goroutines that still exist.
func (w *World) Live() []*G { return append([]*G(nil), w.gs...) }

func (w *World) ready(g *G) {
	if g == nil || g.run || g.done || g == w.cur {
		return
	}
	g.run = true
	w.runq = append(w.runq, g)
}

// switchOut hands control to the scheduler and returns when rescheduled.
func (w *World) switchOut(g *G) {
	w.back <- struct{}{}
	<-g.wake
	if g.killed || w.aborting {
		g.killed = true
		runtime.Goexit()
	}
}

// park blocks the current goroutine until ready() is called on it.
func (w *World) park(reason string) {
	g := w.cur
	if g.killed {
		runtime.Goexit()
	}
	g.reason = reason
	w.switchOut(g)
	g.reason = ""
}

// Y is the yield point that precedes every statement of the simulated system.
func Y() {
	w := W
	if w == nil || w.cur == nil {
		return
	}
	w.Steps++
	if w.Steps >= w.nextTick {
		w.tick()
	}
	if w.slice > 0 {
		w.slice--
		if w.slice > 0 {
			return
		}
		w.slow()
		return
	}
	if w.changePts != nil {
		w.slow()
	}
}

// tick runs every few thousand statements: computing takes time, and nobody
// keeps a processor for ever. Waiting in a loop therefore ends, if what it
// waits for happens.
func (w *World) tick() {
	g := w.cur
	w.nextTick = w.Steps + 5000
	if g.killed || w.aborting {
		return
	}
	if w.Steps >= w.MaxSteps {
		w.Fail("livelock", "no progress: %d steps executed, last in %s", w.Steps, g.Name)
	}
	if w.now == w.tickNow {
		w.now += 50 * Microsecond
	}
	w.tickNow = w.now
	if len(w.runq) > 0 || w.dueTimer() {
		if w.policy == PolPriority {
			g.prio = -w.Steps
		}
		w.requeue(g)
	}
}

func (w *World) slow() {
	g := w.cur
	if g.killed || w.aborting {
		return
	}
	if w.policy == PolPriority {
		if w.changePts[w.Steps] {
			g.prio = -w.Steps
			w.requeue(g)
		}
		return
	}
	if w.policy == PolPreempt {
		if w.pauseProb > 0 && w.Sched.P(w.pauseProb) {
			d := Duration(1+w.Sched.N(2000)) * Millisecond
			if w.Sched.Bool() {
				d /= 100
			}
			w.Count("fault.thread_pause")
			w.Logf("preempted and paused for %v ms", d/Millisecond)
			w.NoteSig("pause", uint64(g.ID))
			w.At(d, func() { w.ready(g) })
			w.park("paused")
			return
		}
		w.requeue(g)
	}
}

func (w *World) requeue(g *G) {
	if len(w.runq) == 0 && !w.dueTimer() {
		w.newSlice()
		return
	}
	g.run = true
	w.runq = append(w.runq, g)
	g.reason = "preempted"
	w.switchOut(g)
	g.reason = ""
}

func (w *World) dueTimer() bool { return len(w.timers) > 0 && w.timers[0].at <= w.now }

func (w *World) newSlice() {
	w.slice = 0
	if w.policy == PolPreempt {
		// 0 means "run until blocked"
		w.slice = w.Sched.N(2*w.meanSlice + 1)
	}
}

// yieldPoint is a possible switch at a synchronisation operation.
func (w *World) yieldPoint() {
	g := w.cur
	if g == nil || g.killed || w.aborting {
		return
	}
	w.Steps++
	switch w.policy {
	case PolFIFO:
		return
	case PolPriority:
		if len(w.runq) > 0 {
			w.requeue(g)
		}
	default:
		if len(w.runq) > 0 && w.Sched.N(4) == 3 {
			w.requeue(g)
		}
	}
}

// YMid is a possible switch between reading a shared variable and writing it.
// Only a lock keeps others from it, so it is a likely place for a switch.
func YMid() {
	w := W
	if w == nil || w.cur == nil || w.cur.killed || w.aborting {
		return
	}
	w.Steps++
	if w.policy == PolFIFO || w.Sched.N(3) != 0 {
		return
	}
	g := w.cur
	if len(w.runq) == 0 && !w.dueTimer() {
		if w.policy != PolPreempt || w.pauseProb == 0 {
			return
		}
		w.Count("fault.thread_pause")
		w.At(Duration(1+w.Sched.N(1000))*Microsecond, func() { w.ready(g) })
		w.park("paused")
		return
	}
	w.requeue(g)
}

// YieldPoint lets the scheduler switch here.
func YieldPoint() {
	if W != nil && W.cur != nil {
		W.yieldPoint()
	}
}

func Gosched() {
	if W != nil && W.cur != nil && !W.cur.killed {
		W.requeue(W.cur)
	}
}

func (w *World) pick() *G {
	i := 0
	n := len(w.runq)
	switch w.policy {
	case PolFIFO:
	case PolPriority:
		for j := 1; j < n; j++ {
			if w.runq[j].prio > w.runq[i].prio {
				i = j
			}
		}
	default:
		i = w.Sched.N(n)
	}
	g := w.runq[i]
	copy(w.runq[i:], w.runq[i+1:])
	w.runq = w.runq[:n-1]
	g.run = false
	return g
}

// ChoosePolicy draws the scheduling policy of this run.
func (w *World) ChoosePolicy(allowPause bool) {
	switch w.Sched.W(1, 2, 5, 2) {
	case 0:
		w.policy = PolFIFO
	case 1:
		w.policy = PolRandomBlock
	case 2:
		w.policy = PolPreempt
		w.meanSlice = []int{200, 60, 20, 6, 2}[w.Sched.N(5)]
		if allowPause && w.Sched.N(3) == 2 {
			w.pauseProb = []int{2, 10, 40}[w.Sched.N(3)]
		}
	case 3:
		w.policy = PolPriority
		w.changePts = map[int]bool{}
		n := 1 + w.Sched.N(6)
		for i := 0; i < n; i++ {
			w.changePts[w.Sched.N(6000)] = true
		}
	}
}

// Pausing reports whether goroutines may be suspended for long.
func (w *World) Pausing() bool { return w.pauseProb > 0 }

// SetPausing turns the suspension of goroutines off or on again; it returns the
// previous setting.
func (w *World) SetPausing(p int) int {
	o := w.pauseProb
	w.pauseProb = p
	return o
}

// Run executes main and everything it starts until main returns, a violation
// is recorded, or nothing can happen any more.
var resets []func()

// OnReset registers the initialisation of the variables of a package.
func OnReset(fn func()) { resets = append(resets, fn) }

// ResetGlobals gives all packages under test the variables they have in a new
// process. It is called at the beginning of a run.
func ResetGlobals() {
	for _, fn := range resets {
		fn()
	}
}

func (w *World) Run(main func()) {
	W = w
	defer func() { W = nil }()
	mg := GoNamed("main", w.procMain, main)
	for !w.stop && !mg.done {
		if w.dueTimer() && (len(w.runq) == 0 || w.policy == PolFIFO || w.Sched.Bool()) {
			w.fire()
			continue
		}
		if len(w.runq) == 0 {
			if len(w.timers) == 0 {
				w.deadlock()
				break
			}
			w.fire()
			continue
		}
		g := w.pick()
		w.Switches++
		w.note(1, uint64(g.ID))
		w.cur = g
		w.newSlice()
		g.wake <- struct{}{}
		<-w.back
		w.cur = nil
		if w.OnSwitch != nil {
			w.OnSwitch()
		}
	}
	w.abort()
}

func (w *World) fire() {
	t := heap.Pop(&w.timers).(*Timer)
	t.live = false
	if t.at > w.now {
		w.now = t.at
	}
	w.note(2, t.seq)
	t.fn()
}

func (w *World) deadlock() {
	var sb strings.Builder
	for _, g := range w.gs {
		fmt.Fprintf(&sb, " [%s: %s]", g.Name, g.reason)
	}
	if w.Viol == nil {
		w.Viol = &Violation{Class: "deadlock", Msg: "deadlock: nothing can run any more:" + sb.String()}
		w.Logf("DEADLOCK%s", sb.String())
	}
}

func (w *World) abort() {
	w.aborting = true
	for len(w.gs) > 0 {
		g := w.gs[0]
		g.killed = true
		w.cur = g
		g.wake <- struct{}{}
		<-w.back
		w.cur = nil
	}
	for _, f := range w.AtEnd {
		f()
	}
}

// Dying reports whether the current goroutine is being torn down.
func Dying() bool {
	return W == nil || W.cur == nil || W.cur.killed || W.aborting
}

// KillProc removes all goroutines of p at once, as a process crash does.
func (w *World) KillProc(p *Proc) {
	if p.Dead {
		return
	}
	p.Dead = true
	w.Logf("process %s dies", p.Name)
	for _, f := range p.OnKill {
		f()
	}
	for _, g := range w.gs {
		if g.Proc == p && g != w.cur {
			g.killed = true
			w.ready(g)
		}
	}
}

// ---- wait queues

type WaitQ struct{ gs []*G }

// Wait parks the current goroutine on q until notified or until deadline
// (absolute virtual time, <0 for none). It returns false on timeout.
func (q *WaitQ) Wait(reason string, deadline Duration) bool {
	w := W
	g := w.cur
	if g.killed || w.aborting {
		runtime.Goexit()
	}
	var t *Timer
	timedOut := false
	if deadline >= 0 {
		if deadline <= w.now {
			return false
		}
		t = w.At(deadline-w.now, func() {
			timedOut = true
			q.drop(g)
			w.ready(g)
		})
	}
	q.gs = append(q.gs, g)
	w.park(reason)
	w.StopTimer(t)
	return !timedOut
}

func (q *WaitQ) drop(g *G) {
	for i, x := range q.gs {
		if x == g {
			q.gs = append(q.gs[:i], q.gs[i+1:]...)
			return
		}
	}
}

func (q *WaitQ) NotifyAll() {
	if W == nil {
		q.gs = nil
		return
	}
	for _, g := range q.gs {
		W.ready(g)
	}
	q.gs = nil
}

func (q *WaitQ) NotifyOne() {
	if len(q.gs) == 0 || W == nil {
		return
	}
	g := q.gs[0]
	q.gs = q.gs[1:]
	W.ready(g)
}

func (q *WaitQ) Len() int { return len(q.gs) }

// Sleep advances virtual time for the current goroutine.
func Sleep(d Duration) {
	w := W
	if w == nil || w.cur == nil {
		return
	}
	g := w.cur
	if g.killed {
		runtime.Goexit()
	}
	if d <= 0 {
		w.yieldPoint()
		return
	}
	w.At(d, func() { w.ready(g) })
	w.park("sleep")
}

// Join waits for the goroutines to end; false if the deadline (relative,
// virtual) passes first.
func (w *World) Join(d Duration, gs ...*G) bool {
	dl := w.now + d
	for _, g := range gs {
		for !g.done {
			if !g.doneQ.Wait("join "+g.Name, dl) && !g.done {
				return false
			}
		}
	}
	return true
}

// Exit ends the current goroutine's process, as os.Exit does.
func Exit(reason string) {
	w := W
	p := w.cur.Proc
	w.Logf("process %s exits: %s", p.Name, reason)
	if p.OnExit != nil {
		p.OnExit(reason)
	}
	w.KillProc(p)
	w.cur.killed = true
	runtime.Goexit()
}
