package rt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"unsafe"
	"weak"
)

// Channels work as the runtime's do: waiters queue in order, a value is handed
// to the waiter that receives it, and a select leaves all its queues at the
// moment one of its cases is chosen.

// selG is one blocked send, receive or select.
type selG struct {
	g      *G
	q      WaitQ
	done   bool
	idx    int
	v      any
	ok     bool
	closed bool
}

func (sg *selG) fire(idx int, v any, ok bool) {
	sg.done, sg.idx, sg.v, sg.ok = true, idx, v, ok
	sg.q.NotifyAll()
}

type chanWaiter struct {
	sg  *selG
	idx int
	v   any
}

type chanState struct {
	ref    unsafe.Pointer // keeps the channel, so that its address stays its own
	cap    int
	buf    []any
	closed bool
	recvq  []*chanWaiter
	sendq  []*chanWaiter
}

func state(ch any) *chanState {
	v := reflect.ValueOf(ch)
	p := v.Pointer()
	if p == 0 {
		return nil
	}
	w := W
	s := w.chans[p]
	if s == nil {
		s = &chanState{ref: v.UnsafePointer(), cap: v.Cap()}
		w.chans[p] = s
	}
	return s
}

func blockForever() {
	var q WaitQ
	for {
		q.Wait("nil channel", -1)
	}
}

func (cw *chanWaiter) live() bool { return !cw.sg.done && !cw.sg.g.killed }

func waiting(q []*chanWaiter) bool {
	for _, cw := range q {
		if cw.live() {
			return true
		}
	}
	return false
}

// pop takes the first waiter that is still there.
func pop(q *[]*chanWaiter) *chanWaiter {
	for len(*q) > 0 {
		cw := (*q)[0]
		*q = (*q)[1:]
		if cw.live() {
			return cw
		}
	}
	return nil
}

func unqueue(q *[]*chanWaiter, sg *selG) {
	o := (*q)[:0:0]
	for _, cw := range *q {
		if cw.sg != sg {
			o = append(o, cw)
		}
	}
	*q = o
}

func (s *chanState) canRecv() bool { return len(s.buf) > 0 || s.closed || waiting(s.sendq) }

func (s *chanState) canSend() bool { return s.closed || len(s.buf) < s.cap || waiting(s.recvq) }

// recv receives when canRecv.
func (s *chanState) recv() (any, bool) {
	if len(s.buf) > 0 {
		v := s.buf[0]
		s.buf = s.buf[1:]
		if cw := pop(&s.sendq); cw != nil {
			s.buf = append(s.buf, cw.v)
			cw.sg.fire(cw.idx, nil, true)
		}
		return v, true
	}
	if cw := pop(&s.sendq); cw != nil {
		v := cw.v
		cw.sg.fire(cw.idx, nil, true)
		return v, true
	}
	return nil, false // closed
}

// send sends when canSend.
func (s *chanState) send(v any) {
	if s.closed {
		panic("send on closed channel")
	}
	if cw := pop(&s.recvq); cw != nil {
		cw.sg.fire(cw.idx, v, true)
		return
	}
	s.buf = append(s.buf, v)
}

// block waits until one of the cases has been chosen.
func block(reason string, cases []SelCase) *selG {
	sg := &selG{g: W.cur}
	for i, c := range cases {
		if c.s == nil {
			continue
		}
		cw := &chanWaiter{sg: sg, idx: i, v: c.v}
		if c.send {
			c.s.sendq = append(c.s.sendq, cw)
		} else {
			c.s.recvq = append(c.s.recvq, cw)
		}
	}
	defer func() {
		for _, c := range cases {
			if c.s == nil {
				continue
			}
			if c.send {
				unqueue(&c.s.sendq, sg)
			} else {
				unqueue(&c.s.recvq, sg)
			}
		}
	}()
	for !sg.done {
		sg.q.Wait(reason, -1)
	}
	if sg.closed {
		panic("send on closed channel")
	}
	return sg
}

func Send[T any](ch chan<- T, v T) {
	if W == nil || W.cur == nil {
		ch <- v
		return
	}
	if Dying() {
		runtime.Goexit()
	}
	W.yieldPoint()
	s := state(ch)
	if s == nil {
		blockForever()
	}
	if s.canSend() {
		s.send(v)
		return
	}
	block("chan send", []SelCase{{s: s, send: true, v: v}})
}

// SendTo returns the send operation on ch; its argument is converted to the
// channel's element type by ordinary assignability.
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { Send(ch, v) } }

// SendCaseTo is SendTo for select.
func SendCaseTo[T any](ch chan<- T) func(T) SelCase {
	return func(v T) SelCase { return SendCase(ch, v) }
}

// TrySend never blocks; used by timers.
func TrySend[T any](ch chan T, v T) bool {
	s := state(ch)
	if s.closed || !s.canSend() {
		return false
	}
	s.send(v)
	return true
}

// Drain empties a timer channel; it reports whether a value was waiting in it.
func Drain[T any](ch chan T) bool {
	if W == nil {
		return false
	}
	s := state(ch)
	n := len(s.buf)
	s.buf = nil
	return n > 0
}

func conv[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if W == nil || W.cur == nil {
		v, ok := <-ch
		return v, ok
	}
	if Dying() {
		runtime.Goexit()
	}
	W.yieldPoint()
	s := state(ch)
	if s == nil {
		blockForever()
	}
	if s.canRecv() {
		v, ok := s.recv()
		return conv[T](v), ok
	}
	sg := block("chan receive", []SelCase{{s: s}})
	return conv[T](sg.v), sg.ok
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Close[T any](ch chan<- T) {
	if W == nil {
		close(ch)
		return
	}
	s := state(ch)
	if s == nil {
		panic("close of nil channel")
	}
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
	for cw := pop(&s.recvq); cw != nil; cw = pop(&s.recvq) {
		cw.sg.fire(cw.idx, nil, false)
	}
	for cw := pop(&s.sendq); cw != nil; cw = pop(&s.sendq) {
		cw.sg.closed = true
		cw.sg.fire(cw.idx, nil, false)
	}
	if !Dying() {
		W.yieldPoint()
	}
}

func ChanLen(ch any) int {
	if W == nil {
		return reflect.ValueOf(ch).Len()
	}
	s := state(ch)
	if s == nil {
		return 0
	}
	return len(s.buf)
}

// ---- select

type SelCase struct {
	s    *chanState
	send bool
	v    any
}

type Sel struct {
	I  int
	v  any
	ok bool
}

func RecvCase[T any](ch <-chan T) SelCase {
	if W == nil {
		panic("select outside simulation")
	}
	return SelCase{s: state(ch)}
}

func SendCase[T any](ch chan<- T, v T) SelCase {
	return SelCase{s: state(ch), send: true, v: v}
}

// Select runs a select statement; index -1 is the default case.
func Select(hasDefault bool, cases ...SelCase) *Sel {
	w := W
	if Dying() {
		runtime.Goexit()
	}
	w.yieldPoint()
	var readyIdx []int
	for i, c := range cases {
		if c.s == nil {
			continue
		}
		if c.send && c.s.canSend() || !c.send && c.s.canRecv() {
			readyIdx = append(readyIdx, i)
		}
	}
	if len(readyIdx) > 0 {
		i := readyIdx[w.Sched.N(len(readyIdx))]
		c := cases[i]
		if c.send {
			c.s.send(c.v)
			return &Sel{I: i}
		}
		v, ok := c.s.recv()
		return &Sel{I: i, v: v, ok: ok}
	}
	if hasDefault {
		return &Sel{I: -1}
	}
	sg := block("select", cases)
	return &Sel{I: sg.idx, v: sg.v, ok: sg.ok}
}

func SelVal[T any](_ <-chan T, s *Sel) T { return conv[T](s.v) }
func SelVal2[T any](_ <-chan T, s *Sel) (T, bool) {
	return conv[T](s.v), s.ok
}

type chanIter[T any] struct{ ch <-chan T }

// ChanRange supports "for v := range ch".
func ChanRange[T any](ch <-chan T) (*chanIter[T], T) {
	var z T
	return &chanIter[T]{ch}, z
}

func (it *chanIter[T]) Next(v *T) bool {
	x, ok := Recv2(it.ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}

// ---- maps

type mapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// The runtime ends the process when it finds a map used by one goroutine while
// another one writes to it. Here a write takes two steps, and any other use in
// its middle is found for certain.

func mapID[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

func mapCheck(p unsafe.Pointer, what string) {
	w := W
	if w == nil || w.cur == nil || len(w.mapWriter) == 0 {
		return
	}
	if g := w.mapWriter[p]; g != nil && g != w.cur && !g.killed && !g.done {
		w.Fail("panic", "fatal error: concurrent map %s (%s and %s)", what, w.cur.Name, g.Name)
	}
}

func mapWrite(p unsafe.Pointer, f func()) {
	w := W
	if w == nil || w.cur == nil || p == nil {
		f()
		return
	}
	mapCheck(p, "writes")
	g := w.cur
	if w.mapWriter == nil {
		w.mapWriter = map[unsafe.Pointer]*G{}
	}
	w.mapWriter[p] = g
	defer func() {
		if w.mapWriter[p] == g {
			delete(w.mapWriter, p)
		}
	}()
	Y()
	f()
}

// MapR is a map that is about to be read.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if W != nil && len(W.mapWriter) != 0 {
		mapCheck(mapID(m), "read and map write")
	}
	return m
}

// MapSet writes an entry.
func MapSet[M ~map[K]V, K comparable, V any](m M) func(K, V) {
	return func(k K, v V) { mapWrite(mapID(m), func() { m[k] = v }) }
}

// MapDelete deletes an entry.
func MapDelete[M ~map[K]V, K comparable, V any](m M) func(K) {
	return func(k K) { mapWrite(mapID(m), func() { delete(m, k) }) }
}

// MapRange iterates a map in an order the scheduler decides.
func MapRange[M ~map[K]V, K comparable, V any](m M) (*mapIter[K, V], K, V) {
	var k K
	var v V
	it := &mapIter[K, V]{m: MapR(m)}
	for x := range m {
		it.keys = append(it.keys, x)
	}
	if len(it.keys) > 1 {
		sort.Slice(it.keys, func(i, j int) bool { return lessKey(it.keys[i], it.keys[j]) })
		if W != nil && W.cur != nil {
			for i := len(it.keys) - 1; i > 0; i-- {
				j := i - W.Sched.N(i+1)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return it, k, v
}

func lessKey(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case int:
		return x < b.(int)
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.String:
		return va.String() < vb.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return va.Int() < vb.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return va.Uint() < vb.Uint()
	}
	return stableName(a) < stableName(b)
}

// Namer lets pointer-like keys have a stable order.
type Namer interface{ Name() string }

func stableName(a any) string {
	if n, ok := a.(Namer); ok {
		return n.Name()
	}
	return fmt.Sprint(a)
}

func (it *mapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		x := it.keys[it.i]
		it.i++
		val, ok := MapR(it.m)[x]
		if !ok {
			continue
		}
		if k != nil {
			*k = x
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// Forget drops what the simulator keeps about channels that nobody else knows
// any more, and returns how much memory it needs for its own purposes.
func (w *World) Forget() int64 {
	weaks := map[uintptr]weak.Pointer[byte]{}
	for p, s := range w.chans {
		weaks[p] = weak.Make((*byte)(s.ref))
		s.ref = nil
	}
	runtime.GC()
	left := map[uintptr]*chanState{}
	for p, k := range weaks {
		if r := k.Value(); r != nil {
			s := w.chans[p]
			s.ref = unsafe.Pointer(r)
			left[p] = s
		}
	}
	w.chans = left
	n := int64(0)
	for _, s := range []*Stream{w.Plan, w.Sched, w.Net} {
		n += 4 * int64(cap(s.Rec))
	}
	// the runtime keeps the descriptors of goroutines and waiters for later ones
	return n + 600*int64(w.peak) + 8*int64(cap(w.timers)+cap(w.runq)+cap(w.gs))
}
