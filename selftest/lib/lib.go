// Package lib exercises the language and library constructs the simulator
// replaces. Every function's result is the same under every schedule, so the
// simulated result has to be the native one.
package lib

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Test struct {
	Name string
	F    func() string
}

var Tests = []Test{
	{"prodcons", prodcons}, {"workerpool", workerpool}, {"selectRace", selectRace}, {"selectSendRace", selectSendRace},
	{"selectBoth", selectBoth}, {"condQueue", condQueue}, {"condBroadcast", condBroadcast}, {"rwmutex", rwmutex},
	{"once", once}, {"onceValue", onceValue}, {"waitgroup", waitgroup}, {"errgroup", errgroup},
	{"firstError", firstError}, {"ctxCancel", ctxCancel}, {"ctxTimeout", ctxTimeout}, {"ctxTree", ctxTree},
	{"ctxAfterFunc", ctxAfterFunc}, {"ctxCause", ctxCause}, {"timerStop", timerStop}, {"timerReset", timerReset},
	{"timerLate", timerLate}, {"ticker", ticker}, {"afterFunc", afterFunc}, {"semaphore", semaphore}, {"closeWakes", closeWakes},
	{"closePanics", closePanics}, {"sendClosedPanics", sendClosedPanics}, {"goBuiltin", goBuiltin}, {"labels", labels}, {"mapOps", mapOps},
	{"mapRangeDelete", mapRangeDelete}, {"rangeForms", rangeForms}, {"loopVar", loopVar}, {"deferOrder", deferOrder}, {"recoverIt", recoverIt},
	{"rmw", rmw}, {"shifts", shifts}, {"structAssign", structAssign}, {"switches", switches}, {"generics", generics},
	{"syncMap", syncMap}, {"pool", pool}, {"atomics", atomics}, {"tcpEcho", tcpEcho}, {"tcpClose", tcpClose}, {"tcpDeadline", tcpDeadline},
	{"netPipe", netPipe}, {"tcpHalf", tcpHalf}, {"tcpBuffers", tcpBuffers}, {"listenerClose", listenerClose}, {"nilChan", nilChan}, {"chanOfChan", chanOfChan},
	{"embedded", embedded}, {"goArgs", goArgs}, {"methodValues", methodValues}, {"tryLock", tryLock}, {"fanInOrder", fanInOrder},
	{"barrier", barrier}, {"rlocker", rlocker}, {"mutexHandoff", mutexHandoff}, {"dialRefused", dialRefused}, {"dialTimeout", dialTimeout},
	{"singleflight", singleflight}, {"ioCopy", ioCopy}, {"gotoLoop", gotoLoop}, {"chanTypes", chanTypes}, {"timeoutSelect", timeoutSelect},
	{"multiAssign", multiAssign}, {"ioPipe", ioPipe}, {"clockReadings", clockReadings},
}

func prodcons() string {
	ch := make(chan int)
	done := make(chan int)
	go func() {
		s := 0
		for v := range ch {
			s += v
		}
		done <- s
	}()
	for i := 0; i < 20; i++ {
		ch <- i
	}
	close(ch)
	return fmt.Sprint(<-done)
}

func workerpool() string {
	jobs := make(chan int, 3)
	res := make(chan int, 1)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				res <- j * j
			}
		}()
	}
	go func() {
		for i := 0; i < 15; i++ {
			jobs <- i
		}
		close(jobs)
		wg.Wait()
		close(res)
	}()
	sum := 0
	n := 0
	for v := range res {
		sum += v
		n++
	}
	return fmt.Sprint(sum, n)
}

// A select that wants to send and one that may receive elsewhere: nobody may
// hang on a partner that chose another case.
func selectRace() string {
	a, b := make(chan int), make(chan int)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	got := make(chan int, 100)
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case v := <-a:
					got <- v
				case v, ok := <-b:
					if ok {
						got <- v
					}
				case <-stop:
					return
				}
			}
		}()
	}
	for i := 0; i < 3; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 5; k++ {
				select {
				case a <- i:
				case b <- 10 * i:
				}
			}
		}()
	}
	n := 0
	for n < 15 {
		<-got
		n++
	}
	close(stop)
	wg.Wait()
	return fmt.Sprint(n, len(got))
}

func selectSendRace() string {
	a, b := make(chan int), make(chan int)
	out := make(chan string, 1)
	go func() {
		select {
		case a <- 1:
			out <- "one"
		case b <- 1:
			out <- "one"
		}
	}()
	go func() {
		select {
		case v := <-a:
			_ = v
		case v := <-b:
			_ = v
		}
	}()
	return <-out
}

func selectBoth() string {
	// each of two goroutines offers to send to and receive from the other
	c := make(chan int)
	out := make(chan int, 2)
	for i := 1; i <= 2; i++ {
		go func(i int) {
			select {
			case c <- i:
				out <- 0
			case v := <-c:
				out <- v + i
			}
		}(i)
	}
	return fmt.Sprint(<-out + <-out)
}

type queue struct {
	mu    sync.Mutex
	c     *sync.Cond
	items []int
	done  bool
}

func condQueue() string {
	q := &queue{}
	q.c = sync.NewCond(&q.mu)
	var wg sync.WaitGroup
	var total int64
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				q.mu.Lock()
				for len(q.items) == 0 && !q.done {
					q.c.Wait()
				}
				if len(q.items) == 0 {
					q.mu.Unlock()
					return
				}
				v := q.items[0]
				q.items = q.items[1:]
				q.mu.Unlock()
				atomic.AddInt64(&total, int64(v))
			}
		}()
	}
	for i := 0; i < 10; i++ {
		q.mu.Lock()
		q.items = append(q.items, i)
		q.c.Signal()
		q.mu.Unlock()
	}
	q.mu.Lock()
	q.done = true
	q.mu.Unlock()
	q.c.Broadcast()
	wg.Wait()
	return fmt.Sprint(total)
}

func condBroadcast() string {
	var mu sync.RWMutex
	c := sync.NewCond(mu.RLocker())
	ready := false
	var wg sync.WaitGroup
	n := int32(0)
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.L.Lock()
			for !ready {
				c.Wait()
			}
			c.L.Unlock()
			atomic.AddInt32(&n, 1)
		}()
	}
	mu.Lock()
	ready = true
	c.Broadcast()
	mu.Unlock()
	wg.Wait()
	return fmt.Sprint(n)
}

func rwmutex() string {
	var mu sync.RWMutex
	m := map[int]int{}
	var wg sync.WaitGroup
	bad := int32(0)
	for i := 0; i < 3; i++ {
		i := i
		wg.Add(2)
		go func() {
			defer wg.Done()
			for k := 0; k < 5; k++ {
				mu.Lock()
				m[0]++
				m[1]++
				mu.Unlock()
			}
		}()
		go func() {
			defer wg.Done()
			for k := 0; k < 5; k++ {
				mu.RLock()
				if m[0] != m[1] {
					atomic.AddInt32(&bad, 1)
				}
				_ = m[i]
				mu.RUnlock()
			}
		}()
	}
	wg.Wait()
	return fmt.Sprint(m[0], m[1], bad)
}

func once() string {
	var o sync.Once
	n := 0
	var wg sync.WaitGroup
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			o.Do(func() { n++ })
			if n != 1 {
				n = 100
			}
		}()
	}
	wg.Wait()
	return fmt.Sprint(n)
}

func onceValue() string {
	n := 0
	f := sync.OnceValue(func() int { n++; return 7 })
	g := sync.OnceFunc(func() { n += 10 })
	h := sync.OnceValues(func() (int, error) { n += 100; return 1, errors.New("e") })
	g()
	g()
	a := f() + f()
	_, err := h()
	_, err = h()
	return fmt.Sprint(n, a, err)
}

func waitgroup() string {
	var wg sync.WaitGroup
	res := make([]int, 6)
	wg.Add(len(res))
	for i := range res {
		go func(i int) {
			defer wg.Done()
			time.Sleep(time.Duration(i%3) * time.Millisecond)
			res[i] = i + 1
		}(i)
	}
	wg.Wait()
	return fmt.Sprint(res)
}

type group struct {
	wg   sync.WaitGroup
	once sync.Once
	err  error
	stop context.CancelFunc
	sem  chan struct{}
}

func (g *group) Go(f func() error) {
	if g.sem != nil {
		g.sem <- struct{}{}
	}
	g.wg.Add(1)
	go func() {
		defer func() {
			if g.sem != nil {
				<-g.sem
			}
			g.wg.Done()
		}()
		if err := f(); err != nil {
			g.once.Do(func() {
				g.err = err
				if g.stop != nil {
					g.stop()
				}
			})
		}
	}()
}

func (g *group) Wait() error {
	g.wg.Wait()
	if g.stop != nil {
		g.stop()
	}
	return g.err
}

func errgroup() string {
	ctx, cancel := context.WithCancel(context.Background())
	g := &group{stop: cancel, sem: make(chan struct{}, 2)}
	var n atomic.Int32
	for i := 0; i < 6; i++ {
		i := i
		g.Go(func() error {
			n.Add(1)
			if i == 3 {
				return errors.New("three")
			}
			if i == 5 {
				<-ctx.Done()
			}
			return nil
		})
	}
	err := g.Wait()
	return fmt.Sprint(err, n.Load(), ctx.Err())
}

func firstError() string {
	errs := make(chan error, 3)
	for i := 0; i < 3; i++ {
		go func(i int) {
			if i == 1 {
				errs <- fmt.Errorf("err %d", i)
				return
			}
			errs <- nil
		}(i)
	}
	var first error
	for i := 0; i < cap(errs); i++ {
		if err := <-errs; err != nil && first == nil {
			first = err
		}
	}
	return fmt.Sprint(first, len(errs))
}

func ctxCancel() string {
	ctx, cancel := context.WithCancel(context.Background())
	out := make(chan error)
	go func() {
		<-ctx.Done()
		out <- ctx.Err()
	}()
	cancel()
	cancel()
	err := <-out
	return fmt.Sprint(err, errors.Is(err, context.Canceled), context.Cause(ctx))
}

func ctxTimeout() string {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Millisecond)
	defer cancel()
	select {
	case <-ctx.Done():
	case <-time.After(10 * time.Second):
		return "late"
	}
	_, has := ctx.Deadline()
	c2, cancel2 := context.WithTimeout(ctx, time.Hour)
	defer cancel2()
	c3, cancel3 := context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
	defer cancel3()
	<-c3.Done()
	return fmt.Sprint(ctx.Err(), has, c2.Err(), c3.Err(), errors.Is(ctx.Err(), context.DeadlineExceeded))
}

type ckey string

func ctxTree() string {
	root, cancel := context.WithCancel(context.WithValue(context.Background(), ckey("a"), 1))
	kid, ck := context.WithCancel(context.WithValue(root, ckey("b"), 2))
	sib, cs := context.WithTimeout(root, time.Hour)
	defer cs()
	free := context.WithoutCancel(kid)
	ck()
	s := fmt.Sprint(kid.Err(), root.Err(), sib.Err())
	cancel()
	<-sib.Done()
	return s + fmt.Sprint(root.Err(), sib.Err(), free.Err(), free.Done() == nil, kid.Value(ckey("a")), free.Value(ckey("b")), root.Value(ckey("b")))
}

func ctxAfterFunc() string {
	ctx, cancel := context.WithCancel(context.Background())
	out := make(chan int, 2)
	context.AfterFunc(ctx, func() { out <- 1 })
	stop := context.AfterFunc(ctx, func() { out <- 5 })
	a := stop()
	b := stop()
	cancel()
	v := <-out
	late := make(chan int)
	context.AfterFunc(ctx, func() { late <- 2 })
	return fmt.Sprint(a, b, v, <-late)
}

func ctxCause() string {
	ctx, cancel := context.WithCancelCause(context.Background())
	cancel(errors.New("why"))
	kid, c2 := context.WithTimeoutCause(ctx, time.Hour, errors.New("slow"))
	defer c2()
	t, c3 := context.WithTimeoutCause(context.Background(), time.Millisecond, errors.New("slow"))
	defer c3()
	<-t.Done()
	return fmt.Sprint(ctx.Err(), context.Cause(ctx), kid.Err(), context.Cause(kid), t.Err(), context.Cause(t))
}

func timerStop() string {
	t := time.NewTimer(time.Hour)
	a := t.Stop()
	b := t.Stop()
	t2 := time.NewTimer(time.Millisecond)
	time.Sleep(20 * time.Millisecond)
	if !t2.Stop() {
		<-t2.C
	}
	select {
	case <-t2.C:
		return "stale"
	default:
	}
	t3 := time.NewTimer(time.Millisecond)
	<-t3.C
	return fmt.Sprint(a, b, t3.Stop())
}

func timerReset() string {
	t := time.NewTimer(time.Hour)
	n := 0
	for i := 0; i < 3; i++ {
		t.Reset(time.Millisecond)
		<-t.C
		n++
	}
	a := t.Reset(time.Hour)
	b := t.Reset(time.Millisecond)
	<-t.C
	return fmt.Sprint(n, a, b)
}

func timerLate() string {
	t := time.NewTimer(time.Millisecond)
	time.Sleep(20 * time.Millisecond)
	t.Reset(40 * time.Millisecond)
	s := time.Now()
	<-t.C
	return fmt.Sprint(time.Since(s) > 20*time.Millisecond)
}

func ticker() string {
	t := time.NewTicker(2 * time.Millisecond)
	defer t.Stop()
	n := 0
	for range t.C {
		n++
		if n == 3 {
			break
		}
	}
	return fmt.Sprint(n)
}

func afterFunc() string {
	out := make(chan int, 3)
	t := time.AfterFunc(time.Millisecond, func() { out <- 1 })
	v := <-out
	u := time.AfterFunc(time.Hour, func() { out <- 2 })
	a := u.Stop()
	b := t.Reset(time.Millisecond)
	return fmt.Sprint(v, a, b, <-out)
}

func semaphore() string {
	sem := make(chan struct{}, 2)
	var cur, max, n int32
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			c := atomic.AddInt32(&cur, 1)
			for {
				m := atomic.LoadInt32(&max)
				if c <= m || atomic.CompareAndSwapInt32(&max, m, c) {
					break
				}
			}
			time.Sleep(time.Millisecond)
			atomic.AddInt32(&cur, -1)
			atomic.AddInt32(&n, 1)
		}()
	}
	wg.Wait()
	return fmt.Sprint(max <= 2, n, len(sem))
}

func closeWakes() string {
	ch := make(chan int)
	var wg sync.WaitGroup
	zeros := int32(0)
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if v, ok := <-ch; v == 0 && !ok {
				atomic.AddInt32(&zeros, 1)
			}
		}()
	}
	time.Sleep(time.Millisecond)
	close(ch)
	wg.Wait()
	b := make(chan int, 3)
	b <- 1
	b <- 2
	close(b)
	x, ok1 := <-b
	var y, ok2 = <-b
	z, ok3 := <-b
	return fmt.Sprint(zeros, x, ok1, y, ok2, z, ok3, len(b), cap(b))
}

func try(f func()) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint(r)
		}
	}()
	f()
	return "ok"
}

func closePanics() string {
	return try(func() {
		c := make(chan int)
		close(c)
		close(c)
	}) + "|" + try(func() {
		var c chan int
		close(c)
	}) + "|" + try(func() {
		var wg sync.WaitGroup
		wg.Add(-1)
	}) + "|" + try(func() {
		var m map[string]int
		m["a"] = 1
	}) + "|" + try(func() {
		var m map[string]int
		delete(m, "a")
		_ = m["x"]
	})
}

func sendClosedPanics() string {
	c := make(chan int)
	out := make(chan string, 2)
	go func() { out <- try(func() { c <- 1 }) }()
	go func() {
		out <- try(func() {
			select {
			case c <- 1:
			case <-time.After(time.Hour):
			}
		})
	}()
	time.Sleep(2 * time.Millisecond)
	close(c)
	return <-out + <-out
}

func goBuiltin() string {
	c := make(chan int)
	go close(c)
	_, ok := <-c
	d := make(chan int)
	func() {
		defer close(d)
	}()
	_, ok2 := <-d
	m := map[int]int{1: 1, 2: 2}
	func() {
		defer delete(m, 1)
	}()
	return fmt.Sprint(ok, ok2, len(m))
}

func labels() string {
	var b strings.Builder
	m := map[int]int{1: 1}
	c := make(chan int, 3)
	c <- 1
	c <- 2
	c <- 3
Outer:
	for i := 0; i < 5; i++ {
	Inner:
		for k, v := range m {
			for j := range []int{1, 2, 3} {
				switch {
				case j == 1 && i == 1:
					continue Outer
				case j == 1 && i == 2:
					break Inner
				case i == 4:
					break Outer
				}
				fmt.Fprint(&b, i, j, k, v, ";")
			}
		}
	}
Loop:
	for {
		select {
		case v := <-c:
			fmt.Fprint(&b, "r", v)
			if v == 2 {
				continue Loop
			}
			if v == 3 {
				break Loop
			}
		}
	}
Sel:
	select {
	default:
		if b.Len() > 0 {
			break Sel
		}
		b.WriteString("never")
	}
	return b.String()
}

func mapOps() string {
	type key struct {
		a string
		b int
	}
	m := map[key][]int{}
	m[key{"x", 1}] = append(m[key{"x", 1}], 1)
	m[key{"x", 1}] = append(m[key{"x", 1}], 2)
	v, ok := m[key{"y", 0}]
	n := map[string]int{"a": 1}
	n["a"] += 5
	n["b"]++
	n["c"] |= 6
	n["a"], n["b"] = n["b"], n["a"]
	mm := map[string]map[string]*key{"o": {}}
	mm["o"]["i"] = &key{"z", 3}
	mm["o"]["i"].b++
	var ks []string
	for k := range n {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if x, ok := n["zz"]; !ok && x == 0 {
		ks = append(ks, "none")
	}
	return fmt.Sprint(m, v == nil, ok, n, mm["o"]["i"].b, ks, len(n))
}

func mapRangeDelete() string {
	m := map[int]bool{}
	for i := 0; i < 10; i++ {
		m[i] = true
	}
	seen := 0
	for k := range m {
		seen++
		delete(m, k)
	}
	for range m {
		seen += 100
	}
	var nilmap map[string]int
	for k, v := range nilmap {
		_, _ = k, v
		seen += 1000
	}
	var k int
	var v bool
	m[3] = true
	for k, v = range m {
	}
	return fmt.Sprint(seen, len(m), k, v)
}

func rangeForms() string {
	var b strings.Builder
	for i, r := range "héy" {
		fmt.Fprint(&b, i, string(r))
	}
	arr := [3]int{1, 2, 3}
	for i, x := range arr {
		arr[2] = 10
		fmt.Fprint(&b, i, x)
	}
	for i := range &arr {
		arr[i]++
	}
	s := []int{1, 2, 3}
	for i, x := range s {
		if i == 0 {
			s = append(s, 9)
			s[1] = 7
		}
		fmt.Fprint(&b, x)
	}
	var i int
	for i = range s {
	}
	c := make(chan string, 2)
	c <- "a"
	c <- "b"
	close(c)
	var last string
	for last = range c {
	}
	for range c {
	}
	fmt.Fprint(&b, arr, i, last)
	return b.String()
}

func loopVar() string {
	var fs []func() int
	for i := 0; i < 3; i++ {
		fs = append(fs, func() int { return i })
	}
	m := map[string]int{"a": 1}
	for k, v := range m {
		fs = append(fs, func() int { return v + len(k) })
	}
	s := 0
	for _, f := range fs {
		s = s*10 + f()
	}
	return fmt.Sprint(s)
}

func deferOrder() (res string) {
	var b strings.Builder
	defer func() { res = b.String() }()
	for i := 0; i < 3; i++ {
		defer fmt.Fprint(&b, i)
	}
	x := 1
	defer fmt.Fprint(&b, "x", x)
	x = 2
	func() {
		defer func() { fmt.Fprint(&b, "in", x) }()
		x++
	}()
	return "ignored"
}

func recoverIt() string {
	out := make(chan string, 1)
	go func() {
		defer func() {
			r := recover()
			out <- fmt.Sprint("got ", r)
		}()
		var p *queue
		p.items = nil
	}()
	return <-out
}

type counter struct {
	n    int
	f    float64
	s    string
	arr  [4]int
	next *counter
}

func rmw() string {
	c := &counter{next: &counter{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 3; k++ {
				mu.Lock()
				c.n++
				c.n = c.n + 1
				c.f += 0.5
				c.f *= 1
				c.s += "x"
				c.arr[k]--
				c.next.n += c.n - c.n + 2
				c.next.n &^= 0
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return fmt.Sprint(c.n, c.f, c.s, c.arr, c.next.n)
}

func shifts() string {
	var a uint8 = 0xf0
	var n = 3
	f := func() { a <<= 1; a >>= uint(n); n <<= 2; n %= 7; n ^= 0x10; n |= 1; n &= 0xff }
	f()
	var i8 int8 = 127
	g := func() { i8++; i8 = i8 - 1; i8 += 1 }
	g()
	c := complex(1, 2)
	h := func() { c += 1; c *= c }
	h()
	return fmt.Sprint(a, n, i8, c)
}

func structAssign() string {
	type in struct{ a, b []int }
	xs := []in{{a: []int{1}}, {}}
	p := &xs[1]
	f := func() {
		p.a = append(p.a, 5)
		xs[0].a = append(xs[0].a, p.a...)
		xs[0].b, xs[1].b = xs[1].a, xs[0].a
		p.a = p.a[:len(p.a)-1]
		*p = in{a: append(p.a, 7), b: p.b}
	}
	f()
	var e error
	g := func() { e = fmt.Errorf("wrap: %w", errors.Join(e, io.EOF)) }
	g()
	g()
	return fmt.Sprint(xs, errors.Is(e, io.EOF))
}

type shape interface{ area() int }
type sq struct{ s int }
type rc struct{ w, h int }

func (s sq) area() int  { return s.s * s.s }
func (r *rc) area() int { return r.w * r.h }

func switches() string {
	var b strings.Builder
	for _, v := range []any{1, "s", sq{2}, &rc{2, 3}, nil, []int{1}, 1.5, errors.New("e")} {
		switch x := v.(type) {
		case int:
			fmt.Fprint(&b, "int", x+1)
		case string, float64:
			fmt.Fprint(&b, x)
		case shape:
			fmt.Fprint(&b, "a", x.area())
		case nil:
			b.WriteString("nil")
		case error:
			b.WriteString(x.Error())
		default:
			fmt.Fprintf(&b, "%T", x)
		}
	}
	for i := 0; i < 4; i++ {
		switch y := i * 2; {
		case y == 2:
			b.WriteString("two")
			fallthrough
		case y == 4:
			b.WriteString("four")
		default:
			b.WriteString("d")
		}
		switch i {
		case 0, 1:
			continue
		case 3:
			break
		}
		b.WriteString("e")
	}
	if x, err := fmt.Sscan("5", new(int)); err != nil {
		b.WriteString("err")
	} else if x == 1 {
		b.WriteString("one")
	} else {
		b.WriteString("x")
	}
	return b.String()
}

type stack[T any] struct {
	mu sync.Mutex
	xs []T
}

func (s *stack[T]) push(x T) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.xs = append(s.xs, x)
}

func mapf[K comparable, V any, R any](m map[K]V, f func(K, V) R) []R {
	var out []R
	for k, v := range m {
		out = append(out, f(k, v))
	}
	return out
}

func merge[T any](cs ...<-chan T) <-chan T {
	out := make(chan T)
	var wg sync.WaitGroup
	for _, c := range cs {
		wg.Add(1)
		go func(c <-chan T) {
			defer wg.Done()
			for v := range c {
				out <- v
			}
		}(c)
	}
	go func() { wg.Wait(); close(out) }()
	return out
}

func generics() string {
	s := &stack[string]{}
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); s.push("x") }()
	}
	wg.Wait()
	r := mapf(map[string]int{"a": 1, "b": 2}, func(k string, v int) string { return fmt.Sprint(k, v) })
	sort.Strings(r)
	a, b := make(chan error, 2), make(chan error, 2)
	a <- nil
	a <- io.EOF
	b <- io.ErrUnexpectedEOF
	close(a)
	close(b)
	n := 0
	for e := range merge[error](a, b) {
		if e != nil {
			n++
		}
	}
	return fmt.Sprint(len(s.xs), r, n)
}

func syncMap() string {
	var m sync.Map
	var wg sync.WaitGroup
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			m.LoadOrStore(i%2, i%2*10)
			m.Store(i+10, i)
		}(i)
	}
	wg.Wait()
	v, loaded := m.LoadAndDelete(10)
	sum := 0
	m.Range(func(k, v any) bool { sum += k.(int) + v.(int); return true })
	_, ok := m.Load(99)
	p, l2 := m.Swap(11, 50)
	return fmt.Sprint(v, loaded, sum, ok, p, l2, m.CompareAndSwap(11, 50, 51), m.CompareAndSwap(11, 50, 52))
}

func pool() string {
	p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	var wg sync.WaitGroup
	res := make([]string, 4)
	for i := range res {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			b := p.Get().(*bytes.Buffer)
			b.Reset()
			fmt.Fprint(b, "n", i)
			time.Sleep(time.Millisecond)
			res[i] = b.String()
			p.Put(b)
		}(i)
	}
	wg.Wait()
	return fmt.Sprint(res)
}

func atomics() string {
	var n atomic.Int64
	var u uint32
	var v atomic.Value
	var p atomic.Pointer[counter]
	p.Store(&counter{n: 1})
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			n.Add(2)
			atomic.AddUint32(&u, 1)
			for {
				o := p.Load()
				if p.CompareAndSwap(o, &counter{n: o.n + 1}) {
					break
				}
			}
		}()
	}
	wg.Wait()
	v.Store("s")
	return fmt.Sprint(n.Load(), u, v.Load(), p.Load().n)
}

func listen() net.Listener {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	return l
}

func tcpEcho() string {
	l := listen()
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				r := bufio.NewReader(c)
				for {
					line, err := r.ReadString('\n')
					if err != nil {
						return
					}
					fmt.Fprint(c, "echo ", line)
				}
			}()
		}
	}()
	var wg sync.WaitGroup
	res := make([]string, 3)
	for i := range res {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			c, err := net.Dial("tcp", l.Addr().String())
			if err != nil {
				res[i] = err.Error()
				return
			}
			defer c.Close()
			r := bufio.NewReader(c)
			for k := 0; k < 3; k++ {
				fmt.Fprintf(c, "%d-%d\n", i, k)
				s, err := r.ReadString('\n')
				if err != nil {
					res[i] += err.Error()
				}
				res[i] += s
			}
		}(i)
	}
	wg.Wait()
	return fmt.Sprint(res)
}

func tcpPair() (net.Conn, net.Conn) {
	l := listen()
	defer l.Close()
	got := make(chan net.Conn)
	go func() {
		c, err := l.Accept()
		if err != nil {
			panic(err)
		}
		got <- c
	}()
	c, err := net.DialTimeout("tcp", l.Addr().String(), time.Second*5)
	if err != nil {
		panic(err)
	}
	return c, <-got
}

func kind(err error) string {
	var ne net.Error
	var oe *net.OpError
	return fmt.Sprint(err == io.EOF, errors.Is(err, net.ErrClosed), errors.As(err, &ne) && ne.Timeout(), errors.As(err, &oe))
}

func tcpClose() string {
	a, b := tcpPair()
	out := make(chan string, 2)
	go func() {
		buf := make([]byte, 10)
		_, err := a.Read(buf)
		out <- kind(err)
	}()
	time.Sleep(time.Millisecond)
	a.Close()
	s := <-out
	buf := make([]byte, 10)
	n, err := b.Read(buf)
	_, err2 := a.Write([]byte("x"))
	err3 := a.Close()
	b.Close()
	return fmt.Sprint(s, n, kind(err), kind(err2), kind(err3))
}

func tcpDeadline() string {
	a, b := tcpPair()
	defer a.Close()
	defer b.Close()
	a.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
	buf := make([]byte, 3)
	_, err := a.Read(buf)
	a.SetReadDeadline(time.Time{})
	b.Write([]byte("abc"))
	n, err2 := io.ReadFull(a, buf)
	// an expired deadline set from elsewhere wakes a reader
	out := make(chan string)
	go func() {
		_, err := a.Read(buf)
		out <- kind(err)
	}()
	time.Sleep(time.Millisecond)
	a.SetDeadline(time.Unix(1, 0))
	return fmt.Sprint(kind(err), n, err2, string(buf), <-out)
}

func netPipe() string {
	a, b := net.Pipe()
	go func() {
		fmt.Fprint(a, "hello")
		a.Close()
	}()
	s, err := io.ReadAll(b)
	_, err2 := b.Write([]byte("x"))
	return fmt.Sprint(string(s), err, err2 != nil)
}

func tcpHalf() string {
	a, b := tcpPair()
	go func() {
		a.Write([]byte("one two"))
		a.(interface{ CloseWrite() error }).CloseWrite()
	}()
	s, err := io.ReadAll(b)
	b.Write([]byte("back"))
	b.Close()
	t, err2 := io.ReadAll(a)
	a.Close()
	return fmt.Sprint(string(s), err, string(t), err2)
}

func tcpBuffers() string {
	a, b := tcpPair()
	go func() {
		bufs := net.Buffers{[]byte("ab"), []byte("cd"), []byte("ef")}
		bufs.WriteTo(a)
		w := bufio.NewWriterSize(a, 16)
		for i := 0; i < 3000; i++ {
			w.WriteString("0123456789")
		}
		w.Flush()
		a.Close()
	}()
	s, err := io.ReadAll(b)
	b.Close()
	return fmt.Sprint(len(s), string(s[:8]), err)
}

func listenerClose() string {
	l := listen()
	out := make(chan string)
	go func() {
		_, err := l.Accept()
		out <- kind(err)
	}()
	time.Sleep(time.Millisecond)
	l.Close()
	s := <-out
	_, err := l.Accept()
	return s + kind(err)
}

func nilChan() string {
	var c chan int
	in := make(chan int, 1)
	in <- 4
	var out chan int
	n := 0
	for i := 0; i < 3; i++ {
		select {
		case v := <-in:
			n += v
			out = make(chan int, 1)
		case out <- 1:
			n += 10
			out = nil
		case <-c:
			n += 1000
		case <-time.After(2 * time.Millisecond):
			n += 100
		}
	}
	return fmt.Sprint(n)
}

type req struct {
	v    int
	resp chan int
}

func chanOfChan() string {
	reqs := make(chan req)
	go func() {
		for r := range reqs {
			r.resp <- r.v * 2
		}
	}()
	s := 0
	for i := 0; i < 4; i++ {
		r := req{i, make(chan int)}
		reqs <- r
		s += <-r.resp
	}
	close(reqs)
	return fmt.Sprint(s)
}

type locked struct {
	sync.Mutex
	*sync.Cond
	m map[string]int
}

func embedded() string {
	l := &locked{m: map[string]int{}}
	l.Cond = sync.NewCond(&l.Mutex)
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			l.Lock()
			defer l.Unlock()
			l.m["a"]++
			if l.m["a"] == 3 {
				l.Broadcast()
			}
			for l.m["a"] < 3 {
				l.Wait()
			}
		}()
	}
	wg.Wait()
	return fmt.Sprint(l.m["a"])
}

func variadic(out chan<- int, xs ...int) {
	s := 0
	for _, x := range xs {
		s += x
	}
	out <- s
}

func goArgs() string {
	out := make(chan int, 10)
	x := 1
	go variadic(out, x, 2, x+2)
	x = 100
	xs := []int{5, 6}
	go variadic(out, xs...)
	xs = nil
	go func(a, b int) { out <- a * b }(2, 3)
	f := func(e error) { out <- len(e.Error()) }
	go f(io.EOF)
	f = nil
	go (&sender{out}).send(9)
	s := 0
	for i := 0; i < 5; i++ {
		s += <-out
	}
	return fmt.Sprint(s)
}

type sender struct{ c chan int }

func (s *sender) send(v int) { s.c <- v }

func methodValues() string {
	s := &sender{make(chan int, 4)}
	f := s.send
	g := (*sender).send
	f(1)
	g(s, 2)
	var wg sync.WaitGroup
	done := wg.Done
	wg.Add(1)
	time.AfterFunc(time.Millisecond, done)
	wg.Wait()
	return fmt.Sprint(<-s.c, <-s.c)
}

func tryLock() string {
	var m sync.Mutex
	a := m.TryLock()
	b := m.TryLock()
	m.Unlock()
	var r sync.RWMutex
	c := r.TryRLock()
	d := r.TryRLock()
	e := r.TryLock()
	r.RUnlock()
	r.RUnlock()
	return fmt.Sprint(a, b, c, d, e, r.TryLock(), r.TryRLock())
}

func fanInOrder() string {
	n := 5
	chans := make([]chan int, n)
	for i := range chans {
		chans[i] = make(chan int, 1)
		go func(i int, c chan<- int) {
			time.Sleep(time.Duration(n-i) * time.Millisecond)
			c <- i
		}(i, chans[i])
	}
	var out []int
	for _, c := range chans {
		out = append(out, <-c)
	}
	return fmt.Sprint(out)
}

func barrier() string {
	var mu sync.Mutex
	c := sync.NewCond(&mu)
	n, phase := 0, 0
	bad := false
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for p := 0; p < 3; p++ {
				mu.Lock()
				if phase != p {
					bad = true
				}
				n++
				if n == 3 {
					n = 0
					phase++
					c.Broadcast()
				} else {
					for phase == p {
						c.Wait()
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return fmt.Sprint(phase, bad)
}

func rlocker() string {
	var m sync.RWMutex
	var l sync.Locker = m.RLocker()
	l.Lock()
	ok := m.TryRLock()
	l.Unlock()
	m.RUnlock()
	return fmt.Sprint(ok, m.TryLock())
}

func mutexHandoff() string {
	var mu sync.Mutex
	n := 0
	stop := false
	done := make(chan bool)
	go func() {
		for i := 0; i < 5; i++ {
			mu.Lock()
			n++
			mu.Unlock()
			time.Sleep(time.Microsecond)
		}
		mu.Lock()
		stop = true
		mu.Unlock()
		done <- true
	}()
	for {
		mu.Lock()
		s := stop
		mu.Unlock()
		if s {
			break
		}
	}
	<-done
	return fmt.Sprint(n)
}

func dialRefused() string {
	l := listen()
	addr := l.Addr().String()
	l.Close()
	_, err := net.Dial("tcp", addr)
	var oe *net.OpError
	return fmt.Sprint(err != nil, errors.As(err, &oe), oe != nil && oe.Op == "dial")
}

func dialTimeout() string {
	l := listen()
	defer l.Close()
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	var d net.Dialer
	_, err := d.DialContext(ctx, "tcp", l.Addr().String())
	d.Timeout = 5 * time.Second
	c, err2 := d.Dial("tcp", l.Addr().String())
	if c != nil {
		c.Close()
	}
	return fmt.Sprint(err != nil, err2)
}

type flight struct {
	wg  sync.WaitGroup
	val string
}

func singleflight() string {
	var mu sync.Mutex
	calls := map[string]*flight{}
	n := int32(0)
	do := func(k string) string {
		mu.Lock()
		if f, ok := calls[k]; ok {
			mu.Unlock()
			f.wg.Wait()
			return f.val
		}
		f := new(flight)
		f.wg.Add(1)
		calls[k] = f
		mu.Unlock()
		atomic.AddInt32(&n, 1)
		time.Sleep(time.Millisecond)
		f.val = "v" + k
		f.wg.Done()
		return f.val
	}
	var wg sync.WaitGroup
	res := make([]string, 6)
	for i := range res {
		wg.Add(1)
		go func(i int) { defer wg.Done(); res[i] = do(fmt.Sprint(i % 2)) }(i)
	}
	wg.Wait()
	return fmt.Sprint(res, n)
}

func ioCopy() string {
	a, b := tcpPair()
	c, d := tcpPair()
	go func() { io.Copy(c, b); c.Close() }()
	go func() {
		io.Copy(a, strings.NewReader(strings.Repeat("z", 5000)))
		a.Close()
	}()
	var buf bytes.Buffer
	n, err := io.Copy(&buf, d)
	lr := io.LimitReader(&buf, 10)
	s, _ := io.ReadAll(lr)
	return fmt.Sprint(n, err, string(s))
}

func gotoLoop() string {
	i := 0
again:
	i++
	if i < 5 {
		goto again
	}
	return fmt.Sprint(i)
}

type sig chan struct{}
type ro <-chan int

func chanTypes() string {
	s := make(sig)
	go func() { s <- struct{}{} }()
	<-s
	c := make(chan int, 1)
	c <- 1
	var r ro = c
	v := <-r
	e := make(chan error, 1)
	e <- nil
	err := <-e
	var w chan<- int = c
	w <- 3
	i := make(chan interface{}, 2)
	i <- nil
	i <- 5
	x := <-i
	f := make(chan func() int, 1)
	f <- func() int { return 8 }
	var se chan<- shape = make(chan shape, 1)
	se <- sq{1}
	select {
	case se <- &rc{1, 1}:
	case i <- "str":
	}
	select {
	case y, ok := <-i:
		_, _ = y, ok
	default:
	}
	type pt struct{ a, b int }
	pc := make(chan pt, 1)
	pc <- pt{1, 2}
	arr := [2]int{}
	arr[0] = <-r
	var ok bool
	m := map[string]pt{}
	select {
	case m["k"], ok = <-pc:
	}
	return fmt.Sprint(v, err, x, (<-f)(), arr, m, ok)
}

func timeoutSelect() string {
	c := make(chan int)
	res := ""
	for i := 0; i < 2; i++ {
		go func() {
			time.Sleep(20 * time.Millisecond)
			select {
			case c <- 1:
			case <-time.After(time.Second):
			}
		}()
	}
	t := time.NewTimer(2 * time.Millisecond)
	defer t.Stop()
	for i := 0; i < 3; i++ {
		select {
		case v := <-c:
			res += fmt.Sprint(v)
		case <-t.C:
			res += "t"
		}
	}
	return res
}

func two() (int, error) { return 2, io.EOF }

func multiAssign() string {
	a, b := 1, 2
	f := func() { a, b = b, a+b }
	f()
	f()
	var e error
	g := func() { a, e = two() }
	g()
	x, y := any(a).(int), any(b)
	_, ok := y.(string)
	xs := []int{1, 2, 3}
	i := 0
	h := func() { i, xs[i] = 2, 9 }
	h()
	j := 0
	p := &xs[j]
	k := func() { j++; *p += j; xs[j]++; xs[j] = xs[j] * 2 }
	k()
	next := func() int { j++; return j }
	arr := make([]int, 5)
	l := func() { arr[next()]++; arr[next()] += 5 }
	l()
	return fmt.Sprint(a, b, e, x, ok, xs, i, arr, j)
}

func ioPipe() string {
	r, w := io.Pipe()
	go func() {
		fmt.Fprint(w, "one ")
		fmt.Fprint(w, "two")
		w.CloseWithError(errors.New("end"))
	}()
	b, err := io.ReadAll(r)
	_, err2 := w.Write([]byte("x"))
	return fmt.Sprint(string(b), err, err2)
}

func clockReadings() string {
	a := time.Now()
	time.Sleep(time.Millisecond)
	b := time.Now()
	c, x := a.Add(time.Hour), a.Round(0)
	return fmt.Sprint(b.After(a), b.Sub(a) >= time.Millisecond, a.Equal(x), strings.Contains(a.String(), "m=+"), strings.Contains(x.String(), "m="),
		c.Sub(a), time.Until(c) > 59*time.Minute, a.Unix() == x.Unix(), a.Nanosecond() == x.Nanosecond(), a.Year() >= 2023,
		time.Unix(a.Unix(), 0).Sub(a) <= 0, a.UTC().Sub(a), x.Add(time.Second).Sub(a), a.Truncate(time.Second).Nanosecond(), a.IsZero())
}
