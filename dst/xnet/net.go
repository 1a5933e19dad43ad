// Package xnet is a simulated TCP network. The identifiers that mirror package
// net are used by the rewritten code under test; everything else is for the
// harness (hosts, partitions, crashes, accounting).
package xnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"syscall"
	"time"

	"verif.local/dst/rt"
	"verif.local/dst/xtime"
)

// Config is the behaviour of the network in one run.
type Config struct {
	MinLat, MaxLat rt.Duration
	SegProb        int // per mille: a write is cut into several segments
	ShortRead      int // per mille: a read returns fewer bytes than available
	BufCap         int // bytes buffered per direction before a writer blocks
	LossyDial      int // per mille: first SYN lost (1 s retransmit)
}

type Host struct {
	Name string
	ip   net.IP
	Up   bool
	// Backlog behaviour of new connections while up.
	downSince rt.Duration
}

type Net struct {
	w         *rt.World
	Cfg       Config
	hosts     map[string]*Host
	ips       int
	listeners map[string]*TCPListener
	block     map[[2]string]rt.Duration // direction -> since
	Ends      []*TCPConn
	nextPort  int
	procSeen  map[*rt.Proc]bool
	connSeq   int
	// DialHook, if set, may fail a dial (nil: proceed).
	DialHook func(from, to string) error
	DialLog  []DialRec
}

type DialRec struct {
	At       rt.Duration
	From, To string
	Owner    *rt.Proc
	Err      error
}

func New(w *rt.World) *Net {
	n := &Net{w: w, hosts: map[string]*Host{}, listeners: map[string]*TCPListener{},
		block: map[[2]string]rt.Duration{}, nextPort: 40000, procSeen: map[*rt.Proc]bool{}}
	n.Cfg = Config{MinLat: 50 * rt.Microsecond, MaxLat: 300 * rt.Microsecond, BufCap: 1 << 18}
	w.NetState = n
	return n
}

func cur() *Net {
	if rt.W == nil {
		return nil
	}
	n, _ := rt.W.NetState.(*Net)
	return n
}

func (n *Net) Host(name string) *Host {
	h := n.hosts[name]
	if h == nil {
		h = &Host{Name: name, Up: true}
		n.hosts[name] = h
		n.Move(name)
	}
	return h
}

// Move gives a host another address. Its name leads to the new one from now
// on, there is nothing at the old one. It has no connections.
func (n *Net) Move(name string) {
	n.ips++
	n.hosts[name].ip = net.IPv4(10, 0, byte(n.ips>>8), byte(n.ips))
}

func (n *Net) lat() rt.Duration {
	d := n.Cfg.MaxLat - n.Cfg.MinLat
	if d <= 0 {
		return n.Cfg.MinLat
	}
	return n.Cfg.MinLat + d*rt.Duration(n.w.Net.N(8))/7
}

func (n *Net) blocked(a, b string) bool {
	_, ok := n.block[[2]string{a, b}]
	return ok
}

// ---- partitions and crashes

// Block drops everything from host a to host b until Heal.
func (n *Net) Block(a, b string) {
	k := [2]string{a, b}
	if _, ok := n.block[k]; ok {
		return
	}
	n.block[k] = n.w.Now()
	n.w.Logf("network %s->%s blocked", a, b)
	for _, c := range n.Ends {
		if (c.host.Name == a && c.peer.host.Name == b || c.host.Name == b && c.peer.host.Name == a) && c.alive() {
			c.armKeepalive()
		}
	}
}

func (n *Net) BlockBoth(a, b string) { n.Block(a, b); n.Block(b, a) }

func (n *Net) Heal(a, b string) {
	k := [2]string{a, b}
	since, ok := n.block[k]
	if !ok {
		return
	}
	delete(n.block, k)
	n.w.Logf("network %s->%s healed", a, b)
	for _, c := range n.Ends {
		if c.host.Name == a && c.peer.host.Name == b {
			c.retransmit(n.w.Now() - since)
		}
		if c.host.Name == b && c.peer.host.Name == a && c.alive() && (c.peer.lostRst || c.peer.rErr != nil) {
			// the next keepalive probe learns what the lost RST said
			p := c
			n.w.At(rt.Duration(n.w.Net.N(16))*rt.Second, func() {
				if p.alive() && !n.blocked(a, b) && !n.blocked(b, a) {
					p.reset("keepalive answered with RST")
				}
			})
		}
	}
}

func (n *Net) HealBoth(a, b string) { n.Heal(a, b); n.Heal(b, a) }

// CrashHost is a power failure: nothing on the host sends anything any more.
func (n *Net) CrashHost(name string) {
	h := n.Host(name)
	if !h.Up {
		return
	}
	h.Up = false
	h.downSince = n.w.Now()
	n.w.Logf("host %s loses power", name)
	for k, l := range n.listeners {
		if l.host == h {
			delete(n.listeners, k)
			l.closed = true
		}
	}
	for _, c := range n.Ends {
		if c.host == h && !c.closed {
			c.vanished = true
			c.closed = true
			c.rbuf = nil
			c.rq.NotifyAll()
			c.wq.NotifyAll()
			if c.peer.alive() {
				c.peer.armKeepalive()
			}
		}
	}
}

// BootHost makes a crashed host reachable again.
func (n *Net) BootHost(name string) {
	h := n.Host(name)
	if h.Up {
		return
	}
	h.Up = true
	n.w.Logf("host %s is up", name)
	for _, c := range n.Ends {
		if c.vanished && c.host == h && c.peer.alive() {
			p := c.peer
			// a retransmission or keepalive probe now meets a host that does
			// not know the connection
			d := rt.Duration(n.w.Net.N(16)) * rt.Second
			if len(p.out) > 0 {
				d = rt.Duration(n.w.Net.N(16)) * min64(n.w.Now()-h.downSince, 120*rt.Second) / 15
			}
			n.w.At(d, func() {
				if p.alive() && !n.blocked(p.host.Name, h.Name) && !n.blocked(h.Name, p.host.Name) {
					p.reset("peer host restarted")
				}
			})
		}
	}
}

func min64(a, b rt.Duration) rt.Duration {
	if a < b {
		return a
	}
	return b
}

// OpenOf lists the connections a process holds open.
func (n *Net) OpenOf(p *rt.Proc) []*TCPConn {
	var out []*TCPConn
	for _, c := range n.Ends {
		if c.Owner == p && !c.closed {
			out = append(out, c)
		}
	}
	return out
}

// ---- connections

type seg struct {
	b   []byte
	fin bool
}

// TCPConn is one end of a simulated connection.
type TCPConn struct {
	n     *Net
	ID    int
	host  *Host
	peer  *TCPConn
	Owner *rt.Proc
	laddr *net.TCPAddr
	raddr *net.TCPAddr
	Tag   string

	rbuf   []byte
	rEOF   bool
	rErr   error
	errOut bool
	rdl    rt.Duration
	wdl    rt.Duration
	rq, wq rt.WaitQ

	// out is what this end has sent that has not arrived yet.
	out      []seg
	lastAt   rt.Duration
	stuck    bool
	stuckT   *rt.Timer
	inflight int // bytes sent and not yet read by the peer
	finSent  bool

	closed   bool // locally closed
	vanished bool
	lostRst  bool
	noKA     bool

	rstOnClose bool // SetLinger(0)

	// event driven ends
	OnData   func()
	OnEOF    func()
	OnReset  func()
	OnDrain  func() // the peer has read something
	OpenedAt rt.Duration
	ClosedAt rt.Duration

	// trip fires once Sent reaches tripAt
	Sent   int
	tripAt int
	trip   func()
}

func (c *TCPConn) alive() bool { return !c.closed && !c.vanished && c.rErr == nil }

// Alive reports whether the end is open and not broken.
func (c *TCPConn) Alive() bool      { return c.alive() }
func (c *TCPConn) IsClosed() bool   { return c.closed }
func (c *TCPConn) Peer() *TCPConn   { return c.peer }
func (c *TCPConn) HostName() string { return c.host.Name }
func (c *TCPConn) EOF() bool        { return c.rEOF }
func (c *TCPConn) Err() error       { return c.rErr }

// Trip calls f as soon as n more bytes have been sent by this end.
func (c *TCPConn) Trip(n int, f func()) { c.tripAt, c.trip = c.Sent+n, f }

func (n *Net) pair(from, to *Host, port int, owner *rt.Proc) (*TCPConn, *TCPConn) {
	n.nextPort++
	n.connSeq++
	a := &TCPConn{n: n, ID: n.connSeq, host: from, Owner: owner, rdl: -1, wdl: -1, OpenedAt: n.w.Now()}
	b := &TCPConn{n: n, ID: n.connSeq, host: to, rdl: -1, wdl: -1, OpenedAt: n.w.Now()}
	a.peer, b.peer = b, a
	a.laddr = &net.TCPAddr{IP: from.ip, Port: n.nextPort}
	a.raddr = &net.TCPAddr{IP: to.ip, Port: port}
	b.laddr, b.raddr = a.raddr, a.laddr
	n.Ends = append(n.Ends, a, b)
	return a, b
}

func (n *Net) own(c *TCPConn, p *rt.Proc) {
	c.Owner = p
	if p != nil && !n.procSeen[p] {
		n.procSeen[p] = true
		p.OnKill = append(p.OnKill, func() {
			for _, l := range n.listeners {
				if l.owner == p {
					l.kill()
				}
			}
			for _, c := range n.Ends {
				if c.Owner == p && !c.closed {
					c.CloseNow()
				}
			}
		})
	}
}

// push puts a segment on the wire.
func (c *TCPConn) push(s seg) {
	n := c.n
	c.out = append(c.out, s)
	at := n.w.Now() + n.lat()
	if at < c.lastAt {
		at = c.lastAt
	}
	c.lastAt = at
	n.w.At(at-n.w.Now(), c.pump)
}

func (c *TCPConn) pump() {
	if c.stuck || len(c.out) == 0 {
		return
	}
	n := c.n
	if n.blocked(c.host.Name, c.peer.host.Name) || c.peer.vanished && !c.peer.host.Up {
		c.stuck = true
		if c.stuckT == nil && !c.closed {
			c.stuckT = n.w.At(924*rt.Second, func() {
				c.stuckT = nil
				if len(c.out) > 0 && c.stuck {
					c.fail(syscall.ETIMEDOUT, "retransmission timeout")
				}
			})
		}
		return
	}
	s := c.out[0]
	c.out = c.out[1:]
	c.arrive(s)
}

// retransmit resumes a direction after an outage of length d.
func (c *TCPConn) retransmit(d rt.Duration) {
	if !c.stuck {
		return
	}
	delay := rt.Duration(c.n.w.Net.N(16)) * min64(d, 120*rt.Second) / 15
	c.n.w.At(delay, func() {
		if !c.stuck || c.n.blocked(c.host.Name, c.peer.host.Name) || c.peer.vanished && !c.peer.host.Up {
			return
		}
		c.stuck = false
		c.n.w.StopTimer(c.stuckT)
		c.stuckT = nil
		for len(c.out) > 0 && !c.stuck {
			c.pump()
		}
	})
}

func (c *TCPConn) arrive(s seg) {
	p := c.peer
	if p.closed || p.vanished || p.rErr != nil {
		if len(s.b) > 0 && !c.closed {
			// answered with RST
			c.n.w.At(c.n.lat(), func() {
				if c.alive() && !c.n.blocked(p.host.Name, c.host.Name) {
					c.reset("data after close")
				}
			})
		}
		return
	}
	if len(s.b) > 0 {
		p.rbuf = append(p.rbuf, s.b...)
		p.rq.NotifyAll()
		if p.OnData != nil {
			p.OnData()
		}
	}
	if s.fin && !p.rEOF {
		p.rEOF = true
		p.rq.NotifyAll()
		if p.OnEOF != nil {
			p.OnEOF()
		}
	}
}

// reset makes the connection fail at this end as if an RST had arrived.
func (c *TCPConn) reset(why string) { c.fail(syscall.ECONNRESET, why) }

func (c *TCPConn) fail(e error, why string) {
	if !c.alive() {
		return
	}
	c.n.w.Logf("conn %d at %s: %v (%s)", c.ID, c.host.Name, e, why)
	c.rErr = e
	c.out = nil
	c.rq.NotifyAll()
	c.wq.NotifyAll()
	if c.OnReset != nil {
		c.OnReset()
	}
}

func (c *TCPConn) armKeepalive() {
	if c.noKA {
		return
	}
	n := c.n
	d := 150*rt.Second + rt.Duration(n.w.Net.N(16))*rt.Second
	start := n.w.Now()
	n.w.At(d, func() {
		if !c.alive() || len(c.out) > 0 {
			return
		}
		a, b := c.host.Name, c.peer.host.Name
		s1, ok1 := n.block[[2]string{a, b}]
		s2, ok2 := n.block[[2]string{b, a}]
		if ok1 && s1 <= start || ok2 && s2 <= start || c.peer.vanished && !c.peer.host.Up {
			c.fail(syscall.ETIMEDOUT, "keepalive")
		}
	})
}

func (c *TCPConn) op(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: err}
}

func expired(dl rt.Duration) bool { return dl >= 0 && rt.W.Now() >= dl }

func (c *TCPConn) Read(b []byte) (int, error) {
	w := c.n.w
	if rt.W == nil || rt.Dying() {
		runtime.Goexit()
	}
	rt.YieldPoint()
	for {
		if c.closed {
			return 0, c.op("read", net.ErrClosed)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if expired(c.rdl) {
			w.Count("net.read_timeout")
			return 0, c.op("read", os.ErrDeadlineExceeded)
		}
		if len(c.rbuf) > 0 {
			k := len(b)
			if k > len(c.rbuf) {
				k = len(c.rbuf)
			}
			if k > 1 && c.n.Cfg.ShortRead > 0 && w.Net.P(c.n.Cfg.ShortRead) {
				k = 1 + w.Net.N(k-1)
				w.Count("fault.short_read")
			}
			copy(b, c.rbuf[:k])
			c.consume(k)
			return k, nil
		}
		if c.rErr != nil {
			e := c.rErr
			c.errOut = true
			return 0, c.op("read", os.NewSyscallError("read", e))
		}
		if c.rEOF {
			return 0, io.EOF
		}
		c.rq.Wait("read from "+c.peer.host.Name, c.rdl)
	}
}

func (c *TCPConn) consume(k int) {
	c.rbuf = c.rbuf[k:]
	p := c.peer
	p.inflight -= k
	p.wq.NotifyAll()
	if p.OnDrain != nil {
		p.OnDrain()
	}
}

func (c *TCPConn) Write(b []byte) (int, error) {
	if rt.W == nil || rt.Dying() {
		runtime.Goexit()
	}
	rt.YieldPoint()
	done := 0
	for {
		if c.closed {
			return done, c.op("write", net.ErrClosed)
		}
		if expired(c.wdl) {
			c.n.w.Count("net.write_timeout")
			return done, c.op("write", os.ErrDeadlineExceeded)
		}
		if c.rErr != nil {
			e := c.rErr
			if c.errOut {
				e = syscall.EPIPE
			}
			c.errOut = true
			return done, c.op("write", os.NewSyscallError("write", e))
		}
		if c.finSent {
			return done, c.op("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if done == len(b) {
			return done, nil
		}
		space := c.n.Cfg.BufCap - c.inflight
		if space <= 0 {
			c.n.w.Count("net.backpressure")
			c.wq.Wait("write to "+c.peer.host.Name, c.wdl)
			continue
		}
		k := len(b) - done
		if k > space {
			k = space
		}
		c.Send(b[done : done+k])
		done += k
	}
}

// Send queues bytes without blocking.
func (c *TCPConn) Send(b []byte) {
	if c.closed || c.rErr != nil || c.finSent {
		return
	}
	b = append([]byte(nil), b...)
	n := c.n
	c.inflight += len(b)
	for len(b) > 0 {
		k := len(b)
		if k > 1 && n.Cfg.SegProb > 0 && n.w.Net.P(n.Cfg.SegProb) {
			n.w.Count("fault.segmentation")
			switch n.w.Net.N(3) {
			case 0:
				k = 1 + n.w.Net.N(k-1)
			case 1:
				m := k - 1
				if m > 40 {
					m = 40
				}
				k = 1 + n.w.Net.N(m)
			case 2:
				m := k - 1
				if m > 4 {
					m = 4
				}
				k -= 1 + n.w.Net.N(m)
			}
		}
		c.Sent += k
		c.push(seg{b: b[:k:k]})
		b = b[k:]
	}
	if c.trip != nil && c.Sent >= c.tripAt {
		f := c.trip
		c.trip = nil
		f()
	}
}

// Take returns everything that has arrived (event driven ends).
func (c *TCPConn) Take() []byte {
	b := c.rbuf
	c.rbuf = nil
	p := c.peer
	p.inflight -= len(b)
	p.wq.NotifyAll()
	if p.OnDrain != nil && len(b) > 0 {
		p.OnDrain()
	}
	return b
}

// TakeN returns at most k bytes of what has arrived.
func (c *TCPConn) TakeN(k int) []byte {
	if k >= len(c.rbuf) {
		return c.Take()
	}
	b := c.rbuf[:k:k]
	c.rbuf = c.rbuf[k:]
	p := c.peer
	p.inflight -= k
	p.wq.NotifyAll()
	if p.OnDrain != nil {
		p.OnDrain()
	}
	return b
}

// Backlog is the number of bytes sent and not yet read by the peer.
func (c *TCPConn) Backlog() int { return c.inflight }

// Full reports whether a blocking writer would have to wait.
func (c *TCPConn) Full() bool { return c.inflight >= c.n.Cfg.BufCap }

// Pending is the number of bytes that arrived and were not read.
func (c *TCPConn) Pending() int { return len(c.rbuf) }

// CloseNow closes this end as close(2) does, without a caller.
func (c *TCPConn) CloseNow() {
	if c.closed {
		return
	}
	c.closed = true
	c.ClosedAt = c.n.w.Now()
	c.n.w.Logf("conn %d closed by %s", c.ID, c.host.Name)
	if c.rErr == nil {
		if len(c.rbuf) > 0 {
			c.rstPeer(false)
		} else if !c.finSent {
			c.finSent = true
			c.push(seg{fin: true})
		}
	}
	c.rbuf = nil
	c.rq.NotifyAll()
	c.wq.NotifyAll()
}

// Abort closes this end with an RST that overtakes nothing already delivered.
func (c *TCPConn) Abort() {
	if c.closed {
		return
	}
	c.closed = true
	c.ClosedAt = c.n.w.Now()
	c.n.w.Logf("conn %d aborted by %s", c.ID, c.host.Name)
	if c.rErr == nil {
		c.rstPeer(true)
	}
	c.rbuf = nil
	c.rq.NotifyAll()
	c.wq.NotifyAll()
}

// rstPeer sends an RST; drop discards data still in flight.
func (c *TCPConn) rstPeer(drop bool) {
	n := c.n
	p := c.peer
	at := n.w.Now() + n.lat()
	if drop {
		c.out = nil
	} else if at < c.lastAt {
		at = c.lastAt
	}
	n.w.At(at-n.w.Now(), func() {
		if !p.alive() {
			return
		}
		if n.blocked(c.host.Name, p.host.Name) {
			c.lostRst = true
			return
		}
		p.reset("RST from " + c.host.Name)
	})
}

func (c *TCPConn) Close() error {
	if rt.W == nil || rt.W != c.n.w {
		return nil
	}
	if rt.W.Cur() != nil && !rt.Dying() {
		rt.YieldPoint()
	}
	if c.closed {
		return c.op("close", net.ErrClosed)
	}
	if c.rstOnClose {
		c.Abort()
	} else {
		c.CloseNow()
	}
	return nil
}

func (c *TCPConn) CloseWrite() error {
	if c.closed {
		return c.op("close", net.ErrClosed)
	}
	if !c.finSent && c.rErr == nil {
		c.finSent = true
		c.push(seg{fin: true})
	}
	return nil
}
func (c *TCPConn) CloseRead() error                       { return nil }
func (c *TCPConn) LocalAddr() net.Addr                    { return c.laddr }
func (c *TCPConn) RemoteAddr() net.Addr                   { return c.raddr }
func (c *TCPConn) SetKeepAlive(on bool) error             { c.noKA = !on; return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetLinger(s int) error                  { c.rstOnClose = s == 0; return nil }
func (c *TCPConn) SetKeepAliveConfig(k net.KeepAliveConfig) error {
	c.noKA = !k.Enable
	return nil
}
func (c *TCPConn) SetReadBuffer(int) error  { return nil }
func (c *TCPConn) SetWriteBuffer(int) error { return nil }

func toDL(t time.Time) rt.Duration {
	if t.IsZero() {
		return -1
	}
	return max(xtime.OnClock(t), 0)
}

func (c *TCPConn) SetDeadline(t time.Time) error {
	if c.closed {
		return c.op("set", net.ErrClosed)
	}
	c.rdl, c.wdl = toDL(t), toDL(t)
	c.rq.NotifyAll()
	c.wq.NotifyAll()
	return nil
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return c.op("set", net.ErrClosed)
	}
	c.rdl = toDL(t)
	c.rq.NotifyAll()
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return c.op("set", net.ErrClosed)
	}
	c.wdl = toDL(t)
	c.wq.NotifyAll()
	return nil
}

// ---- listeners

type TCPListener struct {
	n      *Net
	host   *Host
	port   int
	owner  *rt.Proc
	queue  []*TCPConn
	closed bool
	q      rt.WaitQ
	dl     rt.Duration
	// OnAccept makes the listener event driven.
	OnAccept func(*TCPConn)
	// AcceptErr injects errors into Accept.
	AcceptErr func() error
	Backlog   int
}

func key(h string, p int) string { return h + ":" + strconv.Itoa(p) }

// ListenHost opens an event driven listener for the harness.
func (n *Net) ListenHost(host string, port int, onAccept func(*TCPConn)) *TCPListener {
	l := &TCPListener{n: n, host: n.Host(host), port: port, OnAccept: onAccept, dl: -1}
	n.listeners[key(host, port)] = l
	return l
}

// ListenerAt finds a listener.
func (n *Net) ListenerAt(host string, port int) *TCPListener { return n.listeners[key(host, port)] }

func (l *TCPListener) kill() {
	if l.closed {
		return
	}
	l.closed = true
	if l.n.listeners[key(l.host.Name, l.port)] == l {
		delete(l.n.listeners, key(l.host.Name, l.port))
	}
	for _, c := range l.queue {
		c.Abort()
	}
	l.queue = nil
	l.q.NotifyAll()
}

// CloseNow closes the listener without a caller.
func (l *TCPListener) CloseNow() { l.kill() }

func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	if rt.W == nil || rt.Dying() {
		runtime.Goexit()
	}
	rt.YieldPoint()
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: net.ErrClosed}
		}
		if expired(l.dl) {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: os.ErrDeadlineExceeded}
		}
		if l.AcceptErr != nil {
			if e := l.AcceptErr(); e != nil {
				l.n.w.Logf("accept fails: %v", e)
				l.n.w.Count("fault.accept_error")
				return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: os.NewSyscallError("accept4", e)}
			}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			l.n.own(c, rt.W.Cur().Proc)
			return c, nil
		}
		l.q.Wait("accept", l.dl)
	}
}

func (l *TCPListener) Close() error {
	if rt.W == nil || rt.W != l.n.w {
		return nil
	}
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.Addr(), Err: net.ErrClosed}
	}
	l.kill()
	return nil
}

func (l *TCPListener) Wake()          { l.q.NotifyAll() }
func (l *TCPListener) Addr() net.Addr { return &net.TCPAddr{IP: l.host.ip, Port: l.port} }
func (l *TCPListener) SetDeadline(t time.Time) error {
	l.dl = toDL(t)
	l.q.NotifyAll()
	return nil
}

type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

func (lc *ListenConfig) Listen(_ context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}

func Listen(network, address string) (net.Listener, error) {
	n := cur()
	if n == nil {
		return nil, errors.New("xnet: no simulation")
	}
	_, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	p, err := strconv.Atoi(port)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	pr := rt.W.Cur().Proc
	if p == 0 {
		n.nextPort++
		p = n.nextPort
	}
	k := key(pr.Host, p)
	if l := n.listeners[k]; l != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &TCPListener{n: n, host: n.Host(pr.Host), port: p, owner: pr, dl: -1}
	n.listeners[k] = l
	n.own(&TCPConn{}, pr)
	n.w.Logf("listening on %s", k)
	return l, nil
}

// ---- dialing

type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func Dial(network, address string) (net.Conn, error) {
	var d Dialer
	return d.Dial(network, address)
}
func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	d := Dialer{Timeout: timeout}
	return d.Dial(network, address)
}
func DialTCP(network string, _, raddr *net.TCPAddr) (*TCPConn, error) {
	c, err := Dial(network, raddr.String())
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

// ListenTCP is the same as Listen.
func ListenTCP(network string, laddr *net.TCPAddr) (*TCPListener, error) {
	l, err := Listen(network, laddr.String())
	if err != nil {
		return nil, err
	}
	return l.(*TCPListener), nil
}

func LookupIP(name string) ([]net.IP, error) {
	if n := cur(); n != nil {
		if h, ok := n.resolve(name); ok && h.ip != nil {
			return []net.IP{h.ip}, nil
		}
	}
	if ip := net.ParseIP(name); ip != nil {
		return []net.IP{ip}, nil
	}
	return nil, &net.DNSError{Err: "no such host", Name: name, IsNotFound: true}
}

func LookupHost(name string) ([]string, error) {
	ips, err := LookupIP(name)
	if err != nil {
		return nil, err
	}
	return []string{ips[0].String()}, nil
}

func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	pn, err := strconv.Atoi(port)
	if err != nil {
		return nil, err
	}
	a := &net.TCPAddr{Port: pn}
	if host != "" {
		ips, err := LookupIP(host)
		if err != nil {
			return nil, err
		}
		a.IP = ips[0]
	}
	return a, nil
}

// Resolve maps a host name as seen from the current process.
func (n *Net) resolve(name string) (*Host, bool) {
	switch name {
	case "", "localhost", "127.0.0.1", "::1":
		return n.Host(rt.W.Cur().Proc.Host), true
	}
	h, ok := n.hosts[name]
	if ok {
		return h, true
	}
	if net.ParseIP(name) == nil {
		return nil, false
	}
	for _, k := range n.hostNames() {
		if n.hosts[k].ip.String() == name {
			return n.hosts[k], true
		}
	}
	return &Host{Name: name}, true // nobody answers
}

func (n *Net) hostNames() []string {
	var ks []string
	for k := range n.hosts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	n := cur()
	if n == nil {
		return nil, errors.New("xnet: no simulation")
	}
	if rt.Dying() {
		runtime.Goexit()
	}
	rt.YieldPoint()
	w := n.w
	pr := w.Cur().Proc
	fail := func(to string, err error) (net.Conn, error) {
		w.Logf("dial %s: %v", address, err)
		n.DialLog = append(n.DialLog, DialRec{w.Now(), pr.Host, to, pr, err})
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return fail("", net.UnknownNetworkError(network))
	}
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return fail("", err)
	}
	pn, err := strconv.Atoi(port)
	if err != nil {
		return fail("", err)
	}
	if ctx.Err() != nil {
		return fail(host, mapCtx(ctx.Err()))
	}
	h, ok := n.resolve(host)
	if !ok {
		return fail(host, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true})
	}
	// time limits
	limit := w.Now() + 127*rt.Second
	var limErr error = os.NewSyscallError("connect", syscall.ETIMEDOUT)
	set := func(at rt.Duration, e error) {
		if at < limit {
			limit, limErr = at, e
		}
	}
	if d.Timeout != 0 {
		set(w.Now()+rt.Duration(d.Timeout), os.ErrDeadlineExceeded)
	}
	if !d.Deadline.IsZero() {
		set(toDL(d.Deadline), os.ErrDeadlineExceeded)
	}
	if t, ok := ctx.Deadline(); ok {
		set(toDL(t), os.ErrDeadlineExceeded)
	}
	if n.DialHook != nil {
		if e := n.DialHook(pr.Host, h.Name); e != nil {
			n.sleepOr(ctx, n.lat(), limit)
			return fail(h.Name, os.NewSyscallError("connect", e))
		}
	}
	rto := rt.Second
	for {
		if w.Now() >= limit {
			return fail(h.Name, limErr)
		}
		if ctx.Err() != nil {
			return fail(h.Name, mapCtx(ctx.Err()))
		}
		lost := !h.Up || n.blocked(pr.Host, h.Name) || n.blocked(h.Name, pr.Host) ||
			n.Cfg.LossyDial > 0 && w.Net.P(n.Cfg.LossyDial)
		if lost {
			w.Count("net.syn_lost")
			n.sleepOr(ctx, rto, limit)
			rto *= 2
			continue
		}
		n.sleepOr(ctx, 2*n.lat(), limit)
		if ctx.Err() != nil {
			return fail(h.Name, mapCtx(ctx.Err()))
		}
		if w.Now() >= limit {
			return fail(h.Name, limErr)
		}
		if !h.Up {
			continue
		}
		l := n.listeners[key(h.Name, pn)]
		if l == nil || l.closed {
			w.Count("net.refused")
			return fail(h.Name, os.NewSyscallError("connect", syscall.ECONNREFUSED))
		}
		if l.Backlog > 0 && len(l.queue) >= l.Backlog {
			n.sleepOr(ctx, rto, limit)
			rto *= 2
			continue
		}
		a, b := n.pair(n.Host(pr.Host), h, pn, pr)
		n.own(a, pr)
		if d.KeepAlive < 0 {
			a.noKA = true
		}
		w.Logf("conn %d: %s -> %s:%d", a.ID, pr.Host, h.Name, pn)
		w.Note("dial", uint64(a.ID))
		n.DialLog = append(n.DialLog, DialRec{w.Now(), pr.Host, h.Name, pr, nil})
		if l.OnAccept != nil {
			l.OnAccept(b)
		} else {
			l.queue = append(l.queue, b)
			l.q.NotifyAll()
		}
		return a, nil
	}
}

type timeoutError struct{ s string }

func (e timeoutError) Error() string   { return e.s }
func (e timeoutError) Timeout() bool   { return true }
func (e timeoutError) Temporary() bool { return true }

func mapCtx(err error) error {
	if errors.Is(err, context.DeadlineExceeded) {
		return timeoutError{"i/o timeout"}
	}
	return errors.New("operation was canceled")
}

// sleepOr waits for d, but not beyond limit nor beyond cancellation.
func (n *Net) sleepOr(ctx context.Context, d, limit rt.Duration) {
	until := n.w.Now() + d
	if until > limit {
		until = limit
	}
	if ctx.Done() == nil {
		rt.Sleep(until - n.w.Now())
		return
	}
	t := xtime.NewTimer(time.Duration(until - n.w.Now()))
	rt.Select(false, rt.RecvCase(t.C), rt.RecvCase(ctx.Done()))
	t.Stop()
}

// Connect opens a connection for the harness without blocking; both ends are
// usable at once. The returned end is event driven if callbacks are set.
func (n *Net) Connect(fromHost, toHost string, port int) (*TCPConn, error) {
	h := n.Host(toHost)
	if !h.Up || n.blocked(fromHost, toHost) {
		return nil, syscall.ETIMEDOUT
	}
	l := n.listeners[key(toHost, port)]
	if l == nil || l.closed {
		return nil, syscall.ECONNREFUSED
	}
	a, b := n.pair(n.Host(fromHost), h, port, nil)
	n.w.Logf("conn %d: %s -> %s:%d", a.ID, fromHost, toHost, port)
	n.w.At(n.lat(), func() {
		if l.closed {
			b.Abort()
			return
		}
		if l.OnAccept != nil {
			l.OnAccept(b)
			return
		}
		l.queue = append(l.queue, b)
		l.q.NotifyAll()
	})
	return a, nil
}

func (c *TCPConn) String() string {
	return fmt.Sprintf("conn %d %s->%s", c.ID, c.host.Name, c.peer.host.Name)
}

// Queued is the number of connections that wait to be accepted.
func (l *TCPListener) Queued() int { return len(l.queue) }

// Forget drops the records of connections that are over.
func (n *Net) Forget() {
	over := func(c *TCPConn) bool { return c.closed || c.Owner == nil && !c.alive() }
	var left []*TCPConn
	for _, c := range n.Ends {
		if !over(c) || !over(c.peer) {
			left = append(left, c)
		}
	}
	n.Ends = left
	n.DialLog = nil
}
