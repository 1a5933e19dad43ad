package node

import (
	"fmt"
	"strings"

	"verif.local/dst/rt"
	"verif.local/dst/xnet"
	"verif.local/dst/xtime"
)

// Action is what happens to one request.
type Action struct {
	Kind int
	D    rt.Duration
	N    int
}

const (
	ANone       = iota
	AErr        // refused with an error answer, no effect
	AStall      // executed late
	AStallAfter // executed, answered late
	AFinBefore  // connection closed instead of executing
	AFinAfter   // executed, connection closed instead of answering
	ARstBefore
	ARstAfter
	ATruncFin // executed, answer cut off after N bytes, then FIN
	ATruncRst
	ATruncHang   // executed, answer cut off, then silence
	AHangBefore  // never executed, never answered
	AHangAfter   // executed, never answered
	ACrashBefore // the process dies
	ACrashAfter
	AMute     // executed, answered, then the connection is never read again
	ADribble  // executed, answered in pieces of N bytes, one every D
	ASlowRead // executed, answered; from now on N bytes are read every D
	AMangle   // executed, answered with something that is no answer to it
	AFlood    // executed, answered with an endless stream
	NumActions
)

var ActionNames = []string{"none", "error_reply", "stall_before_exec", "stall_after_exec", "fin_before_exec", "fin_after_exec",
	"rst_before_exec", "rst_after_exec", "truncated_reply_fin", "truncated_reply_rst", "truncated_reply_hang",
	"hang_before_exec", "hang_after_exec", "process_crash_before_exec", "process_crash_after_exec", "stops_reading",
	"dribbled_reply", "slow_reading", "mangled_reply", "endless_reply"}

// Exec records one request a server dealt with.
type Exec struct {
	Seq      uint64 // position in the global order, at execution (or refusal)
	At       rt.Duration
	Node     *Node
	Conn     *Conn
	Proto    string
	Op       string
	Key      string
	Keys     []string
	Outcome  string
	Hits     []string
	Num      uint64
	Bad      bool
	Executed bool // false if the request was refused or dropped
	Action   int
	Replied  uint64 // seq at which a complete reply was handed to the network, 0 if never
	ErrCode  int
	// state of Key around the execution
	Pre, Post *Entry
	PreTTL    int64
}

func (x *Exec) HasKey(k string) bool {
	if x.Key == k {
		return true
	}
	for _, y := range x.Keys {
		if y == k {
			return true
		}
	}
	return false
}

func (x *Exec) String() string {
	return fmt.Sprintf("%s conn%d %s %q -> %s", x.Node.Name, x.Conn.End.ID, x.Op, x.Keys, x.Outcome)
}

// Wipe is a loss of all data.
type Wipe struct {
	Seq uint64
	At  rt.Duration
}

// Conn is one client connection at a node.
type Conn struct {
	N      *Node
	End    *xnet.TCPConn
	Sess   *Session
	busy   bool
	muted  bool
	Proc   *rt.Proc // process of the peer
	gotEOF bool
	queue  []*Req
	slowN  int // bytes taken per slowD, 0 for all
	slowD  rt.Duration
	slowC  int
	slowT  bool
}

// Node is a simulated memcached server process.
type Node struct {
	W       *rt.World
	Net     *xnet.Net
	Name    string
	Host    string
	Port    int
	Version string
	MaxItem int
	Ver     *uint64

	Store   *Store
	crashed bool
	Up      bool
	l       *xnet.TCPListener
	Conns   []*Conn
	Log     []*Exec
	Wipes   []Wipe

	// Decide chooses the fate of a request.
	Decide func(c *Conn, r *Req) Action
	OnExec func(*Exec)
	frozen bool
	// Greet chooses what is sent on a new connection, and whether it is closed
	// at once.
	Greet   func(c *Conn) (text string, end bool)
	Garble  string // what something else in the server's place answers to any request
	Mangled int    // bytes of mangled replies
	// Accepts counts connections ever accepted.
	Accepts int
}

// New starts a node.
func New(w *rt.World, n *xnet.Net, name, host string, port int, ver *uint64) *Node {
	nd := &Node{W: w, Net: n, Name: name, Host: host, Port: port, Ver: ver, MaxItem: maxItem,
		Version: "1.6." + strings.TrimLeft(name, "abcdefghijklmnopqrstuvwxyz-.")}
	n.Host(host)
	nd.Start()
	return nd
}

func (n *Node) Clock() int64 { return xtime.Epoch.Unix() + n.W.Now()/rt.Second }

// Start runs the process with an empty store.
func (n *Node) Start() {
	if n.Up {
		return
	}
	n.Up, n.crashed = true, false
	n.frozen = false
	old := n.Store
	n.Store = NewStore(n.Clock, n.Ver)
	n.Store.MaxItem = n.MaxItem
	n.Store.Version = n.Version
	// a new process continues with other version tokens
	if old != nil {
		n.Store.cas = (old.cas/1_000_000 + 1) * 1_000_000
	}
	n.l = n.Net.ListenHost(n.Host, n.Port, n.accept)
	n.W.Logf("%s started", n.Name)
}

// Crash kills the process; its memory is lost and its connections are reset.
func (n *Node) Crash(fin bool) {
	if !n.Up {
		return
	}
	n.Up, n.crashed = false, true
	n.W.Logf("%s crashes", n.Name)
	n.l.CloseNow()
	for _, c := range n.Conns {
		if fin {
			c.End.CloseNow()
		} else {
			c.End.Abort()
		}
	}
	n.lost()
}

func (n *Node) lost() {
	n.Conns = nil
	n.Wipes = append(n.Wipes, Wipe{n.W.Seq(), n.W.Now()})
	n.Store.M = map[string]*Entry{}
}

// PowerFail makes the whole host vanish without a packet.
func (n *Node) PowerFail() {
	if !n.Up {
		return
	}
	n.Up = false
	n.Net.CrashHost(n.Host)
	n.lost()
}

// Restart brings the process (and host) back. A process that crashed may come
// back elsewhere, like a container does: same name, other address.
func (n *Node) Restart() {
	n.Net.BootHost(n.Host)
	if n.crashed && n.W.Plan.N(4) == 3 {
		n.Net.Move(n.Host)
		n.W.Count("fault.address_change")
		n.W.Logf("%s moves to another address", n.Host)
	}
	n.Start()
}

// Freeze stops the process without ending it (SIGSTOP, swapping).
func (n *Node) Freeze() { n.frozen = true; n.W.Logf("%s freezes", n.Name) }
func (n *Node) Thaw() {
	n.frozen = false
	n.W.Logf("%s thaws", n.Name)
	for _, c := range append([]*Conn(nil), n.Conns...) {
		c.pump()
	}
}

func (n *Node) accept(e *xnet.TCPConn) {
	c := &Conn{N: n, End: e, Sess: &Session{S: n.Store}, Proc: e.Peer().Owner}
	n.Accepts++
	n.Conns = append(n.Conns, c)
	e.OnData = c.pump
	e.OnEOF = c.pump
	e.OnDrain = c.pump
	e.OnReset = func() { c.drop() }
	if n.Greet != nil {
		if s, end := n.Greet(c); s != "" {
			n.W.Count("fault.greeting")
			n.W.Logf("%s conn %d: greeting %q", n.Name, e.ID, s)
			e.Send([]byte(s))
			if end {
				c.CloseConn(false)
			}
		}
	}
}

func cut(b []byte) []byte { return b[:min(len(b), 120)] }

func (c *Conn) drop() {
	for i, x := range c.N.Conns {
		if x == c {
			c.N.Conns = append(c.N.Conns[:i], c.N.Conns[i+1:]...)
			return
		}
	}
}

func (c *Conn) live() bool { return c.N.Up && c.End.Alive() }

// CloseConn closes the connection from the server side.
func (c *Conn) CloseConn(rst bool) {
	if rst {
		c.End.Abort()
	} else {
		c.End.CloseNow()
	}
	c.drop()
}

// Quiet ends whatever fault the connection suffers from.
func (c *Conn) Quiet() { c.slowN = 0 }

func (c *Conn) pump() {
	for {
		if c.busy || c.muted || !c.live() || c.N.frozen || c.End.Full() {
			return
		}
		if c.End.Pending() > 0 {
			if c.slowN > 0 {
				if c.slowT {
					return
				}
				c.Sess.Feed(c.End.TakeN(c.slowN))
				if c.slowC++; c.slowC%100 == 0 {
					c.slowN *= 2 // large values must get through, too
				}
				c.slowT = true
				c.N.W.At(c.slowD, func() { c.slowT = false; c.pump() })
			} else {
				c.Sess.Feed(c.End.Take())
			}
		}
		if c.Sess.S != c.N.Store {
			c.Sess.S = c.N.Store
		}
		r := c.Sess.Next()
		if r == nil {
			if c.Sess.Closed || c.End.EOF() && c.End.Pending() == 0 {
				c.CloseConn(false)
			}
			return
		}
		c.handle(r)
	}
}

func (n *Node) record(c *Conn, r *Req, kind int) *Exec {
	x := &Exec{Seq: n.W.Seq(), At: n.W.Now(), Node: n, Conn: c, Proto: r.Proto, Op: r.Op, Key: r.Key, Keys: r.Keys, Bad: r.Bad, Action: kind}
	if len(x.Keys) == 0 && x.Key != "" {
		x.Keys = []string{x.Key}
	}
	n.Log = append(n.Log, x)
	return x
}

func clone(e *Entry) *Entry {
	if e == nil {
		return nil
	}
	d := *e
	d.Val = append([]byte(nil), e.Val...)
	return &d
}

func (c *Conn) exec(r *Req, kind int) (*Exec, []byte) {
	n := c.N
	x := n.record(c, r, kind)
	pre := n.Store.Peek(r.Key)
	if pre != nil {
		x.PreTTL = n.Store.TTL(pre)
	}
	x.Pre = clone(pre)
	b := r.Execute()
	x.Post = clone(n.Store.Peek(r.Key))
	x.Executed = true
	x.Outcome, x.Hits, x.Num = r.Outcome, r.Hits, r.Num
	n.W.Note(r.Op, uint64(c.End.ID))
	n.W.NoteSig(r.Op+r.Outcome, uint64(len(n.Conns)))
	n.W.Logf("%s conn %d executes %s %q: %s (%d reply bytes)", n.Name, c.End.ID, r.Op, x.Keys, r.Outcome, len(b))
	if n.OnExec != nil {
		n.OnExec(x)
	}
	return x, b
}

func (c *Conn) send(x *Exec, b []byte) {
	if len(b) > 0 {
		c.End.Send(b)
	}
	x.Replied = c.N.W.Seq()
}

// dribble answers in small pieces.
func (c *Conn) dribble(x *Exec, b []byte, n int, d rt.Duration) {
	c.busy = true
	if !c.live() {
		return
	}
	if len(b) <= n {
		c.busy = false
		c.send(x, b)
		c.pump()
		return
	}
	if !c.N.frozen {
		c.End.Send(b[:n])
		b = b[n:]
	}
	c.N.W.At(d, func() { c.dribble(x, b, n, d) })
}

func (c *Conn) handle(r *Req) {
	n := c.N
	a := Action{}
	if n.Decide != nil && !r.quit {
		a = n.Decide(c, r)
	}
	if a.Kind != ANone {
		n.W.Count("fault." + ActionNames[a.Kind])
		n.W.Logf("%s conn %d: fault %s on %s %q", n.Name, c.End.ID, ActionNames[a.Kind], r.Op, r.Key)
	}
	refuse := func() {
		x := n.record(c, r, a.Kind)
		x.Outcome = "dropped"
	}
	if n.Garble != "" {
		refuse()
		c.End.Send([]byte(n.Garble))
		return
	}
	trunc := func() bool {
		x, b := c.exec(r, a.Kind)
		if len(b) == 0 {
			x.Replied = n.W.Seq()
			return false
		}
		c.End.Send(b[:a.N%len(b)])
		return true
	}
	switch a.Kind {
	case AErr:
		x := n.record(c, r, a.Kind)
		x.Outcome = "error"
		x.ErrCode = a.N
		c.send(x, r.ErrorReply(a.N))
		if n.OnExec != nil {
			n.OnExec(x)
		}
	case AStall:
		c.busy = true
		n.W.At(a.D, func() {
			c.busy = false
			if !n.Up || n.Store != c.Sess.S {
				return
			}
			// the request was received; it executes even if the client has gone
			x, b := c.exec(r, a.Kind)
			c.send(x, b)
			c.pump()
		})
	case AStallAfter:
		x, b := c.exec(r, a.Kind)
		c.busy = true
		n.W.At(a.D, func() {
			c.busy = false
			if c.live() {
				c.send(x, b)
				c.pump()
			}
		})
	case AFinBefore, ARstBefore:
		refuse()
		c.CloseConn(a.Kind == ARstBefore)
	case AFinAfter, ARstAfter:
		c.exec(r, a.Kind)
		c.CloseConn(a.Kind == ARstAfter)
	case ATruncFin, ATruncRst:
		if trunc() {
			if a.Kind == ATruncFin {
				c.CloseConn(false)
			} else {
				// let the bytes arrive first
				c.busy = true
				n.W.At(50*rt.Millisecond, func() { c.CloseConn(true) })
			}
		}
	case ATruncHang:
		if trunc() {
			c.muted = true
		}
	case AMangle:
		x, b := c.exec(r, a.Kind)
		if len(b) == 0 {
			x.Replied = n.W.Seq()
			break
		}
		m := Mangle(r, b, uint64(a.N))
		n.W.Logf("%s conn %d: instead of %q sends %q", n.Name, c.End.ID, cut(b), cut(m))
		n.Mangled += len(m)
		c.End.Send(m)
		switch a.N % 4 {
		case 0:
			c.muted = true
		case 1:
			c.CloseConn(false)
		}
	case AFlood:
		c.exec(r, a.Kind)
		c.muted = true
		d := dice(a.N)
		c.flood(floodChunk(r, &d), 200, []rt.Duration{5 * rt.Millisecond, 20 * rt.Millisecond, 100 * rt.Millisecond}[a.N%3])
	case AHangBefore:
		refuse()
		c.muted = true
	case AHangAfter:
		c.exec(r, a.Kind)
		c.muted = true
	case AMute:
		x, b := c.exec(r, a.Kind)
		c.send(x, b)
		c.muted = true
	case ADribble:
		x, b := c.exec(r, a.Kind)
		c.dribble(x, b, max(a.N%16+1, len(b)/200), a.D)
	case ASlowRead:
		x, b := c.exec(r, a.Kind)
		c.send(x, b)
		c.slowN, c.slowD = 64+a.N%64, a.D
	case ACrashBefore:
		refuse()
		n.Crash(a.N%2 == 1)
	case ACrashAfter:
		c.exec(r, a.Kind)
		n.Crash(a.N%2 == 1)
	default:
		x, b := c.exec(r, a.Kind)
		c.send(x, b)
		if r.quit {
			c.CloseConn(false)
		}
	}
}
