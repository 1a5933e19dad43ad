// Package harness runs the real client, cluster, proxy, server and router code
// of go-memcached inside the simulator, generates workloads and fault plans,
// and decides the listed properties on the resulting histories.
package harness

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"go.f110.dev/go-memcached/client"
	merrors "go.f110.dev/go-memcached/errors"

	"verif.local/dst/node"
	"verif.local/dst/rt"
	"verif.local/dst/xnet"
)

const (
	ms  = rt.Millisecond
	sec = rt.Second
)

// Env is one simulated world and everything the harness knows about it.
type Env struct {
	W      *rt.World
	N      *xnet.Net
	P      *rt.Stream
	Prop   string
	Scen   string
	ver    uint64
	Nodes  []*node.Node
	Cls    []*Cl
	Calls  []*Call
	nval   int
	big    bool           // values up to the server's usual limit of 1 MiB
	skewed bool           // the clients' wall clocks are wrong
	names  map[int]string // of keys, if they are not plain
	Raw    int            // answered requests of raw clients
	watch  []*watched
	// replies is the mix of faults if it is not the usual one.
	replies func() [node.NumActions]int
	// owners[client, key] is the part of the pool that was seen to handle key.
	owners  map[ownerKey]*Cl
	owners2 map[ownerKey]*Cl // in the secondary set
	ownAt   map[*node.Node]int
}

const (
	Text = iota
	Meta
	Bin
)

var protoNames = []string{"text", "meta", "binary"}

// KV is what the clients and pools have in common.
type itemT = client.Item

// KV is what the clients and pools have in common.
type KV interface {
	Get(key string) (*client.Item, error)
	GetMulti(keys ...string) ([]*client.Item, error)
	Set(item *client.Item) error
	Add(item *client.Item) error
	Replace(item *client.Item) error
	Delete(key string) error
	Increment(key string, delta int, expiration int) (int64, error)
	Decrement(key string, delta int, expiration int) (int64, error)
}

// Cl is one client object under test, in a process of its own.
type Cl struct {
	E       *Env
	ID      int
	Proto   int
	Node    *node.Node
	S       client.Server
	KV      KV
	Proc    *rt.Proc
	Timeout rt.Duration
	HB      rt.Duration
	Auto    bool
	Subs    []*Cl // the servers of a pool
	Replica bool
	Second  []*Cl // the secondary servers of a replica pool
	gs      map[*rt.G]bool
}

func (c *Cl) String() string {
	if c.Replica {
		return fmt.Sprintf("replicapool%d", c.ID)
	}
	if len(c.Subs) > 0 {
		return fmt.Sprintf("pool%d", c.ID)
	}
	return fmt.Sprintf("%s-client%d", protoNames[c.Proto], c.ID)
}

// Call is one recorded call.
type Call struct {
	ID      int
	C       *Cl
	Caller  string
	Op      string
	Key     string
	Keys    []string
	Val     string
	Flags   uint32
	FlagNil bool
	Exp     int
	Tok     uint64
	Delta   int
	Inv     uint64
	Ret     uint64 // 0 while running
	T0, T1  rt.Duration
	Err     error
	Cls     string
	Item    *client.Item
	Items   []*client.Item
	Num     int64
	Str     string
	Strs    map[string]string
	BadKey  bool // the key cannot be carried by the protocol
	OddKey  bool // the protocol may refuse the key
	snap    string
}

func (c *Call) String() string {
	s := fmt.Sprintf("%s %s", c.C, c.Op)
	switch c.Op {
	case "multi":
		s += fmt.Sprintf(" %q", c.Keys)
	case "flush", "version", "reconnect", "close":
	case "incr", "decr":
		s += fmt.Sprintf(" %q by %d exp %d", c.Key, c.Delta, c.Exp)
	case "get", "delete":
		s += fmt.Sprintf(" %q", c.Key)
	case "touch":
		s += fmt.Sprintf(" %q exp %d", c.Key, c.Exp)
	default:
		s += fmt.Sprintf(" %q = %s flags %d exp %d", c.Key, short(c.Val), c.Flags, c.Exp)
		if c.Tok != 0 {
			s += fmt.Sprintf(" token %d", c.Tok)
		}
	}
	return s
}

func (c *Call) Result() string {
	switch c.Cls {
	case "":
	case "other":
		return fmt.Sprintf("error %q", c.Err)
	default:
		return c.Cls
	}
	switch c.Op {
	case "get":
		return itemStr(c.Item)
	case "multi":
		var p []string
		for _, i := range c.Items {
			p = append(p, itemStr(i))
		}
		return "[" + strings.Join(p, " ") + "]"
	case "incr", "decr":
		return fmt.Sprint(c.Num)
	case "version":
		if c.Strs != nil {
			return fmt.Sprintf("%q", c.Strs)
		}
		return fmt.Sprintf("%q", c.Str)
	}
	return "ok"
}

func itemStr(i *client.Item) string {
	if i == nil {
		return "<nil item>"
	}
	return fmt.Sprintf("%q=%s flags %d cas %d exp %d", i.Key, short(string(i.Value)), flagsOf(i), i.Cas, i.Expiration)
}

func short(s string) string {
	if len(s) > 48 {
		return fmt.Sprintf("%q...(%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func flagsOf(i *client.Item) uint32 {
	if len(i.Flags) != 4 {
		return 0
	}
	return binary.BigEndian.Uint32(i.Flags)
}

func classify(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, merrors.ItemNotFound):
		return "notfound"
	case errors.Is(err, merrors.ItemExists):
		return "exists"
	}
	return "other"
}

// ---- construction

func (e *Env) NewNode(name, host string, port int) *node.Node {
	n := node.New(e.W, e.N, name, host, port, &e.ver)
	e.Nodes = append(e.Nodes, n)
	if e.P.N(5) == 4 {
		// version tokens start anywhere
		n.Store.SetCas([]uint64{1<<31 - 3, 1<<32 - 3, 1 << 53, 1<<63 - 3, 1 << 63, ^uint64(0) - 1<<40}[e.P.N(6)])
		e.W.Count("probe.large_tokens")
	}
	return n
}

// In runs fn in process p and waits for it.
func (e *Env) In(p *rt.Proc, name string, fn func()) {
	g := rt.GoNamed(name, p, fn)
	if !e.W.Join(3600*sec, g) {
		e.W.Fail("hang", "%s did not finish within an hour", name)
	}
}

type ClOpt struct {
	Timeout rt.Duration
	HB      rt.Duration
	Auto    bool
}

// NewClient connects a client of the given protocol.
func (e *Env) NewClient(proto int, n *node.Node, o ClOpt) *Cl {
	c := &Cl{E: e, ID: len(e.Cls), Proto: proto, Node: n, Timeout: o.Timeout, HB: o.HB, Auto: o.Auto}
	host := fmt.Sprintf("app%d", c.ID)
	e.N.Host(host)
	c.Proc = &rt.Proc{Name: fmt.Sprintf("c%d", c.ID), Host: host}
	e.Cls = append(e.Cls, c)
	e.In(c.Proc, c.Proc.Name+"/dial", func() {
		s, err := dialServer(proto, n.Name, n.Host, n.Port, o)
		if err != nil {
			e.W.Fail("connect", "connecting to a healthy server fails: %v", err)
		}
		c.S, c.KV = s, s
	})
	return c
}

func dialServer(proto int, name, host string, port int, o ClOpt) (client.Server, error) {
	return dialServerCtx(context.Background(), proto, name, host, port, o)
}

func dialServerCtx(ctx context.Context, proto int, name, host string, port int, o ClOpt) (client.Server, error) {
	var opts []client.ServerOpt
	if o.HB > 0 {
		d := o.HB
		if d == sec {
			opts = append(opts, client.EnableHeartbeat)
		} else {
			opts = append(opts, func(opt *client.ServerOption) { opt.HeartbeatInterval = time.Duration(d) })
		}
	}
	if o.Auto {
		opts = append(opts, client.EnableAutoReconnect)
	}
	addr := fmt.Sprintf("%s:%d", host, port)
	switch proto {
	case Text:
		s, err := client.NewServerWithTextProtocol(ctx, name, "tcp", addr, opts...)
		if err != nil {
			return nil, err
		}
		s.Timeout = time.Duration(o.Timeout)
		return s, nil
	case Meta:
		s, err := client.NewServerWithMetaProtocol(ctx, name, "tcp", addr, opts...)
		if err != nil {
			return nil, err
		}
		s.Timeout = time.Duration(o.Timeout)
		return s, nil
	}
	s, err := client.NewServerWithBinaryProtocol(ctx, name, "tcp", addr, opts...)
	if err != nil {
		return nil, err
	}
	s.Timeout = time.Duration(o.Timeout)
	return s, nil
}

// Spawn starts a caller goroutine of client c.
func (c *Cl) Spawn(name string, fn func()) *rt.G {
	if c.gs == nil {
		c.gs = map[*rt.G]bool{}
	}
	g := rt.GoNamed(fmt.Sprintf("%s/%s", c.Proc.Name, name), c.Proc, fn)
	c.gs[g] = true
	return g
}

// Leaked returns goroutines of the client's process that the harness did not
// start.
func (c *Cl) Leaked() []*rt.G {
	var out []*rt.G
	for _, g := range c.E.W.Live() {
		if g.Proc == c.Proc && !c.gs[g] {
			out = append(out, g)
		}
	}
	return out
}

// ---- calls

func be32(f uint32) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, f)
	return b
}

// Begin and End bracket a call.
func (e *Env) Begin(k *Call) {
	k.ID = len(e.Calls)
	e.Calls = append(e.Calls, k)
	if g := e.W.Cur(); g != nil {
		k.Caller = g.Name
	}
	k.T0 = e.W.Now()
	k.Inv = e.W.Seq()
	e.W.Logf("call %d: %s", k.ID, k)
}

func (e *Env) End(k *Call) {
	k.Ret = e.W.Seq()
	k.T1 = e.W.Now()
	k.Cls = classify(k.Err)
	e.W.Logf("call %d returns: %s", k.ID, k.Result())
	e.W.Note(k.Op+k.Cls, uint64(k.ID))
	e.W.NoteSig(k.Op+k.Cls, uint64(k.ID))
	e.W.Count("calls")
	if k.Cls == "other" {
		e.W.Count("calls_failed")
	}
}

// Do performs the call and records its outcome.
func (c *Cl) Do(k *Call) *Call {
	e := c.E
	k.C = c
	var it *client.Item
	switch k.Op {
	case "set", "cas", "add", "replace":
		it = e.newItem(k)
	}
	var keys []string
	var kw *watched
	if k.Op == "multi" {
		keys, kw = e.watchKeys(k)
	}
	e.Begin(k)
	switch k.Op {
	case "get":
		k.Item, k.Err = c.KV.Get(k.Key)
	case "multi":
		k.Items, k.Err = c.KV.GetMulti(keys...)
	case "set", "cas":
		k.Err = c.KV.Set(it)
	case "add":
		k.Err = c.KV.Add(it)
	case "replace":
		k.Err = c.KV.Replace(it)
	case "delete":
		k.Err = c.KV.Delete(k.Key)
	case "incr":
		k.Num, k.Err = c.KV.Increment(k.Key, k.Delta, k.Exp)
	case "decr":
		k.Num, k.Err = c.KV.Decrement(k.Key, k.Delta, k.Exp)
	case "touch":
		k.Err = c.KV.(interface{ Touch(string, int) error }).Touch(k.Key, k.Exp)
	case "flush":
		k.Err = c.KV.(interface{ Flush() error }).Flush()
	case "version":
		switch v := c.KV.(type) {
		case interface{ Version() (string, error) }:
			k.Str, k.Err = v.Version()
		case interface {
			Version() (map[string]string, error)
		}:
			k.Strs, k.Err = v.Version()
		}
	case "reconnect":
		for _, sub := range append(append([]*Cl(nil), c.Subs...), c.Second...) {
			if err := sub.S.Reconnect(); err != nil {
				k.Err = err
			}
		}
		if c.S != nil {
			k.Err = c.S.Reconnect()
		}
	case "close":
		k.Err = c.KV.(interface{ Close() error }).Close()
	default:
		panic("harness: unknown op " + k.Op)
	}
	e.End(k)
	if it != nil {
		e.released(it)
	}
	if kw != nil {
		kw.check(e, "after")
	}
	if k.Err == nil && (k.Op == "get" && k.Item == nil) {
		e.W.Fail("nil-item", "%s returned neither an item nor an error", k)
	}
	e.keepResult(k)
	return k
}

// ---- caller memory (C10)

type watched struct {
	call *Call
	item *client.Item
	full [][]byte // the complete backing arrays handed in
	copy [][]byte
	hdr  client.Item
	keys []string
	kcpy []string
	live bool
	res  bool
}

// newItem builds the item of a call in buffers with spare capacity that must
// stay untouched.
func (e *Env) newItem(k *Call) *client.Item {
	spare := 2 + e.nval%37
	if e.nval%5 == 4 {
		spare = 0
	}
	e.nval++
	vb := make([]byte, len(k.Val)+spare)
	n := copy(vb, k.Val)
	for i := n; i < len(vb); i++ {
		vb[i] = 0xA5
	}
	it := &client.Item{Key: k.Key, Value: vb[:n], Expiration: k.Exp, Cas: k.Tok}
	full := [][]byte{vb}
	if !k.FlagNil {
		fb := append(be32(k.Flags), 0xA5, 0xA5, 0xA5, 0xA5)
		it.Flags = fb[:4]
		full = append(full, fb)
	}
	w := &watched{call: k, item: it, full: full, hdr: *it, live: true}
	for _, b := range full {
		w.copy = append(w.copy, append([]byte(nil), b...))
	}
	e.watch = append(e.watch, w)
	return it
}

// watchKeys returns the key list to hand in, with spare capacity behind it.
func (e *Env) watchKeys(k *Call) ([]string, *watched) {
	full := append(append([]string(nil), k.Keys...), "spare1", "spare2")
	w := &watched{call: k, keys: full, kcpy: append([]string(nil), full...), live: true}
	e.watch = append(e.watch, w)
	return full[:len(k.Keys)], w
}

func (w *watched) check(e *Env, when string) {
	if e.Prop != "C10" {
		return
	}
	if w.keys != nil {
		for i := range w.keys {
			if w.keys[i] != w.kcpy[i] {
				e.W.Fail("caller-memory", "%s: the caller's key list was modified %s the call: element %d is %q, was %q", w.call, when, i, w.keys[i], w.kcpy[i])
			}
		}
		return
	}
	for i := range w.full {
		if string(w.full[i]) != string(w.copy[i]) {
			what := "value"
			if i == 1 {
				what = "flags"
			}
			j := 0
			for w.full[i][j] == w.copy[i][j] {
				j++
			}
			e.W.Fail("caller-memory", "%s: byte %d of the caller's %s buffer (length %d, capacity %d) was changed from %#x to %#x %s the call",
				w.call, j, what, len(w.hdr.Value), len(w.full[i]), w.copy[i][j], w.full[i][j], when)
		}
	}
	h := w.item
	if h.Key != w.hdr.Key || h.Expiration != w.hdr.Expiration || h.Cas != w.hdr.Cas || h.Server != w.hdr.Server ||
		len(h.Value) != len(w.hdr.Value) || len(h.Flags) != len(w.hdr.Flags) || (h.Flags == nil) != (w.hdr.Flags == nil) {
		e.W.Fail("caller-memory", "%s: the caller's item was modified %s the call: %+v, was %+v", w.call, when, *h, w.hdr)
	}
}

func (e *Env) released(it *client.Item) {
	for _, w := range e.watch {
		if w.item == it {
			w.check(e, "by")
		}
	}
}

// CheckMemory looks at everything handed in so far.
func (e *Env) CheckMemory(when string) {
	for _, w := range e.watch {
		w.check(e, when)
	}
}

func itemDigest(i *client.Item) string {
	if i == nil {
		return "nil"
	}
	return fmt.Sprintf("%q|%q|%x|%d|%d|%q", i.Key, i.Value, i.Flags, i.Expiration, i.Cas, i.Server)
}

// keepResult snapshots returned items; Call.Item is replaced by a private
// copy, so that oracles see what the caller saw, unless results are watched.
func (e *Env) keepResult(k *Call) {
	if e.Prop == "C10" {
		k.snap = k.digest()
		return
	}
	cp := func(i *client.Item) *client.Item {
		if i == nil {
			return nil
		}
		j := *i
		j.Value = append([]byte(nil), i.Value...)
		j.Flags = append([]byte(nil), i.Flags...)
		return &j
	}
	k.Item = cp(k.Item)
	for n := range k.Items {
		k.Items[n] = cp(k.Items[n])
	}
}

func (k *Call) digest() string {
	var s []string
	if k.Item != nil {
		s = append(s, itemDigest(k.Item))
	}
	for _, i := range k.Items {
		s = append(s, itemDigest(i))
	}
	return strings.Join(s, ";")
}

// CheckResults verifies that returned items did not change since.
func (e *Env) CheckResults() {
	if e.Prop != "C10" {
		return
	}
	for _, k := range e.Calls {
		if k.Ret != 0 && k.snap != k.digest() {
			e.W.Fail("result-changed", "the result of %s changed after it was returned: %s, was %s", k, k.digest(), k.snap)
		}
	}
}

// ---- misc

func (e *Env) Sleep(d rt.Duration) { rt.Sleep(d) }

// JoinAll waits for callers; a caller that never returns is a violation.
func (e *Env) JoinAll(limit rt.Duration, gs ...*rt.G) {
	if e.W.Join(limit, gs...) {
		return
	}
	var run []string
	for _, k := range e.Calls {
		if k.Ret == 0 {
			run = append(run, fmt.Sprintf("%s (since %.3fs)", k, float64(k.T0)/1e9))
		}
	}
	e.W.Fail("hang", "calls still have not returned after %.0f s without faults: %s", float64(limit)/1e9, strings.Join(run, "; "))
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
