package harness

import (
	"fmt"

	"verif.local/dst/node"
	"verif.local/dst/rt"
)

// seqCfg describes a sequential workload of several clients on one server,
// every call of which is judged exactly against the store.
type seqCfg struct {
	Protos  []int
	Clients [2]int
	Ops     [2]int
	G       genOpt
	ErrP    int // per mille of requests refused with an error answer
	Timeout bool
	TTL     bool // check expirations
	Skew    int  // per mille: time passes between calls
}

// one performs a call in the client's process.
func (c *Cl) one(k *Call) *Call {
	c.E.In(c.Proc, c.Proc.Name+"/call", func() { c.Do(k) })
	return k
}

func entry(x *node.Entry) string {
	if x == nil {
		return "absent"
	}
	return fmt.Sprintf("%s flags %d", short(string(x.Val)), x.Flags)
}

func sameEntry(a, b *node.Entry) bool {
	if a == nil || b == nil {
		return a == b
	}
	return string(a.Val) == string(b.Val) && a.Flags == b.Flags && a.Cas == b.Cas && a.Exp == b.Exp
}

func cloneEntry(x *node.Entry) *node.Entry {
	if x == nil {
		return nil
	}
	y := *x
	y.Val = append([]byte(nil), x.Val...)
	return &y
}

func (e *Env) runSeq(cfg seqCfg) {
	e.netProfile()
	n := e.NewNode("mc1", "mc1", 11211)
	n.MaxItem = 40000
	n.Store.MaxItem = 40000
	if e.P.N(40) == 39 {
		e.bigValues(true)
		n.MaxItem = 1 << 20
		n.Store.MaxItem = 1 << 20
	}
	nc := e.P.R(cfg.Clients[0], cfg.Clients[1])
	var ss []*session
	for i := 0; i < nc; i++ {
		o := ClOpt{}
		if cfg.Timeout && e.P.Bool() {
			o.Timeout = 600 * sec
		}
		ss = append(ss, newSession(e.NewClient(cfg.Protos[e.P.N(len(cfg.Protos))], n, o)))
	}
	f := &faultPlan{e: e, p: cfg.ErrP, w: errOnly, left: 1 << 30}
	f.install(n)
	ops := e.P.R(cfg.Ops[0], cfg.Ops[1])
	for i := 0; i < ops; i++ {
		s := ss[e.P.N(len(ss))]
		k := s.next(cfg.G)
		if k.Op == "cas" && e.P.N(3) == 0 {
			// a token from another key or from long ago
			k.Tok += uint64(e.P.N(3))
		}
		e.judged(n, s.c, k)
		s.learn(k)
		if cfg.Skew > 0 && e.P.P(cfg.Skew) {
			rt.Sleep(rt.Duration(e.P.N(20)) * 300 * ms)
		}
	}
}

// judged performs one call with nothing else running and compares outcome and
// effect with the store.
func (e *Env) judged(n *node.Node, c *Cl, k *Call) { e.judgedOn(view{n}, c, k) }

// view is the servers whose keys together make up one cache.
type view []*node.Node

// at returns the server that holds the key, nil if none does.
func (v view) at(key string) *node.Node {
	var at *node.Node
	for _, n := range v {
		if n.Store.Peek(key) != nil {
			if at != nil {
				n.W.Fail("split-key", "key %q is on two servers at once: %s and %s", key, at.Name, n.Name)
			}
			at = n
		}
	}
	return at
}

func (v view) Peek(key string) *node.Entry {
	if n := v.at(key); n != nil {
		return n.Store.Peek(key)
	}
	return nil
}

func (v view) keys() []string {
	m := map[string]bool{}
	for _, n := range v {
		for k := range n.Store.M {
			m[k] = true
		}
	}
	return sortedKeys(m)
}

// protoFor is the protocol the client speaks to the owner of the key.
func (c *Cl) protoFor(key string) int {
	if len(c.Subs) == 0 {
		return c.Proto
	}
	if p, ok := c.E.owners[ownerKey{c, key}]; ok {
		return p.Proto
	}
	return c.Subs[0].Proto
}

func (e *Env) judgedOn(v view, c *Cl, k *Call) {
	pre := map[string]*node.Entry{}
	for _, key := range v.keys() {
		if x := v.Peek(key); x != nil {
			pre[key] = cloneEntry(x)
		}
	}
	var logAt []int
	for _, n := range v {
		logAt = append(logAt, len(n.Log))
	}
	n := v[0]
	c.one(k)
	if e.W.Failed() {
		return
	}
	refused, seen := false, false
	for i, n := range v {
		for _, x := range n.Log[logAt[i]:] {
			if x.Conn.Proc != c.Proc {
				continue
			}
			seen = true
			if x.Action == node.AErr {
				refused = true
			}
		}
	}
	e.learnOwners()
	proto := c.protoFor(k.Key)
	post := v.Peek
	bad := func(format string, args ...any) {
		e.W.Fail("untruthful", "%s returned %s, but %s", k, k.Result(), fmt.Sprintf(format, args...))
	}
	unchanged := func(except string) {
		for key, x := range pre {
			if key != except && !sameEntry(x, post(key)) && (x.Exp == 0 || post(key) != nil) {
				bad("the call changed key %q from %s to %s", key, entry(x), entry(post(key)))
			}
		}
		for _, key := range v.keys() {
			if key != except && pre[key] == nil && post(key) != nil {
				bad("the call created key %q", key)
			}
		}
	}
	if k.BadKey {
		if k.Cls == "" || k.Cls == "exists" {
			bad("its protocol cannot carry the key")
		}
		unchanged("")
		return
	}
	if k.OddKey && k.Cls == "other" && !seen {
		// refused by the client; allowed
		unchanged("")
		return
	}
	if refused {
		if k.Cls != "other" {
			bad("the server had answered the request with an error")
		}
		if k.Op != "flush" || len(v) == 1 {
			unchanged("")
		}
		return
	}
	x := pre[k.Key]
	y := post(k.Key)
	tooBig := len(k.Val) > n.MaxItem
	want := ""
	stored := false
	switch k.Op {
	case "get":
		if x == nil {
			want = "notfound"
		}
	case "set":
		stored = true
	case "cas":
		switch {
		case x == nil:
			want = "notfound"
		case x.Cas != k.Tok:
			want = "exists"
		default:
			stored = true
		}
	case "add":
		if x != nil {
			want = "exists"
		} else {
			stored = true
		}
	case "replace":
		if x == nil {
			want = "notfound"
		} else {
			stored = true
		}
	case "delete", "touch":
		if x == nil {
			want = "notfound"
		}
	case "incr", "decr":
		if x == nil {
			want = "notfound"
			if proto == Bin && k.Exp >= 0 {
				want = ""
			}
		} else if _, ok := parseNum(string(x.Val)); !ok || x.Val[0] == ' ' {
			want = "other"
		}
	}
	if tooBig {
		switch k.Op {
		case "set", "cas", "add", "replace":
			// memcached checks the size first
			want, stored = "other", false
		}
	}
	if k.Cls != want && !(k.Op == "delete" && proto == Meta && want == "notfound" && k.Cls == "") {
		w := want
		if w == "" {
			w = "success"
		}
		if w == "other" {
			w = "another error"
		}
		bad("with key %q being %s the outcome is %s", k.Key, entry(x), w)
	}
	switch k.Op {
	case "get":
		if want == "" {
			e.sameItem(k, k.Item, x, v)
		}
		unchanged("")
	case "multi":
		got := map[string]bool{}
		for _, i := range k.Items {
			if i == nil {
				bad("it contains a nil item")
			}
			if got[i.Key] {
				bad("key %q appears twice", i.Key)
			}
			got[i.Key] = true
			asked := false
			for _, q := range k.Keys {
				asked = asked || q == i.Key
			}
			if !asked {
				bad("key %q was not asked for", i.Key)
			}
			if pre[i.Key] == nil {
				bad("key %q is absent", i.Key)
			}
			e.sameItem(k, i, pre[i.Key], v)
		}
		for _, q := range k.Keys {
			if pre[q] != nil && !got[q] {
				bad("key %q is present (%s) and missing from the result", q, entry(pre[q]))
			}
		}
		unchanged("")
	case "set", "cas", "add", "replace":
		if stored {
			if y == nil || string(y.Val) != k.Val || y.Flags != k.Flags {
				bad("afterwards the server holds %s instead of %s flags %d", entry(y), short(k.Val), k.Flags)
			}
			if y.Stale {
				bad("afterwards the server considers the item stale")
			}
			unchanged(k.Key)
		} else if tooBig {
			unchanged(k.Key)
		} else {
			unchanged("")
		}
	case "delete":
		if y != nil {
			bad("afterwards the server still holds %s", entry(y))
		}
		unchanged(k.Key)
	case "incr", "decr":
		if want == "" {
			nv := uint64(1)
			if x != nil {
				v, _ := parseNum(string(x.Val))
				switch {
				case k.Op == "incr":
					nv = v + uint64(k.Delta)
				case uint64(k.Delta) > v:
					nv = 0
				default:
					nv = v - uint64(k.Delta)
				}
			}
			if uint64(k.Num) != nv {
				bad("the counter went from %s to %d", entry(x), nv)
			}
			if y == nil || !sameVal(fmt.Sprint(nv), string(y.Val)) {
				bad("afterwards the server holds %s, not %d", entry(y), nv)
			}
			unchanged(k.Key)
		} else {
			unchanged("")
		}
	case "touch":
		if want == "" {
			if y == nil && k.Exp >= 0 || y != nil && (string(y.Val) != string(x.Val) || y.Flags != x.Flags) {
				bad("the key went from %s to %s", entry(x), entry(y))
			}
			if y != nil && (y.Stale || y.Won) {
				bad("the item is now marked stale")
			}
			unchanged(k.Key)
		} else {
			unchanged("")
		}
	case "flush":
		for _, key := range v.keys() {
			if post(key) != nil {
				bad("afterwards key %q is still present", key)
			}
		}
	case "version":
		if len(c.Subs) > 0 {
			if len(k.Strs) != len(v) {
				bad("there are %d servers", len(v))
			}
			for _, n := range v {
				if k.Strs[n.Name] != n.Version {
					bad("the version of %s is %q", n.Name, n.Version)
				}
			}
		} else if k.Str != n.Version {
			bad("the server's version is %q", n.Version)
		}
		unchanged("")
	}
}

// sameItem compares a returned item with what the server holds.
func (e *Env) sameItem(k *Call, i *itemT, x *node.Entry, v view) {
	if i == nil || x == nil {
		e.W.Fail("untruthful", "%s returned %s; the server holds %s", k, k.Result(), entry(x))
	}
	if (i.Key != k.Key && k.Op == "get") || string(i.Value) != string(x.Val) || flagsOf(i) != x.Flags || len(i.Flags) != 4 {
		e.W.Fail("untruthful", "%s returned %s (flags % x); the server holds %s", k, itemStr(i), i.Flags, entry(x))
	}
	if i.Cas != x.Cas {
		e.W.Fail("untruthful", "%s returned %q with token %d; the server's token is %d", k, i.Key, i.Cas, x.Cas)
	}
	if k.C.protoFor(i.Key) == Meta {
		ttl := v[0].Store.TTL(x)
		d := int64(i.Expiration) - ttl
		if ttl < 0 && i.Expiration > 0 || ttl >= 0 && ttl <= 60*60*24*30 && (d < -2 || d > 2) {
			e.W.Fail("untruthful", "%s returned %q with expiration %d; the server's remaining life is %d", k, i.Key, i.Expiration, ttl)
		}
	}
}
