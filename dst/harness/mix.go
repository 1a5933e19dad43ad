package harness

import (
	"strings"

	"go.f110.dev/go-memcached/client"

	"verif.local/dst/node"
	"verif.local/dst/rt"
)

// mixCfg describes a concurrent workload on one server.
type mixCfg struct {
	Clients  [2]int
	Callers  [2]int
	Ops      [2]int
	Protos   []int
	G        genOpt
	Timeout  int // per mille of clients that have a time limit
	HB       int
	FaultP   int // per mille of requests
	FaultW   [node.NumActions]int
	MaxFault int
	Recon    int  // per mille: reconnect after a failed call
	Slow     bool // the server takes its time, but nothing is wrong
}

// runMix runs the workload and waits until all callers have returned. It
// returns the calls.
func (e *Env) runMix(cfg mixCfg) {
	e.netProfile()
	n := e.NewNode("mc1", "mc1", 11211)
	n.MaxItem = 40000
	n.Store.MaxItem = 40000
	nc := e.P.R(cfg.Clients[0], cfg.Clients[1])
	for i := 0; i < nc; i++ {
		o := ClOpt{}
		if e.P.P(cfg.Timeout) {
			o.Timeout = []rt.Duration{50 * ms, 200 * ms, sec, 3 * sec}[e.P.N(4)]
		}
		if e.P.P(cfg.HB) {
			o.HB = []rt.Duration{sec, 300 * ms, 5 * sec}[e.P.N(3)]
			o.Auto = e.P.Bool()
		}
		e.NewClient(cfg.Protos[e.P.N(len(cfg.Protos))], n, o)
	}
	f := &faultPlan{e: e, p: cfg.FaultP, w: cfg.FaultW, left: cfg.MaxFault, stall: 4 * sec}
	f.install(n)
	if cfg.Slow {
		f = e.slow(n)
	}
	var gs []*rt.G
	for _, c := range e.Cls {
		c := c
		for j := e.P.R(cfg.Callers[0], cfg.Callers[1]); j > 0; j-- {
			ops := e.P.R(cfg.Ops[0], cfg.Ops[1])
			gs = append(gs, c.Spawn("caller"+string(rune('0'+j)), func() {
				s := newSession(c)
				for i := 0; i < ops; i++ {
					k := s.next(cfg.G)
					c.Do(k)
					s.learn(k)
					if e.P.N(4) == 3 {
						rt.Sleep(dur(e.P, 0, 20*ms))
					}
					if k.Cls == "other" && !k.BadKey && e.P.P(cfg.Recon) {
						rt.Sleep(dur(e.P, 0, 500*ms))
						c.Do(&Call{Op: "reconnect"})
					}
				}
			}))
		}
	}
	e.JoinAll(700*sec, gs...)
	f.on = false
	// let delayed requests execute
	rt.Sleep(70 * sec)
}

// finalGet is a read of the store at the end of the run.
func (e *Env) finalGet(n *node.Node) func(key string) *lop {
	seq := e.W.Seq()
	return func(key string) *lop {
		o := &lop{call: seq, ret: seq, kind: "get", cls: "notfound", noTok: true, desc: "final contents: absent"}
		if x := n.Store.Peek(key); x != nil {
			o.cls, o.val, o.flags = "", string(x.Val), x.Flags
			o.desc = "final contents: " + short(o.val)
		}
		return o
	}
}

func wipes(n *node.Node) []uint64 {
	var w []uint64
	for _, x := range n.Wipes {
		w = append(w, x.Seq)
	}
	return w
}

// checkBadKeys: a call with a key the protocol cannot carry must fail.
func (e *Env) checkBadKeys() {
	for _, k := range e.Calls {
		if k.Ret == 0 {
			continue
		}
		if k.BadKey && (k.Cls == "" || k.Cls == "exists") {
			e.W.Fail("impossible-key", "%s carries a key the protocol cannot express, yet returned %s", k, k.Result())
		}
	}
}

var mutating = map[string]string{"set": "store", "add": "store", "replace": "store", "cas": "store", "ms": "store",
	"setq": "store", "addq": "store", "replaceq": "store", "append": "store", "prepend": "store",
	"incr": "count", "decr": "count", "ma": "count", "incrq": "count", "decrq": "count",
	"delete": "del", "deleteq": "del", "md": "del", "flush_all": "flush", "flush": "flush", "flushq": "flush"}

// checkOwnAnswers: a call that reports an answer of the server must have had
// its request dealt with, and answered, while it ran.
func (e *Env) checkOwnAnswers(nodes ...*node.Node) {
	for _, k := range e.Calls {
		if k.Ret == 0 || k.Cls == "other" || k.BadKey || k.C == nil {
			continue
		}
		want := k.Keys
		switch k.Op {
		case "reconnect", "close":
			continue
		case "multi":
		case "flush", "version":
			want = []string{""}
		default:
			want = []string{k.Key}
		}
		for _, key := range want {
			found := false
			for _, n := range nodes {
				for _, x := range n.Log {
					if x.Seq < k.Inv || x.Seq > k.Ret || x.Conn.Proc != k.C.Proc {
						continue
					}
					if x.Replied == 0 || x.Replied > k.Ret || !x.Executed {
						continue
					}
					if key == "" && !strings.Contains(x.Op, k.Op) || key != "" && !x.HasKey(key) {
						continue
					}
					found = true
				}
			}
			if !found {
				e.W.Fail("foreign-answer", "%s returned %s, but no request of that client for %q was executed and answered by the server while the call ran",
					k, k.Result(), key)
			}
		}
	}
}

// checkItems: returned items name a requested key and carry a value that was
// written for that key.
func (e *Env) checkItems() {
	for _, k := range e.Calls {
		if k.Cls != "" || k.Ret == 0 {
			continue
		}
		switch k.Op {
		case "get":
			if k.Item.Key != k.Key {
				e.W.Fail("wrong-key", "%s returned an item for key %q", k, k.Item.Key)
			}
			e.checkItemServer(k, k.Item)
		case "multi":
			asked := map[string]bool{}
			for _, x := range k.Keys {
				asked[x] = true
			}
			got := map[string]bool{}
			for _, i := range k.Items {
				if i == nil {
					e.W.Fail("wrong-key", "%s returned a nil item", k)
				}
				if !asked[i.Key] {
					e.W.Fail("wrong-key", "%s returned an item for key %q, which was not asked for", k, i.Key)
				}
				if got[i.Key] {
					e.W.Fail("wrong-key", "%s returned two items for key %q", k, i.Key)
				}
				got[i.Key] = true
				e.checkItemServer(k, i)
			}
		case "version":
			if k.C != nil && k.C.Node != nil && k.Strs == nil && k.Str != k.C.Node.Version {
				e.W.Fail("wrong-answer", "%s returned %q; the server's version is %q", k, k.Str, k.C.Node.Version)
			}
		}
	}
}

// checkItemServer: an item that names a server names one that answered a
// request for its key while the call ran.
func (e *Env) checkItemServer(k *Call, i *client.Item) {
	if i.Server == "" || k.C == nil {
		return
	}
	if k.C.S != nil && k.C.S.Name() == i.Server {
		return
	}
	for _, n := range e.Nodes {
		if n.Name != i.Server {
			continue
		}
		for _, x := range n.Log {
			if x.Seq >= k.Inv && x.Seq <= k.Ret && x.Conn.Proc == k.C.Proc && x.Executed && x.HasKey(i.Key) {
				return
			}
		}
	}
	e.W.Fail("wrong-server", "%s returned %q as coming from %q, which was not asked for it while the call ran", k, i.Key, i.Server)
}

// checkAtMostOnce: no request takes effect twice.
func (e *Env) checkAtMostOnce(nodes ...*node.Node) {
	stored := map[string]int{}
	type ck struct {
		p    *rt.Proc
		n    *node.Node
		key  string
		kind string
	}
	execs := map[ck]int{}
	for _, n := range nodes {
		for _, x := range n.Log {
			if !x.Executed {
				continue
			}
			m := mutating[x.Op]
			if m == "del" && !(x.Pre != nil && x.Post == nil) {
				continue
			}
			switch m {
			case "store":
				if x.Outcome == "stored" {
					stored[x.Key+"\x00"+string(x.Post.Val)]++
				}
			case "count", "del":
				execs[ck{x.Conn.Proc, nil, x.Key, m}]++
			case "flush":
				execs[ck{x.Conn.Proc, n, x.Key, m}]++
			}
		}
	}
	calls := map[ck]int{}
	for _, k := range e.Calls {
		if k.C == nil {
			continue
		}
		switch k.Op {
		case "incr", "decr":
			calls[ck{k.C.Proc, nil, k.Key, "count"}]++
		case "delete":
			calls[ck{k.C.Proc, nil, k.Key, "del"}]++
		case "flush":
			for _, n := range nodes {
				calls[ck{k.C.Proc, n, "", "flush"}]++
			}
		case "set", "cas", "add", "replace":
			id := k.Key + "\x00" + k.Val
			if strings.Contains(k.Val, "#") && stored[id] > 1 {
				e.W.Fail("applied-twice", "%s returned %s, but its value was stored %d times", k, k.Result(), stored[id])
			}
			if k.Cls == "" && k.Ret != 0 && stored[id] == 0 {
				e.W.Fail("not-applied", "%s reported success, but the server never stored that value", k)
			}
		}
	}
	for key, m := range execs {
		if m > calls[key] {
			e.W.Fail("applied-twice", "key %q: %d calls of one client led to %d %s requests executed by the server", key.key, calls[key], m, key.kind)
		}
	}
}

func (e *Env) mixOracles() {
	n := e.Nodes[0]
	e.checkBadKeys()
	e.checkItems()
	e.checkOwnAnswers(n)
	e.checkAtMostOnce(n)
	o := defaultLin()
	o.Final = e.finalGet(n)
	o.Wipes = wipes(n)
	e.CheckLin(e.Calls, o)
}
