package harness

import (
	"fmt"
	"sort"
	"strings"
)

// A per-key linearizability checker (Wing-Gong search with memoisation) over a
// register/counter/version model of one memcached key.

type lstate struct {
	present bool
	val     string
	flags   uint32
	tok     uint64 // version token, 0 while unknown
	maxTok  uint64 // largest token seen for this or an older version
	touched bool   // a touch may or may not have changed the token
}

func (s lstate) String() string {
	if !s.present {
		return "absent"
	}
	return fmt.Sprintf("%s flags %d token %d", short(s.val), s.flags, s.tok)
}

// lop is one operation on one key.
type lop struct {
	call, ret uint64
	kind      string
	cls       string // "", notfound, exists, other
	may       bool   // may have happened, at any time after call, or not
	val       string
	flags     uint32
	tok       uint64
	delta     uint64
	num       uint64
	creates   bool // incr/decr creates a missing key (with value 1)
	lenient   bool // delete of a missing key may report success
	noTok     bool // the reply carries no token
	desc      string
}

func allDigits(s string) bool {
	if s == "" || len(s) > 20 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func sameVal(state, got string) bool {
	if state == got {
		return true
	}
	return allDigits(state) && strings.TrimRight(got, " ") == state
}

func parseNum(s string) (uint64, bool) {
	s = strings.TrimRight(s, " ")
	if !allDigits(s) {
		return 0, false
	}
	var n uint64
	for i := 0; i < len(s); i++ {
		n = n*10 + uint64(s[i]-'0')
	}
	return n, true
}

// apply returns the possible next states; definite operations constrain them
// by their result, possible ones by nothing.
func (o *lop) apply(s lstate) (lstate, bool) {
	write := func() lstate {
		return lstate{present: true, val: o.val, flags: o.flags, maxTok: s.maxTok}
	}
	absent := lstate{maxTok: s.maxTok}
	switch o.kind {
	case "get":
		if o.cls == "notfound" {
			return s, !s.present
		}
		if !s.present || !sameVal(s.val, o.val) || s.flags != o.flags {
			return s, false
		}
		if o.noTok {
			return s, true
		}
		switch {
		case s.tok == 0 || s.touched && o.tok != s.tok:
			if o.tok <= s.maxTok {
				return s, false
			}
			s.tok, s.maxTok, s.touched = o.tok, o.tok, false
		case s.tok != o.tok:
			return s, false
		default:
			s.touched = false
		}
		return s, true
	case "set":
		return write(), o.may || o.cls == ""
	case "cas":
		match := s.present && s.tok == o.tok
		if o.may {
			if match {
				return write(), true
			}
			return s, true
		}
		switch o.cls {
		case "":
			return write(), match
		case "exists":
			return s, s.present && (!match || s.touched)
		case "notfound":
			return s, !s.present
		}
	case "add":
		if o.may {
			if s.present {
				return s, true
			}
			return write(), true
		}
		if o.cls == "exists" {
			return s, s.present
		}
		return write(), o.cls == "" && !s.present
	case "replace":
		if o.may {
			if !s.present {
				return s, true
			}
			return write(), true
		}
		if o.cls == "notfound" {
			return s, !s.present
		}
		return write(), o.cls == "" && s.present
	case "delete":
		if o.may {
			return absent, true
		}
		if o.cls == "notfound" {
			return s, !s.present
		}
		return absent, o.cls == "" && (s.present || o.lenient)
	case "wipe":
		return absent, true
	case "incr", "decr":
		if !s.present {
			if o.creates {
				n := lstate{present: true, val: "1", maxTok: s.maxTok}
				return n, o.may || o.cls == "" && o.num == 1
			}
			return s, o.may || o.cls == "notfound"
		}
		v, ok := parseNum(s.val)
		if !ok {
			return s, o.may
		}
		if o.kind == "incr" {
			v += o.delta
		} else if o.delta > v {
			v = 0
		} else {
			v -= o.delta
		}
		n := lstate{present: true, val: fmt.Sprint(v), flags: s.flags, maxTok: s.maxTok}
		return n, o.may || o.cls == "" && o.num == v
	case "touch":
		if o.may {
			s.touched = true
			return s, true
		}
		if o.cls == "notfound" {
			return s, !s.present
		}
		s.touched = true
		return s, o.cls == "" && s.present
	}
	return s, o.may
}

const linBudget = 400000

// linearize decides whether the operations have a legal order. undecided is
// true if the search budget ran out.
func linearize(init lstate, ops []*lop) (ok, undecided bool, deepest string) {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	n := len(ops)
	need := 0
	for _, o := range ops {
		if o.may {
			o.ret = 1 << 62
		} else {
			need++
		}
	}
	done := make([]bool, n)
	seen := map[string]bool{}
	budget := linBudget
	best := -1
	var bestState lstate
	var bestDone []bool
	keyOf := func(s lstate) string {
		b := make([]byte, 0, n/8+40)
		var acc byte
		for i := 0; i < n; i++ {
			acc <<= 1
			if done[i] {
				acc |= 1
			}
			if i%8 == 7 {
				b = append(b, acc)
				acc = 0
			}
		}
		b = append(b, acc)
		return string(b) + fmt.Sprintf("|%v|%d|%d|%d|%v|", s.present, s.flags, s.tok, s.maxTok, s.touched) + s.val
	}
	var rec func(s lstate, left int) bool
	rec = func(s lstate, left int) bool {
		if left == 0 {
			return true
		}
		if budget--; budget < 0 {
			return false
		}
		if need-left > best {
			best = need - left
			bestState = s
			bestDone = append([]bool(nil), done...)
		}
		k := keyOf(s)
		if seen[k] {
			return false
		}
		seen[k] = true
		// earliest return among pending definite operations bounds the choice
		limit := uint64(1 << 62)
		for i, o := range ops {
			if !done[i] && o.ret < limit {
				limit = o.ret
			}
		}
		for pass := 0; pass < 2; pass++ {
			for i, o := range ops {
				if done[i] || o.call > limit || o.may != (pass == 1) {
					continue
				}
				ns, ok := o.apply(s)
				if !ok || o.may && ns == s {
					continue
				}
				done[i] = true
				l := left
				if !o.may {
					l--
				}
				if rec(ns, l) {
					return true
				}
				done[i] = false
			}
		}
		return false
	}
	if rec(init, need) {
		return true, false, ""
	}
	if budget < 0 {
		return false, true, ""
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "; after %d of %d calls in the longest legal order the key is %v and none of these fits:", best, need, bestState)
	limit := uint64(1 << 62)
	for i, o := range ops {
		if !bestDone[i] && o.ret < limit {
			limit = o.ret
		}
	}
	m := 0
	for i, o := range ops {
		if !bestDone[i] && !o.may && o.call <= limit && m < 5 {
			m++
			fmt.Fprintf(&sb, " {%s}", o.desc)
		}
	}
	return false, false, sb.String()
}

// linOpt controls how calls are turned into operations.
type linOpt struct {
	NoTok   func(k *Call) bool // results of this call carry no usable token
	Lenient func(k *Call) bool // delete of a missing key may succeed
	Creates func(k *Call) bool
	Final   func(key string) *lop
	Wipes   []uint64
	WipesOf func(key string) []uint64
	Initial map[string]lstate
	Skip    func(k *Call) bool
	// Cond tells that a set without token is conditional etc. (unused)
}

func defaultLin() linOpt {
	return linOpt{
		NoTok:   func(*Call) bool { return false },
		Lenient: func(k *Call) bool { return k.C.Proto == Meta },
		Creates: func(k *Call) bool { return k.C.Proto == Bin && uint32(k.Exp) != 0xffffffff },
	}
}

// CheckLin checks every key of the recorded calls.
func (e *Env) CheckLin(calls []*Call, o linOpt) {
	keys := map[string]bool{}
	for _, k := range calls {
		if k.Key != "" {
			keys[k.Key] = true
		}
		for _, x := range k.Keys {
			keys[x] = true
		}
	}
	for _, key := range sortedKeys(keys) {
		var ops []*lop
		for _, k := range calls {
			if o.Skip != nil && o.Skip(k) {
				continue
			}
			ops = append(ops, opsFor(k, key, o)...)
		}
		ws := o.Wipes
		if o.WipesOf != nil {
			ws = o.WipesOf(key)
		}
		for _, s := range ws {
			ops = append(ops, &lop{call: s, ret: s, kind: "wipe", desc: "server loses its memory"})
		}
		if o.Final != nil {
			if f := o.Final(key); f != nil {
				ops = append(ops, f)
			}
		}
		e.W.Count("probe.histories_checked")
		ok, und, deep := linearize(o.Initial[key], ops)
		if und {
			e.W.Count("probe.lin_undecided")
			continue
		}
		if !ok {
			var sb strings.Builder
			n := 0
			for _, p := range ops {
				if n < 60 {
					r := fmt.Sprint(p.ret)
					if p.may {
						r = "?"
					}
					fmt.Fprintf(&sb, "\n    [%d,%s] %s", p.call, r, p.desc)
				}
				n++
			}
			e.W.Fail("linearizability", "no order of the calls on key %q explains their results%s\n  calls on the key:%s", key, deep, sb.String())
		}
	}
}

func opsFor(k *Call, key string, o linOpt) []*lop {
	touches := k.Key == key
	for _, x := range k.Keys {
		if x == key {
			touches = true
		}
	}
	if k.Op == "flush" {
		touches = true
	}
	if !touches || k.BadKey {
		return nil
	}
	op := &lop{call: k.Inv, ret: k.Ret, cls: k.Cls, desc: k.String() + " -> " + k.Result()}
	if k.Ret == 0 || k.Cls == "other" {
		op.may = true
	}
	if k.Ret == 0 {
		op.desc = k.String() + " (never returned)"
	}
	switch k.Op {
	case "get":
		if op.may {
			return nil
		}
		op.kind = "get"
		if k.Cls == "" {
			op.val, op.flags, op.tok = string(k.Item.Value), flagsOf(k.Item), k.Item.Cas
			op.noTok = o.NoTok(k)
		}
	case "multi":
		if op.may || k.Cls != "" {
			return nil
		}
		op.kind = "get"
		op.cls = "notfound"
		for _, i := range k.Items {
			if i != nil && i.Key == key {
				op.cls = ""
				op.val, op.flags, op.tok = string(i.Value), flagsOf(i), i.Cas
				op.noTok = o.NoTok(k) || i.Cas == 0
			}
		}
	case "set", "cas":
		op.kind = "set"
		if k.Tok != 0 {
			op.kind = "cas"
		}
		op.val, op.flags, op.tok = k.Val, k.Flags, k.Tok
	case "add", "replace":
		op.kind = k.Op
		op.val, op.flags = k.Val, k.Flags
	case "delete":
		op.kind = "delete"
		op.lenient = o.Lenient(k)
	case "incr", "decr":
		op.kind = k.Op
		op.delta = uint64(k.Delta)
		op.num = uint64(k.Num)
		op.creates = o.Creates(k)
	case "touch":
		op.kind = "touch"
	case "flush":
		op.kind = "wipe"
		if k.Cls != "" {
			op.may = true
		}
	default:
		return nil
	}
	return []*lop{op}
}
