// Package node is an executable model of one memcached server: the store with
// its one-second clock, and the text, meta and binary protocols byte by byte.
// tools/conformance compares it with the real memcached 1.6.
package node

import (
	"bytes"
	"strconv"
)

const maxItem = 1024*1024 - 200

type Entry struct {
	Val   []byte
	Flags uint32
	Exp   int64 // server clock seconds; 0 = never
	Cas   uint64
	Stale bool
	Won   bool
	LA    int64
	Hit   bool
	Ver   uint64 // model-global version, unique across nodes
}

// Store is the state of one memcached process.
type Store struct {
	M     map[string]*Entry
	cas   uint64
	clock func() int64 // unix seconds, as cached by the server
	start int64        // unix seconds at process start minus 2
	Ver   *uint64
	// MaxItem is the largest value accepted; Version what version requests get.
	MaxItem int
	Version string
}

func NewStore(clock func() int64, ver *uint64) *Store {
	return &Store{M: map[string]*Entry{}, clock: clock, start: clock() - 2, Ver: ver, MaxItem: maxItem, Version: Version}
}

// rel is memcached's current_time.
func (s *Store) rel() int64 { return s.clock() - s.start }

// Rel is the server's current second, Start its zero in unix time.
func (s *Store) Rel() int64   { return s.rel() }
func (s *Store) Start() int64 { return s.start }

const immediately = -1

// realtime converts a protocol expiration; immediately means already expired.
func (s *Store) realtime(exp int64) int64 {
	if exp == 0 {
		return 0
	}
	if exp < 0 {
		return immediately
	}
	if exp > 60*60*24*30 {
		if exp <= s.start {
			return 1
		}
		return exp - s.start
	}
	return exp + s.rel()
}

func (s *Store) get(key string) *Entry {
	e := s.M[key]
	if e == nil {
		return nil
	}
	if e.Exp != 0 && (e.Exp == immediately || e.Exp <= s.rel()) {
		delete(s.M, key)
		return nil
	}
	return e
}

// Peek looks at a key without side effects.
func (s *Store) Peek(key string) *Entry {
	e := s.M[key]
	if e == nil || e.Exp != 0 && (e.Exp == immediately || e.Exp <= s.rel()) {
		return nil
	}
	return e
}

// TTL is the remaining life in seconds, -1 for unlimited.
func (s *Store) TTL(e *Entry) int64 {
	if e.Exp == 0 {
		return -1
	}
	return e.Exp - s.rel()
}

func (s *Store) nextCas() uint64 { s.cas++; return s.cas }

func (s *Store) put(key string, val []byte, flags uint32, exp int64) *Entry {
	*s.Ver++
	e := &Entry{Val: append([]byte(nil), val...), Flags: flags, Exp: exp, Cas: s.nextCas(), LA: s.rel(), Ver: *s.Ver}
	s.M[key] = e
	return e
}

type result int

const (
	rStored result = iota
	rNotStored
	rExists
	rNotFound
	rTooLarge
	rNonNumeric
	rOK
)

// store performs set/add/replace/append/prepend/cas.
func (s *Store) store(mode, key string, val []byte, flags uint32, exp int64, cas uint64) (result, *Entry) {
	old := s.get(key)
	if cas != 0 {
		if old == nil {
			return rNotFound, nil
		}
		if old.Cas != cas {
			return rExists, nil
		}
	}
	switch mode {
	case "add":
		if old != nil {
			return rNotStored, nil
		}
	case "replace":
		if old == nil {
			return rNotStored, nil
		}
	case "append", "prepend":
		if old == nil {
			return rNotStored, nil
		}
		var v []byte
		if mode == "append" {
			v = append(append(v, old.Val...), val...)
		} else {
			v = append(append(v, val...), old.Val...)
		}
		e := s.put(key, v, old.Flags, old.Exp)
		return rStored, e
	}
	return rStored, s.put(key, val, flags, exp)
}

func (s *Store) del(key string, cas uint64) result {
	e := s.get(key)
	if e == nil {
		return rNotFound
	}
	if cas != 0 && e.Cas != cas {
		return rExists
	}
	delete(s.M, key)
	return rOK
}

// Evict drops a key.
func (s *Store) Evict(key string) { delete(s.M, key) }

func parseU(b []byte) (uint64, bool) {
	t := b
	if i := bytes.IndexByte(t, ' '); i >= 0 {
		t = t[:i]
	}
	if len(b) > 20 || len(t) == 0 || t[0] == '-' {
		return 0, false
	}
	v, err := strconv.ParseUint(string(t), 10, 64)
	return v, err == nil
}

// delta performs incr/decr in place, keeping the item's length when the new
// number is shorter, as memcached does.
func (s *Store) delta(key string, d uint64, incr bool, cas uint64, inPlace bool) (result, uint64, *Entry) {
	e := s.get(key)
	if e == nil {
		return rNotFound, 0, nil
	}
	if len(e.Val) == 0 || len(e.Val) > 20 {
		return rNonNumeric, 0, nil
	}
	if cas != 0 && cas != e.Cas {
		return rExists, 0, nil
	}
	v, ok := parseU(e.Val)
	if !ok {
		return rNonNumeric, 0, nil
	}
	if incr {
		v += d
	} else if d > v {
		v = 0
	} else {
		v -= d
	}
	t := []byte(strconv.FormatUint(v, 10))
	for inPlace && len(t) < len(e.Val) {
		t = append(t, ' ')
	}
	*s.Ver++
	e.Val = t
	e.Cas = s.nextCas()
	e.Ver = *s.Ver
	return rOK, v, e
}

func (s *Store) touch(key string, exp int64) (result, *Entry) {
	e := s.get(key)
	if e == nil {
		return rNotFound, nil
	}
	e.Exp = exp
	return rOK, e
}

func (s *Store) flush() {
	s.M = map[string]*Entry{}
	s.nextCas()
}

// SetCas moves the version counter forward.
func (s *Store) SetCas(n uint64) {
	if n > s.cas {
		s.cas = n
	}
}
