package vmodel

import (
	"github.com/dgraph-io/ristretto"

	"github.com/gernest/requiemdb/internal/vsym"
)

// ---- ristretto: entries may be missing at any time, never wrong ----

type rcEnt struct {
	k    uint64
	s    string
	isS  bool
	v    any
	gone bool
}

type rcCache struct {
	ents    []rcEnt
	onEvict func(*ristretto.Item)
}

var rcCaches = map[*ristretto.Cache]*rcCache{}

// CacheMiss, when set, lets a stored entry be missing.
var CacheMiss func() bool

//vsym:model github.com/dgraph-io/ristretto.NewCache
func rcNew(c *ristretto.Config) (*ristretto.Cache, error) {
	r := &ristretto.Cache{}
	rcCaches[r] = &rcCache{onEvict: c.OnEvict}
	return r, nil
}

func rcKey(key any) (uint64, string, bool) {
	switch k := key.(type) {
	case uint64:
		return k, "", false
	case string:
		return 0, k, true
	case []byte:
		return 0, string(k), true
	case int:
		return uint64(k), "", false
	case int64:
		return uint64(k), "", false
	case uint32:
		return uint64(k), "", false
	case byte:
		return uint64(k), "", false
	}
	panic("vmodel: key type of ristretto")
}

//vsym:model (*github.com/dgraph-io/ristretto.Cache).Get
func rcGet(c *ristretto.Cache, key any) (any, bool) {
	if c == nil {
		return nil, false
	}
	k, s, isS := rcKey(key)
	m := rcCaches[c]
	for i := range m.ents {
		e := &m.ents[i]
		if e.gone || e.isS != isS {
			continue
		}
		if (isS && e.s == s) || (!isS && e.k == k) {
			if CacheMiss != nil && CacheMiss() {
				return nil, false
			}
			return e.v, true
		}
	}
	return nil, false
}

//vsym:model (*github.com/dgraph-io/ristretto.Cache).Set
func rcSet(c *ristretto.Cache, key, v any, cost int64) bool {
	if c == nil {
		return false
	}
	k, s, isS := rcKey(key)
	m := rcCaches[c]
	for i := range m.ents {
		e := &m.ents[i]
		if e.isS == isS && ((isS && e.s == s) || (!isS && e.k == k)) {
			e.v, e.gone = v, false
			return true
		}
	}
	m.ents = append(m.ents, rcEnt{k: k, s: s, isS: isS, v: v})
	return true
}

//vsym:model (*github.com/dgraph-io/ristretto.Cache).Del
func rcDel(c *ristretto.Cache, key any) {
	k, s, isS := rcKey(key)
	m := rcCaches[c]
	for i := range m.ents {
		e := &m.ents[i]
		if e.isS == isS && ((isS && e.s == s) || (!isS && e.k == k)) {
			e.gone = true
		}
	}
}

//vsym:model (*github.com/dgraph-io/ristretto.Cache).Wait
func rcWait(c *ristretto.Cache) {}

//vsym:model (*github.com/dgraph-io/ristretto.Cache).Clear
func rcClear(c *ristretto.Cache) { rcCaches[c].ents = nil }

//vsym:model (*github.com/dgraph-io/ristretto.Cache).Close
func rcClose(c *ristretto.Cache) {
	if c == nil {
		return
	}
	if m := rcCaches[c]; m != nil {
		m.ents = nil
	}
}

var _ = vsym.Symbolic
