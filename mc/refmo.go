// Independent reader of GNU MO files, written from the format description.
package main

import (
	"bytes"
	"encoding/binary"
	"sort"
)

type refMo struct {
	bo       binary.ByteOrder
	n        int
	data     []byte
	orig     []string // original strings, without terminator
	trans    []string
	hashSize uint32
	hashOff  uint32
}

// readRefMo checks the layout strictly and returns what the file holds.
func readRefMo(b []byte, bo binary.ByteOrder) (*refMo, error) {
	m := &refMo{bo: bo, data: b}
	if len(b) < 28 {
		return nil, failf("layout", "shorter than an MO header: %d bytes", len(b))
	}
	u := func(at int) uint32 { return bo.Uint32(b[at:]) }
	if u(0) != 0x950412de {
		return nil, failf("magic", "magic number is %#x in the chosen byte order", u(0))
	}
	if u(4) != 0 {
		return nil, failf("revision", "revision is %#x", u(4))
	}
	n := uint64(u(8))
	m.n = int(n)
	ot, tt := uint64(u(12)), uint64(u(16))
	m.hashSize, m.hashOff = u(20), u(24)
	size := uint64(len(b))
	type span struct {
		lo, hi uint64
		what   string
	}
	used := []span{{0, 28, "header"}}
	if ot+8*n > size || tt+8*n > size || uint64(m.hashOff)+4*uint64(m.hashSize) > size {
		return nil, failf("tables", "a table is outside the file: n=%d orig=%d trans=%d hash=%d+4*%d size=%d", n, ot, tt, m.hashOff, m.hashSize, size)
	}
	used = append(used, span{ot, ot + 8*n, "original table"}, span{tt, tt + 8*n, "translation table"})
	if m.hashSize > 0 {
		used = append(used, span{uint64(m.hashOff), uint64(m.hashOff) + 4*uint64(m.hashSize), "hash table"})
	}
	read := func(tab uint64, i uint64) (string, error) {
		l, o := uint64(u(int(tab+8*i))), uint64(u(int(tab+8*i+4)))
		if o+l+1 > size {
			return "", failf("strings", "string %d at %d+%d is outside the file of %d bytes", i, o, l, size)
		}
		if b[o+l] != 0 {
			return "", failf("terminator", "string %d is not terminated by NUL", i)
		}
		used = append(used, span{o, o + l + 1, "string"})
		return string(b[o : o+l]), nil
	}
	for i := uint64(0); i < n; i++ {
		s, err := read(ot, i)
		if err != nil {
			return nil, err
		}
		t, err := read(tt, i)
		if err != nil {
			return nil, err
		}
		m.orig, m.trans = append(m.orig, s), append(m.trans, t)
	}
	sort.Slice(used, func(i, j int) bool {
		return used[i].lo < used[j].lo || used[i].lo == used[j].lo && used[i].hi < used[j].hi
	})
	for i := 1; i < len(used); i++ {
		if used[i].lo < used[i-1].hi {
			return nil, failf("overlap", "%s and %s overlap at byte %d", used[i-1].what, used[i].what, used[i].lo)
		}
	}
	return m, nil
}

// key is the part of an original string up to the plural separator.
func moKey(s string) string {
	if i := bytes.IndexByte([]byte(s), 0); i >= 0 {
		return s[:i]
	}
	return s
}

// bsearch looks a message up as gettext does without hash table; -1 if absent.
func (m *refMo) bsearch(key string) int {
	lo, hi := 0, m.n
	for lo < hi {
		mid := (lo + hi) / 2
		k := moKey(m.orig[mid])
		switch {
		case key < k:
			hi = mid
		case key > k:
			lo = mid + 1
		default:
			return mid
		}
	}
	return -1
}

// refHash is gettext's hash_string.
func refHash(s string) uint32 {
	var h uint32
	for i := 0; i < len(s); i++ {
		h <<= 4
		h += uint32(s[i])
		if g := h & (0xf << 28); g != 0 {
			h ^= g >> 24
			h ^= g
		}
	}
	return h
}

// hsearch looks a message up in the hash table as gettext does; -1 if absent, -2 if it never ends.
func (m *refMo) hsearch(key string) int {
	h := refHash(key)
	size := m.hashSize
	idx := h % size
	incr := 1 + h%(size-2)
	for step := uint32(0); step <= 2*size; step++ {
		v := m.bo.Uint32(m.data[m.hashOff+4*idx:])
		if v == 0 {
			return -1
		}
		v--
		if int(v) < m.n && moKey(m.orig[v]) == key {
			return int(v)
		}
		if int(v) >= m.n {
			return -3
		}
		if idx >= size-incr {
			idx -= size - incr
		} else {
			idx += incr
		}
	}
	return -2
}
