// C05: compiling to MO and reading back keeps every live translation.
// C06: MO output is a conforming GNU MO file in which every message can be looked up.
package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C05"] = propDef{
		level: "model_checking",
		notes: []string{
			"ids, contexts and translations contain no NUL, contexts (and ids without context) no EOT; a plural message has a non-empty plural id",
			"oracle: the expected list of live messages computed from the catalog (moImage), and an independent MO reader (refmo.go) for the bytes",
		},
		run: runC05,
	}
	props["C06"] = propDef{
		level: "model_checking",
		notes: []string{
			"catalogs have the shape C05 assumes",
			"oracle: strict independent reader (refmo.go) that checks magic, revision, bounds, overlap and termination, gettext's binary search and gettext's hash probing, each run for every message and for absent strings",
		},
		run: runC06,
	}
}

var byteOrders = []compile.Endianness{compile.LittleEndian, compile.BigEndian, compile.NativeEndian}

func refOrder(e compile.Endianness) binary.ByteOrder {
	switch e {
	case compile.BigEndian:
		return binary.BigEndian
	case compile.LittleEndian:
		return binary.LittleEndian
	}
	return binary.NativeEndian
}

func refUID(e ent) string {
	if e.Context != "" {
		return e.Context + "\x04" + e.ID
	}
	return e.ID
}

// moForms is what an MO file can say about one entry.
func moForms(e ent) ent {
	o := ent{Context: e.Context, ID: e.ID, Plural: e.Plural}
	if e.Plural == "" {
		o.Str = e.Str
		return o
	}
	fs := append(pes{}, e.Plurals...)
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	for i, f := range fs {
		o.Plurals = append(o.Plurals, pe{ID: i, Str: f.Str})
	}
	if len(fs) == 0 {
		o.Plurals = pes{{ID: 0, Str: e.Str}}
	}
	return o
}

func moImage(cat ents, depure, sorted bool) ents {
	var out ents
	seen := map[string]bool{}
	for _, e := range cat {
		if depure {
			if e.Obsolete || isFuzzy(e) && !isHeader(e) || seen[refUID(e)] {
				continue
			}
			seen[refUID(e)] = true
		}
		out = append(out, moForms(e))
	}
	if sorted {
		sort.SliceStable(out, func(i, j int) bool { return refUID(out[i]) < refUID(out[j]) })
	}
	return out
}

type moCfg struct {
	order        compile.Endianness
	hash         bool
	depure, sort bool
}

func (c moCfg) opts() []compile.MoOption {
	o := []compile.MoOption{compile.MoWithEndianness(c.order), compile.MoWithHashTable(c.hash)}
	if !c.depure {
		o = append(o, compile.MoWithDepureEntries(false))
	}
	if !c.sort {
		o = append(o, compile.MoWithSortEntries(false))
	}
	return o
}

func moCfgs() (out []moCfg) {
	for _, o := range byteOrders {
		for k := 0; k < 8; k++ {
			out = append(out, moCfg{o, k&1 == 0, k&2 == 0, k&4 == 0})
		}
	}
	return
}

func c05Check(w *W, cat ents, c moCfg) error {
	var b strings.Builder
	if err := compile.MoToWriter(cat, &b, c.opts()...); err != nil {
		return failf("write-error", "MO compiler reported %v", err)
	}
	data := []byte(b.String())
	want := moImage(cat, c.depure, c.sort)
	// The bytes.
	m, err := readRefMo(data, refOrder(c.order))
	if err != nil {
		return err
	}
	if m.n != len(want) {
		return failf("count", "%d messages written, %d expected", m.n, len(want))
	}
	for i, e := range want {
		o := refUID(e)
		t := e.Str
		if e.Plural != "" {
			o += "\x00" + e.Plural
			t = ""
			for k, f := range e.Plurals {
				if k > 0 {
					t += "\x00"
				}
				t += f.Str
			}
		}
		if m.orig[i] != o || m.trans[i] != t {
			return failf("bytes", "message %d is %q = %q, expected %q = %q", i, m.orig[i], m.trans[i], o, t)
		}
	}
	// The reader.
	readers := []parse.Endianness{parse.NativeEndian, c.order}
	for _, ro := range readers {
		opts := []parse.MoOption{parse.MoWithEndianness(ro)}
		if c.sort {
			opts = append(opts, parse.MoWithMustBeSorted(true))
		}
		p := parse.NewMoFromBytes(data, "x.mo", opts...)
		f := p.Parse()
		if p.Error() != nil {
			return failf("read-error", "reader (order %v) reports %v on a file the compiler wrote (%+v)", ro, p.Error(), c)
		}
		w.Trans(1)
		if err := sameEntries("roundtrip", fmt.Sprintf("read back (writer %+v, reader order %v)", c, ro), f.Entries, want); err != nil {
			return err
		}
	}
	if !c.sort {
		// Only here may the messages be out of order, which matters to a reader that requires it.
		in := sort.SliceIsSorted(want, func(i, j int) bool { return refUID(want[i]) < refUID(want[j]) })
		f, err := parse.MoFromBytes(data, "x.mo", parse.MoWithMustBeSorted(true))
		w.Trans(1)
		if in != (err == nil) {
			return failf("must-be-sorted", "messages in order: %v, but a reader that requires it says %v", in, err)
		}
		if in {
			if err := sameEntries("must-be-sorted", "read back by a reader that requires order", f.Entries, want); err != nil {
				return err
			}
		}
	}
	w.Trans(1)
	w.Trace()
	return nil
}

func moPool() ents {
	return ents{
		{Str: "Language: es\nPlural-Forms: nplurals=2; plural=(n != 1);\n"},
		{Str: "Language: fr\n", Flags: strs("fuzzy")},
		{ID: "a", Str: "1", Comments: strs("c"), Locations: locs{{Line: 1, File: "f"}}},
		{ID: "a", Str: "2", Obsolete: true},
		{ID: "a", Str: "3", Flags: strs("fuzzy")},
		{ID: "a", Context: "c", Str: "4"},
		{ID: "b", Str: ""},
		{ID: "ab", Str: "x\ny\n"},
		{ID: "c", Plural: "cs", Plurals: pes{{ID: 0, Str: "one"}}},
		{ID: "c", Plural: "cz", Plurals: pes{{ID: 1, Str: "B"}, {ID: 0, Str: "A"}}},
		{ID: "c", Context: "é", Plural: "cs", Plurals: pes{{ID: 0, Str: ""}, {ID: 1, Str: "2"}, {ID: 2, Str: ""}}},
		{ID: "日本", Str: "😀"},
		{ID: "A b", Context: "c", Str: "5", Flags: strs("c-format")},
		{ID: "c", Plural: "cs", Obsolete: true},
		{ID: "a\x04b", Context: "x", Str: "eot"},
		{ID: "", Context: "c", Str: "empty id"},
		{ID: "d", Plural: "ds"},
		{ID: "a ", Str: "trail"},
	}
}

// c05Many are n messages in no order.
func c05Many(n int) (cat ents) {
	for k := 0; k < n; k++ {
		cat = append(cat, ent{ID: fmt.Sprintf("%x", (k*7919)%100003), Str: fmt.Sprint("t", k)})
	}
	return
}

func runC05(r *Run) {
	pool := moPool()
	cfgs := moCfgs()
	l := 3
	if r.Thorough {
		l = 5
	}
	n := seqCount(len(pool), l)
	r.Space("catalogs", "all sequences of messages of the pool up to the bound (header, fuzzy, obsolete, repeated, context, plural with 0-3 forms, empty, non-ASCII), every writer configuration, reader detecting or told the order", n*int64(len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		c := cfgs[d.N(len(cfgs))]
		var cat ents
		for _, j := range seqAt(len(pool), d.i) {
			cat = append(cat, cloneE(pool[j]))
		}
		if c.order == compile.LittleEndian && c.hash && c.depure && c.sort {
			w.Desc("%+v\n%s", c, dump(cat))
			w.State(w.desc)
		} else {
			w.desc = fmt.Sprintf("%+v\n%s", c, dump(cat))
		}
		return c05Check(w, cat, c)
	})
	richPairs(r, "pairs", "every fifth writer configuration (thorough: every one)", richMenu(), map[bool]int{false: 5, true: len(cfgs)}[r.Thorough], func(w *W, a, b ent, k int) error {
		return c05Check(w, ents{a, b}, cfgs[k*5%len(cfgs)])
	})
	mf := 6
	if r.Thorough {
		mf = 8
	}
	nf := int64(0)
	for k := 0; k <= mf; k++ {
		nf += pow(2, k) * fact(k)
	}
	r.Space("forms", "plural messages with every number of forms up to the bound, stored in every order, each form empty or not, every writer configuration", nf*int64(len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		c := cfgs[d.N(len(cfgs))]
		k := 0
		for d.i >= pow(2, k)*fact(k) {
			d.i -= pow(2, k) * fact(k)
			k++
		}
		empty := d.N(int(pow(2, k)))
		e := ent{ID: "id", Plural: "ids"}
		for _, j := range permAt(k, d.i) {
			f := pe{ID: j}
			if empty>>j&1 == 0 {
				f.Str = fmt.Sprintf("form %d", j)
			}
			e.Plurals = append(e.Plurals, f)
		}
		ec := cloneE(e)
		ec.Context = "ctx"
		cat := ents{{ID: "a", Str: "x"}, e, {ID: "ids", Str: "y"}, ec}
		w.Desc("%+v\n%s", c, dump(cat))
		if c == cfgs[0] {
			w.State(w.desc)
		}
		return c05Check(w, cat, c)
	})
	max := 140
	if r.Thorough {
		max = 420
	}
	r.Space("sizes", "catalogs of every number of messages up to the bound, every writer configuration", int64(max)*int64(len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		c := cfgs[d.N(len(cfgs))]
		n := int(d.i)
		var cat ents
		for k := n - 1; k >= 0; k-- {
			e := cloneE(pool[5+k%12])
			e.ID = fmt.Sprintf("%s%d", e.ID, (k*37)%n)
			cat = append(cat, e)
		}
		w.Desc("%d messages, %+v", n, c)
		w.State(fmt.Sprint(n))
		return c05Check(w, cat, c)
	})
	lens := []int{0, 1, 2, 3, 4, 7, 8, 15, 16, 63, 64, 127, 255, 256, 1023, 4000, 4067, 4068, 4069, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 70000}
	r.Space("lengths", "id, context, plural id and translation of every length of a list around buffer boundaries", prod(len(lens), 5, len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		n := lens[d.N(len(lens))]
		pos := d.N(5)
		c := cfgs[d.i]
		s := strings.Repeat("é1", n/3) + strings.Repeat("x", n%3)
		e := ent{ID: "id", Context: "c", Plural: "p", Plurals: pes{{ID: 0, Str: "0"}, {ID: 1, Str: "1"}}}
		switch pos {
		case 0:
			e.ID = s
		case 1:
			e.Context = s
		case 2:
			if e.Plural = s; s == "" {
				e.Plurals, e.Str = nil, "s"
			}
		case 3:
			e.Plurals[1].Str = s
		default:
			e.Plural, e.Plurals, e.Str = "", nil, s
		}
		w.Desc("length %d in position %d, %+v", n, pos, c)
		w.State(fmt.Sprint(n, pos))
		return c05Check(w, ents{{ID: "before", Str: "x"}, e, {ID: "zz", Str: "after"}}, c)
	})
	counts := []int{32767, 32768, 65535, 65536, 65537, 70001}
	r.Space("counts", "catalogs with a number of messages around the limits of 15 and 16 bits, every fifth writer configuration (thorough: every one)", int64(len(counts))*map[bool]int64{false: 5, true: int64(len(cfgs))}[r.Thorough], func(w *W, i int64) error {
		d := &Dec{i}
		n := counts[d.N(len(counts))]
		c := cfgs[d.i*5%int64(len(cfgs))]
		w.Desc("%d messages, %+v", n, c)
		w.State(w.desc)
		return c05Check(w, c05Many(n), c)
	})
	// All short strings in id and translation.
	alpha := []string{"a", "é", "\n", "\x7f", "\xff", " ", "\"", "\x05"}
	sl := 3
	r.Space("strings", "all strings over an alphabet with control, non-ASCII and non-UTF-8 bytes as id and as translation", seqCount(len(alpha), sl)*seqCount(len(alpha), 2)*2, func(w *W, i int64) error {
		d := &Dec{i}
		ctx := []string{"", "k"}[d.N(2)]
		var id, tr string
		for _, k := range seqAt(len(alpha), d.i%seqCount(len(alpha), sl)) {
			id += alpha[k]
		}
		for _, k := range seqAt(len(alpha), d.i/seqCount(len(alpha), sl)) {
			tr += alpha[k]
		}
		w.Desc("%q %q %q", ctx, id, tr)
		w.State(w.desc)
		return c05Check(w, ents{{ID: "m", Str: "x"}, {ID: id, Context: ctx, Str: tr}}, moCfg{byteOrders[i%3], true, true, true})
	})
}

func c06Check(w *W, cat ents, c moCfg, absent []string) error {
	data := compile.MoToBytes(cat, c.opts()...)
	w.Trans(1)
	m, err := readRefMo(data, refOrder(c.order))
	if err != nil {
		return err
	}
	for i := 1; i < m.n; i++ {
		if moKey(m.orig[i-1]) >= moKey(m.orig[i]) {
			return failf("order", "original strings are not strictly ascending: %q, %q", m.orig[i-1], m.orig[i])
		}
	}
	if c.hash && m.hashSize < 3 {
		return failf("hash-size", "hash table requested, size is %d", m.hashSize)
	}
	if !c.hash && m.hashSize != 0 {
		return failf("hash-size", "no hash table requested, size is %d", m.hashSize)
	}
	want := moImage(cat, true, true)
	present := map[string]bool{}
	for _, e := range want {
		k := refUID(e)
		present[k] = true
		t := e.Str
		if e.Plural != "" {
			var fs []string
			for _, f := range e.Plurals {
				fs = append(fs, f.Str)
			}
			t = strings.Join(fs, "\x00")
		}
		at := m.bsearch(k)
		if at < 0 || m.trans[at] != t {
			return failf("bsearch", "%q is not found by binary search with its translation %q (position %d)", k, t, at)
		}
		if c.hash {
			at := m.hsearch(k)
			if at < 0 || m.trans[at] != t {
				return failf("hash", "%q is not found through the hash table with its translation %q (result %d)", k, t, at)
			}
		}
	}
	for _, k := range absent {
		if present[k] {
			continue
		}
		if at := m.bsearch(k); at >= 0 {
			return failf("phantom", "%q is found by binary search but not in the catalog", k)
		}
		if c.hash {
			if at := m.hsearch(k); at != -1 {
				return failf("phantom", "looking up the absent %q in the hash table gives %d", k, at)
			}
		}
	}
	w.Trace()
	return nil
}

func runC06(r *Run) {
	cfgs := []moCfg{}
	for _, o := range byteOrders {
		cfgs = append(cfgs, moCfg{o, true, true, true}, moCfg{o, false, true, true})
	}
	// All sets of ids over a small alphabet.
	var ids []string
	alpha := []string{"a", "b", "é"}
	for i := int64(0); i < seqCount(len(alpha), 2); i++ {
		s := ""
		for _, k := range seqAt(len(alpha), i) {
			s += alpha[k]
		}
		ids = append(ids, s)
	}
	ids = append(ids, "q\x04a", "a\x04", "zzzzzzzzzz")
	absent := append([]string{"", "nope", "a ", "zz", "\x04", "c\x04a"}, ids...)
	n := len(ids)
	mk := func(set int64, rot int) ents {
		var cat ents
		for k := 0; k < n; k++ {
			j := (k*5 + rot) % n
			if set>>j&1 == 0 {
				continue
			}
			e := ent{ID: ids[j], Str: "T" + ids[j]}
			if i := strings.IndexByte(e.ID, 4); i >= 0 {
				e.Context, e.ID = e.ID[:i], e.ID[i+1:]
			}
			if j%4 == 3 {
				e.Plural, e.Plurals, e.Str = "P", pes{{ID: 0, Str: "p0" + e.ID}, {ID: 1, Str: "p1"}}, ""
			}
			cat = append(cat, e)
		}
		return cat
	}
	r.Space("sets", "every subset of 16 ids (all strings of length 0-2 over {a, b, e-acute}, ids with context, one long), two insertion orders, every byte order, with and without hash table", pow(2, n)*int64(len(cfgs))*2, func(w *W, i int64) error {
		d := &Dec{i}
		c := cfgs[d.N(len(cfgs))]
		rot := d.N(2) * 7
		cat := mk(d.i, rot)
		if c == cfgs[0] {
			w.State(fmt.Sprint(d.i))
		}
		w.Desc("%+v\n%s", c, dump(cat))
		return c06Check(w, cat, c, absent)
	})
	// Colliding hashes: pairs of strings "xy" with the same value 16*x+y.
	var coll []string
	for x := byte('A'); x <= 'Z'; x++ {
		y := int('z') - 16*int(x-'A')
		if y >= 0x21 && y < 0x7f {
			coll = append(coll, string([]byte{x, byte(y)}))
		}
	}
	base := coll
	coll = nil
	for _, a := range base {
		for _, b := range base {
			coll = append(coll, a+b, a+b+"q", "\xf0"+a+b)
		}
	}
	r.Space("collisions", "all prefixes and windows of a list of ids grouped in classes with equal hash values", int64(len(coll)*len(coll))*int64(len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		c := cfgs[d.N(len(cfgs))]
		lo, l := d.N(len(coll)), int(d.i)
		if lo+l > len(coll) {
			return nil
		}
		var cat ents
		for _, s := range coll[lo : lo+l] {
			cat = append(cat, ent{ID: s, Str: "T" + s})
		}
		w.Desc("%d colliding ids from %d, %+v", l, lo, c)
		w.State(fmt.Sprint(lo, l))
		return c06Check(w, cat, c, coll)
	})
	max := 600
	if r.Thorough {
		max = 2500
	}
	r.Space("sizes", "catalogs of every number of messages up to the bound", int64(max)*int64(len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		c := cfgs[d.N(len(cfgs))]
		n := int(d.i)
		var cat ents
		for k := 0; k < n; k++ {
			cat = append(cat, ent{ID: fmt.Sprintf("message %d é", (k*7919)%100003), Str: fmt.Sprint(k)})
		}
		w.Desc("%d messages, %+v", n, c)
		w.State(fmt.Sprint("size", n))
		return c06Check(w, cat, c, absent)
	})
	pool := moPool()
	r.Space("catalogs", "all sequences of up to 3 messages of the C05 pool", seqCount(len(pool), 3)*int64(len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		c := cfgs[d.N(len(cfgs))]
		var cat ents
		for _, j := range seqAt(len(pool), d.i) {
			cat = append(cat, cloneE(pool[j]))
		}
		w.Desc("%+v\n%s", c, dump(cat))
		w.State(dump(cat))
		return c06Check(w, cat, c, absent)
	})
	richPairs(r, "pairs", "every byte order, with and without hash table", richMenu(), len(cfgs), func(w *W, a, b ent, k int) error {
		return c06Check(w, ents{a, b, {ID: "z", Str: "last"}}, cfgs[k], absent)
	})
	counts := []int{32767, 65535, 65536, 65537, 70001}
	r.Space("counts", "catalogs with a number of messages around the limits of 15 and 16 bits", int64(len(counts)*len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		n := counts[d.N(len(counts))]
		w.Desc("%d messages, %+v", n, cfgs[d.i])
		w.State(w.desc)
		return c06Check(w, c05Many(n), cfgs[d.i], absent)
	})
	lens := []int{0, 1, 100, 255, 256, 4000, 4096, 5000, 65536, 1 << 20}
	r.Space("lengths", "ids of lengths up to 1 MiB, with bytes of every value", prod(len(lens), 255, len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		n := lens[d.N(len(lens))]
		v := d.N(255) + 1
		if v == 4 {
			return nil
		}
		if n > 5000 && v%50 != 0 {
			return nil
		}
		c := cfgs[d.i]
		s := strings.Repeat(string([]byte{byte(v)}), n)
		w.Desc("%d bytes %#x, %+v", n, v, c)
		w.State(fmt.Sprint(n, v))
		return c06Check(w, ents{{ID: s + "b", Str: "1"}, {ID: s + "a", Str: "2"}, {ID: "k", Str: "3"}}, c, absent)
	})
}
