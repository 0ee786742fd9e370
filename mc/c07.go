// C07: a damaged MO file is reported, never silently misread.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C07"] = propDef{
		level: "fault_enumeration",
		rule:  "a case is one damaged MO file (truncation point, or one or two header/table words replaced) read under one byte-order setting; two cases are different if the damaged bytes or the setting differ",
		notes: []string{
			"oracle: an independent lenient reader says whether every table and string the damaged file declares lies inside the file; if not an error is required, if so the reader must report an error or return exactly what the file then says",
			"the hash table is not needed for reading; damage confined to it need not be reported",
		},
		run: runC07,
	}
}

// lenientMo reads an MO file with no check but bounds; bad says what is outside.
func lenientMo(b []byte, bo binary.ByteOrder) (out ents, bad string) {
	if len(b) < 28 {
		return nil, "shorter than the header"
	}
	u := func(at uint64) uint64 { return uint64(bo.Uint32(b[at:])) }
	if u(0) != 0x950412de {
		return nil, "magic number"
	}
	n, ot, tt, size := u(8), u(12), u(16), uint64(len(b))
	if ot+8*n > size {
		return nil, "original table"
	}
	if tt+8*n > size {
		return nil, "translation table"
	}
	for i := uint64(0); i < n; i++ {
		ol, oo, tl, to := u(ot+8*i), u(ot+8*i+4), u(tt+8*i), u(tt+8*i+4)
		if oo+ol > size {
			return nil, fmt.Sprintf("original string %d", i)
		}
		if to+tl > size {
			return nil, fmt.Sprintf("translation %d", i)
		}
		k, t := string(b[oo:oo+ol]), string(b[to:to+tl])
		var e ent
		if j := strings.IndexByte(k, 4); j >= 0 {
			e.Context, k = k[:j], k[j+1:]
		}
		if !strings.Contains(k, "\x00") && !strings.Contains(t, "\x00") {
			e.ID, e.Str = k, t
		} else {
			ks := strings.Split(k, "\x00")
			e.ID = ks[0]
			if len(ks) > 1 {
				e.Plural = ks[1]
			}
			for f, s := range strings.Split(t, "\x00") {
				e.Plurals = append(e.Plurals, pe{ID: f, Str: s})
			}
		}
		out = append(out, e)
	}
	return out, ""
}

// c07Check reads b under the given order setting and judges the answer.
func c07Check(w *W, b []byte, o parse.Endianness) error {
	var want ents
	var bad string
	le, badLe := lenientMo(b, binary.LittleEndian)
	be, badBe := lenientMo(b, binary.BigEndian)
	switch o {
	case parse.LittleEndian:
		want, bad = le, badLe
	case parse.BigEndian:
		want, bad = be, badBe
	default:
		want, bad = le, badLe
		if badLe == "magic number" {
			want, bad = be, badBe
		}
	}
	p := parse.NewMoFromBytes(b, "x.mo", parse.MoWithEndianness(o))
	f := p.Parse()
	w.Trans(1)
	w.Trace()
	n := len(p.Errors())
	f2, err2 := parse.MoFromBytes(b, "x.mo", parse.MoWithEndianness(o))
	if (err2 == nil) != (n == 0) {
		return failf("api", "Parse reports %v but MoFromBytes %v", p.Errors(), err2)
	}
	if bad != "" {
		w.Outcome(strings.TrimRight(bad, "0123456789"))
		if n == 0 {
			return failf("unreported", "%s is damaged but no error is reported; returned:\n%s", bad, dump(f.Entries))
		}
	} else if n == 0 {
		w.Outcome("readable")
		if f == nil || f2 == nil {
			return failf("nil", "no error and no result")
		}
		if err := sameEntries("misread", "read differs from what the file says", f.Entries, want); err != nil {
			return err
		}
	} else {
		w.Outcome("reported though in range")
	}
	// The same parser again reports the same.
	p.Parse()
	if len(p.Errors()) != n {
		return failf("errors-accumulate", "%d errors first, %d after parsing again", n, len(p.Errors()))
	}
	return nil
}

func c07Samples() [][]byte {
	cats := []ents{
		{},
		{{ID: "a", Str: "b"}},
		{{Str: "Language: es\n"}, {ID: "one", Str: "uno"}, {ID: "two", Context: "ctx", Str: "dos"}, {ID: "d", Plural: "ds", Plurals: pes{{ID: 0, Str: "x"}, {ID: 1, Str: "yy"}}}},
		{{ID: "a", Str: ""}, {ID: "", Context: "x", Str: "q"}, {ID: "e", Str: "é"}},
		{{ID: strings.Repeat("long", 300), Str: strings.Repeat("lang", 300)}, {ID: "z", Str: "y"}},
	}
	var out [][]byte
	for _, c := range cats {
		for _, o := range []compile.Endianness{compile.LittleEndian, compile.BigEndian} {
			for _, h := range []bool{true, false} {
				out = append(out, compile.MoToBytes(c, compile.MoWithEndianness(o), compile.MoWithHashTable(h)))
			}
		}
	}
	return out
}

// layMo writes an MO file with its five parts (original table, translation table,
// hash table, originals, translations) in the given order.
func layMo(cat ents, order []int, gap int, share bool, be bool) []byte {
	var bo binary.ByteOrder = binary.LittleEndian
	if be {
		bo = binary.BigEndian
	}
	n := len(cat)
	var ids, strs []byte
	var idAt, strAt []int
	var idLen, strLen []int
	for _, e := range cat {
		k := e.ID
		if e.Context != "" {
			k = e.Context + "\x04" + k
		}
		t := e.Str
		if e.Plural != "" {
			k += "\x00" + e.Plural
			t = ""
			for j, p := range e.Plurals {
				if j > 0 {
					t += "\x00"
				}
				t += p.Str
			}
		}
		if j := strings.Index(string(ids), k+"\x00"); share && j >= 0 && len(ids) > 0 {
			idAt = append(idAt, j)
		} else {
			idAt = append(idAt, len(ids))
			ids = append(append(ids, k...), 0)
		}
		strAt = append(strAt, len(strs))
		strs = append(append(strs, t...), 0)
		idLen, strLen = append(idLen, len(k)), append(strLen, len(t))
	}
	size := [5]int{8 * n, 8 * n, 12, len(ids), len(strs)}
	var off [5]int
	at := 28
	for _, p := range order {
		at += gap
		off[p] = at
		at += size[p]
	}
	b := make([]byte, at)
	put := func(at int, v uint32) { bo.PutUint32(b[at:], v) }
	for k, v := range []int{0x950412de, 0, n, off[0], off[1], 3, off[2]} {
		put(4*k, uint32(v))
	}
	for k := range cat {
		put(off[0]+8*k, uint32(idLen[k]))
		put(off[0]+8*k+4, uint32(off[3]+idAt[k]))
		put(off[1]+8*k, uint32(strLen[k]))
		put(off[1]+8*k+4, uint32(off[4]+strAt[k]))
	}
	copy(b[off[3]:], ids)
	copy(b[off[4]:], strs)
	return b
}

func runC07(r *Run) {
	orders := []parse.Endianness{parse.NativeEndian, parse.LittleEndian, parse.BigEndian}
	samples := c07Samples()
	max := 0
	for _, s := range samples {
		if len(s) > max {
			max = len(s)
		}
	}
	r.Space("truncation", "every truncation point of MO files of five catalogs, both byte orders, with and without hash table, under every reader setting; the uncut file must be read without error", prod(len(samples), max+1, 3), func(w *W, i int64) error {
		d := &Dec{i}
		si, o, at := d.N(len(samples)), d.N(3), 0
		s := samples[si]
		at = int(d.i)
		if at > len(s) {
			return nil
		}
		w.Desc("sample %d cut at %d of %d, order %v", si, at, len(s), orders[o])
		w.State(w.desc)
		little := si/2%2 == 0
		if at == len(s) && (o == 0 || (o == 1) == little) {
			if _, err := parse.MoFromBytes(s, "x.mo", parse.MoWithEndianness(orders[o])); err != nil {
				return failf("undamaged", "an undamaged file gives error %v", err)
			}
		}
		return c07Check(w, append([]byte{}, s[:at]...), orders[o])
	})
	// Other orders of the parts of a file, as other tools write them.
	type layout struct {
		order []int
		gap   int
		share bool
	}
	var layouts []layout
	for k := int64(0); k < fact(5); k++ {
		for _, gap := range []int{0, 4} {
			for _, share := range []bool{false, true} {
				layouts = append(layouts, layout{permAt(5, k), gap, share})
			}
		}
	}
	lcat := ents{{Str: "L: es\n"}, {ID: "a", Str: "b"}, {ID: "d", Context: "c", Plural: "ds", Plurals: pes{{ID: 0, Str: "x"}, {ID: 1, Str: "yy"}}}}
	r.Space("layouts", "files with their tables, hash table, originals and translations in every order, with and without gaps and shared strings, cut after every byte; the uncut file must be read without error", int64(len(layouts))*6*400, func(w *W, i int64) error {
		d := &Dec{i}
		l, be, o, at := layouts[d.N(len(layouts))], d.B(), d.N(3), 0
		b := layMo(lcat, l.order, l.gap, l.share, be)
		if at = int(d.i); at > len(b) {
			return nil
		}
		w.Desc("parts %v gap %d shared %v big %v, cut at %d of %d, order %v", l.order, l.gap, l.share, be, at, len(b), orders[o])
		w.State(w.desc)
		if at == len(b) && (o == 0 || (o == 2) == be) {
			if _, err := parse.MoFromBytes(b, "x.mo", parse.MoWithEndianness(orders[o])); err != nil {
				return failf("undamaged", "an undamaged file gives error %v", err)
			}
		}
		return c07Check(w, b[:at:at], orders[o])
	})
	r.Space("huge", "files with a text of sizes around the powers of two from 4 KiB to 16 MiB, whole or cut before the last byte, read from memory, a stream, a path and a file; the uncut file must be read without error", prod(13, 3, 2, 2, 2), func(w *W, i int64) error {
		d := &Dec{i}
		n, id, cut, be := 1<<(12+d.N(13))+d.N(3)-1, d.B(), d.B(), d.B()
		cat := ents{{ID: "a", Str: strings.Repeat("t", n)}, {ID: "z", Str: "Z"}}
		if id {
			cat = ents{{ID: "a" + strings.Repeat("t", n-1), Str: "A"}, {ID: "z", Str: "Z"}}
		}
		b := layMo(cat, []int{0, 1, 2, 3, 4}, 0, false, be)
		if cut {
			b = b[:len(b)-2]
		}
		w.Desc("text of %d bytes, as id %v, cut %v, big %v", n, id, cut, be)
		w.State(w.desc)
		w.Trace()
		p := filepath.Join(r.Scratch, fmt.Sprintf("huge-%d.mo", w.ID()))
		if err := os.WriteFile(p, b, 0o600); err != nil {
			return failf("env", "%v", err)
		}
		defer os.Truncate(p, 0)
		fd, err := os.Open(p)
		if err != nil {
			return failf("env", "%v", err)
		}
		defer fd.Close()
		for name, read := range map[string]func() (*po.File, error){
			"memory": func() (*po.File, error) { return parse.MoFromBytes(b, p) },
			"stream": func() (*po.File, error) { return parse.MoFromReader(bytes.NewReader(b), p) },
			"path":   func() (*po.File, error) { return parse.Mo(p) },
			"file":   func() (*po.File, error) { return parse.MoFromFile(fd, parse.MoWithEndianness(parse.NativeEndian)) },
		} {
			f, err := read()
			w.Trans(1)
			if cut {
				if err == nil {
					return failf("unreported", "read from %s: the file is damaged but no error is reported", name)
				}
				continue
			}
			if err != nil {
				return failf("undamaged", "read from %s: an undamaged file gives error %v", name, err)
			}
			if len(f.Entries) != 2 || f.Entries[0].ID != cat[0].ID || f.Entries[0].Str != cat[0].Str || f.Entries[1].ID != "z" || f.Entries[1].Str != "Z" {
				return failf("misread", "read from %s: other messages than the file has", name)
			}
		}
		return nil
	})
	small := samples[8] // four messages, little endian, hash
	smallBE := samples[10]
	words := 7 + 2*2*4
	var vals []uint32
	for v := uint32(0); v <= uint32(len(small))+9; v++ {
		vals = append(vals, v)
	}
	for k := uint(8); k < 32; k++ {
		for _, dlt := range []uint32{0xffffffff, 0, 1, 8} {
			vals = append(vals, 1<<k+dlt)
		}
	}
	for d := uint32(1); d <= uint32(len(small))+1; d++ {
		vals = append(vals, -d)
	}
	vals = append(vals, 0x950412de, 0xde120495)
	put := func(b []byte, be bool, at int, v uint32) {
		if be {
			binary.BigEndian.PutUint32(b[at*4:], v)
		} else {
			binary.LittleEndian.PutUint32(b[at*4:], v)
		}
	}
	r.Space("words", "every header and table word replaced by every value up to past the end of the file, its negations, and around every power of two; both byte orders, every reader setting", prod(2, 3, words, len(vals)), func(w *W, i int64) error {
		d := &Dec{i}
		be, o, at, v := d.B(), d.N(3), d.N(words), vals[d.i]
		s := small
		if be {
			s = smallBE
		}
		b := append([]byte{}, s...)
		put(b, be, at, v)
		w.Desc("word %d = %#x, big=%v, order %v", at, v, be, orders[o])
		w.State(w.desc)
		return c07Check(w, b, orders[o])
	})
	pv := []uint32{0, 1, 2, 3, 5, 28, 60, uint32(len(small)) - 8, uint32(len(small)) - 1, uint32(len(small)), uint32(len(small)) + 1, 1 << 29, 1<<29 + 1, 1<<31 - 1, 1 << 31, 0xffffffff - 30, 0xfffffff8, 0xffffffff}
	step := uint32(16)
	if r.Thorough {
		step = 4
	}
	for v := uint32(4); v < uint32(len(small)); v += step {
		pv = append(pv, v)
	}
	r.Space("word-pairs", "every pair of words replaced by every pair of boundary values (an offset and a length that only together leave the file, or overflow)", prod(2, words, words, len(pv), len(pv)), func(w *W, i int64) error {
		d := &Dec{i}
		be, a1, a2, v1, v2 := d.B(), d.N(words), d.N(words), pv[d.N(len(pv))], pv[d.N(len(pv))]
		if a1 >= a2 {
			return nil
		}
		s := small
		if be {
			s = smallBE
		}
		b := append([]byte{}, s...)
		put(b, be, a1, v1)
		put(b, be, a2, v2)
		w.Desc("words %d=%#x %d=%#x big=%v", a1, v1, a2, v2, be)
		w.State(w.desc)
		return c07Check(w, b, orders[0])
	})
	r.Space("word-and-cut", "every word replaced by every boundary value in every truncated file", prod(2, words, len(pv), len(small)), func(w *W, i int64) error {
		d := &Dec{i}
		be, a1, v1, cut := d.B(), d.N(words), pv[d.N(len(pv))], int(d.i)
		s := small
		if be {
			s = smallBE
		}
		b := append([]byte{}, s...)
		put(b, be, a1, v1)
		w.Desc("word %d=%#x cut at %d big=%v", a1, v1, cut, be)
		w.State(w.desc)
		return c07Check(w, b[:cut:cut], orders[0])
	})
	r.Space("magic", "every one- and two-bit change and every byte permutation of the magic number", 2*3*(32*32+256), func(w *W, i int64) error {
		d := &Dec{i}
		be, o, k := d.B(), d.N(3), int(d.i)
		s := small
		if be {
			s = smallBE
		}
		b := append([]byte{}, s...)
		if k < 1024 {
			b[k%32/8] ^= 1 << (k % 8)
			if k/32 != k%32 {
				b[k/32/8] ^= 1 << (k / 32 % 8)
			}
		} else {
			k -= 1024
			for j := 0; j < 4; j++ {
				b[j] = s[k>>(2*j)&3]
			}
		}
		w.Desc("magic % x, order %v", b[:4], orders[o])
		w.State(w.desc)
		return c07Check(w, b, orders[o])
	})
	// Histories on one parser object.
	var bads [][]byte
	bads = append(bads, small, smallBE, small[:40], smallBE[:len(smallBE)-9], []byte("junk"), nil)
	l := 4
	if r.Thorough {
		l = 6
	}
	r.Space("histories", "every sequence of parses of one parser object under different byte-order options: each reports only its own problems", int64(len(bads))*seqCount(3, l), func(w *W, i int64) error {
		d := &Dec{i}
		b := bads[d.N(len(bads))]
		seq := seqAt(3, d.i)
		w.Desc("%d bytes, orders %v", len(b), seq)
		w.State(w.desc)
		p := parse.NewMoFromBytes(b, "x.mo")
		for _, k := range seq {
			f := p.ParseWithOptions(parse.MoWithEndianness(orders[k]))
			fresh := parse.NewMoFromBytes(b, "x.mo", parse.MoWithEndianness(orders[k]))
			g := fresh.Parse()
			w.Trans(2)
			w.Trace()
			if fmt.Sprint(p.Errors()) != fmt.Sprint(fresh.Errors()) {
				return failf("history-errors", "after %v: errors %v, a fresh parser reports %v", seq, p.Errors(), fresh.Errors())
			}
			if (f == nil) != (g == nil) {
				return failf("history", "after %v: result %v, fresh %v", seq, f, g)
			}
			if f != nil {
				if err := sameEntries("history", "result differs from a fresh parser", f.Entries, g.Entries); err != nil {
					return err
				}
			}
		}
		return nil
	})
}
