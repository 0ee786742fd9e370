// C13: equality of catalogs and entries detects exactly real differences.
package main

import (
	"fmt"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func init() {
	props["C13"] = propDef{
		level: "model_checking",
		notes: []string{
			"an empty list and a nil list count as equal",
			"for the comparison of single entries the translation is the singular string or the plural strings in index order (forms numbered 0..n-1; a single form and a singular string are not compared with each other)",
			"oracle: equality of canonical texts that quote every exported field",
		},
		run: runC13,
	}
}

// c13Fields set one field of an entry to one of several values.
var c13Fields = []struct {
	name string
	vals []func(*ent)
}{
	{"Flags", []func(*ent){func(e *ent) { e.Flags = strs("fuzzy") }, func(e *ent) { e.Flags = strs("fuzzy", "x") }, func(e *ent) { e.Flags = strs("x", "fuzzy") }, func(e *ent) { e.Flags = strs("") }}},
	{"Comments", []func(*ent){func(e *ent) { e.Comments = strs("a") }, func(e *ent) { e.Comments = strs("a", "b") }, func(e *ent) { e.Comments = strs("b", "a") }, func(e *ent) { e.Comments = strs("") }, func(e *ent) { e.Comments = strs("ab") }}},
	{"ExtractedComments", []func(*ent){func(e *ent) { e.ExtractedComments = strs("a") }, func(e *ent) { e.ExtractedComments = strs("a", "b") }, func(e *ent) { e.ExtractedComments = strs("a", "c") }, func(e *ent) { e.ExtractedComments = strs("") }}},
	{"Previous", []func(*ent){func(e *ent) { e.Previous = strs("a") }, func(e *ent) { e.Previous = strs("a", "b") }, func(e *ent) { e.Previous = strs("", "a") }}},
	{"Obsolete", []func(*ent){func(e *ent) { e.Obsolete = true }}},
	{"ID", []func(*ent){func(e *ent) { e.ID = "a" }, func(e *ent) { e.ID = "A" }, func(e *ent) { e.ID = "a " }, func(e *ent) { e.ID = "b" }}},
	{"Context", []func(*ent){func(e *ent) { e.Context = "a" }, func(e *ent) { e.Context = "b" }, func(e *ent) { e.Context = "ab" }}},
	{"Plural", []func(*ent){func(e *ent) { e.Plural = "a" }, func(e *ent) { e.Plural = "b" }}},
	{"Plurals", []func(*ent){
		func(e *ent) { e.Plurals = pes{{ID: 0, Str: "a"}, {ID: 1, Str: "b"}} },
		func(e *ent) { e.Plurals = pes{{ID: 0, Str: "b"}, {ID: 1, Str: "a"}} },
		func(e *ent) { e.Plurals = pes{{ID: 0, Str: "a"}, {ID: 1, Str: "b"}, {ID: 2, Str: ""}} },
		func(e *ent) { e.Plurals = pes{{ID: 0, Str: "a"}, {ID: 2, Str: "b"}} },
		func(e *ent) { e.Plurals = pes{{ID: 0, Str: ""}, {ID: 1, Str: "b"}} },
	}},
	{"Str", []func(*ent){func(e *ent) { e.Str = "a" }, func(e *ent) { e.Str = "b" }, func(e *ent) { e.Str = "a\n" }}},
	{"Locations", []func(*ent){
		func(e *ent) { e.Locations = locs{{Line: 1, File: "f"}} },
		func(e *ent) { e.Locations = locs{{Line: 2, File: "f"}} },
		func(e *ent) { e.Locations = locs{{Line: 1, File: "g"}} },
		func(e *ent) { e.Locations = locs{{Line: 1, File: "f"}, {Line: 2, File: "f"}} },
		func(e *ent) { e.Locations = locs{{Line: 2, File: "f"}, {Line: 1, File: "f"}} },
	}},
}

// c13Entries are all entries with up to two fields set.
func c13Entries() (out ents) {
	out = append(out, ent{})
	for i, f := range c13Fields {
		for _, v := range f.vals {
			var e ent
			v(&e)
			out = append(out, e)
			for _, g := range c13Fields[i+1:] {
				for _, u := range g.vals {
					x := cloneE(e)
					u(&x)
					out = append(out, x)
				}
			}
		}
	}
	return
}

// entryEq is the documented equality of two single entries; ok is false if it is not settled.
func entryEq(a, b ent) (eq, ok bool) {
	t := func(e ent) (string, bool) {
		if e.Str != "" && len(e.Plurals) > 0 || len(e.Plurals) == 1 {
			return "", false
		}
		for i, p := range e.Plurals {
			if p.ID != i {
				return "", false
			}
		}
		var fs []string
		for _, p := range e.Plurals {
			fs = append(fs, p.Str)
		}
		return e.Str + strings.Join(fs, "\x00"), true
	}
	ta, oka := t(a)
	tb, okb := t(b)
	if !oka || !okb || (len(a.Plurals) > 0) != (len(b.Plurals) > 0) && ta == tb {
		return false, false
	}
	return refUID(a) == refUID(b) && a.Plural == b.Plural && ta == tb && a.Obsolete == b.Obsolete && strings.Join(a.Flags, "\x00") == strings.Join(b.Flags, "\x00") && len(a.Flags) == len(b.Flags), true
}

func checkEq(what string, got, want bool, show string) error {
	if got != want {
		return failf("equal", "%s = %v, expected %v\n%s", what, got, want, show)
	}
	return nil
}

func runC13(r *Run) {
	all := c13Entries()
	n := len(all)
	step := 1
	if !r.Thorough {
		step = 2
	}
	r.Space("entries", "all pairs of entries with up to two of eleven fields set to one of several values, compared as single entries, as lists and as files, in both directions", int64(n)*int64((n+step-1)/step), func(w *W, i int64) error {
		d := &Dec{i}
		a, b := all[d.N(n)], all[int(d.i)*step]
		w.desc = dumpE(a) + "\n" + dumpE(b)
		w.State(w.desc)
		w.Trans(6)
		w.Trace()
		eq := dumpE(a) == dumpE(b)
		for _, p := range [][2]ent{{a, b}, {b, a}, {cloneE(a), cloneE(b)}} {
			if err := checkEq("Entries.Equal", ents{p[0]}.Equal(ents{p[1]}), eq, w.desc); err != nil {
				return err
			}
			if we, ok := entryEq(p[0], p[1]); ok {
				if err := checkEq("Entry.Equal", p[0].Equal(p[1]), we, w.desc); err != nil {
					return err
				}
			}
			if p[0].Equal(p[1]) != p[1].Equal(p[0]) {
				return failf("symmetry", "Entry.Equal is not symmetric\n%s", w.desc)
			}
		}
		if !a.Equal(a) {
			return failf("reflexive", "Entry.Equal is not reflexive\n%s", dumpE(a))
		}
		f, g := po.File{Name: "x", Entries: ents{a}}, po.File{Name: "x", Entries: ents{b}}
		if err := checkEq("File.Equal", f.Equal(g), eq, w.desc); err != nil {
			return err
		}
		g.Name = "y"
		return checkEq("File.Equal with another name", f.Equal(g), false, w.desc)
	})
	richPairs(r, "pairs", "compared as single entries, lists and files", append(richMenu(), oddEntries()...), 1, func(w *W, a, b ent, k int) error {
		w.Trans(4)
		w.Trace()
		eq := dumpE(a) == dumpE(b)
		if err := checkEq("Entries.Equal", ents{a}.Equal(ents{b}), eq, w.desc); err != nil {
			return err
		}
		if err := checkEq("File.Equal", po.File{Name: "x", Entries: ents{b, a}}.Equal(po.File{Name: "x", Entries: ents{b, b}}), eq, w.desc); err != nil {
			return err
		}
		if err := checkEq("Plurals.Equal", a.Plurals.Equal(b.Plurals), dumpE(ent{Plurals: a.Plurals}) == dumpE(ent{Plurals: b.Plurals}), w.desc); err != nil {
			return err
		}
		if err := checkEq("Locations.Equal", a.Locations.Equal(b.Locations), dumpE(ent{Locations: a.Locations}) == dumpE(ent{Locations: b.Locations}), w.desc); err != nil {
			return err
		}
		if we, ok := entryEq(a, b); ok {
			if err := checkEq("Entry.Equal", a.Equal(b), we, w.desc); err != nil {
				return err
			}
		}
		if a.Equal(b) != b.Equal(a) || !a.Equal(a) {
			return failf("symmetry", "Entry.Equal is not symmetric or not reflexive\n%s", w.desc)
		}
		return nil
	})
	some := []ent{}
	for k := 0; k < n; k += n/7 + 1 {
		some = append(some, all[k])
	}
	some = append(some, all[1])
	m := len(some)
	l := 3
	r.Space("lists", "all pairs of lists of up to 3 over 8 entries (equal or not element by element)", seqCount(m, l)*seqCount(m, l), func(w *W, i int64) error {
		d := &Dec{i}
		ns := seqCount(m, l)
		mk := func(i int64) (es ents) {
			for _, j := range seqAt(m, i) {
				es = append(es, cloneE(some[j]))
			}
			return
		}
		ia, ib := d.i%ns, d.i/ns
		a, b := mk(ia), mk(ib)
		w.desc = fmt.Sprint(ia, ib)
		w.Trans(2)
		w.Trace()
		if err := checkEq("Entries.Equal", a.Equal(b), ia == ib, dump(a)+"\n--\n"+dump(b)); err != nil {
			return err
		}
		return checkEq("File.Equal", po.File{Name: "n", Entries: a}.Equal(po.File{Name: "n", Entries: b}), ia == ib, dump(a)+"\n--\n"+dump(b))
	})
	// One difference at every position of a long list, in every field.
	nf := 0
	for _, f := range c13Fields {
		nf += len(f.vals)
	}
	r.Space("positions", "lists of up to 40 entries that differ in one field of one entry, at every position", prod(40, 40, nf), func(w *W, i int64) error {
		d := &Dec{i}
		k := d.N(nf)
		n, at := d.N(40)+1, d.N(40)
		if at >= n {
			return nil
		}
		var a, b ents
		for j := 0; j < n; j++ {
			e := ent{ID: "base", Str: "s", Comments: strs("c"), Locations: locs{{Line: 9, File: "z"}}, Plurals: pes{{ID: 7, Str: "z"}}, Flags: strs("q"), Previous: strs("q"), ExtractedComments: strs("q")}
			a, b = append(a, cloneE(e)), append(b, cloneE(e))
		}
		if !a.Equal(b) {
			return failf("equal", "equal lists of %d entries are not equal", n)
		}
		name := ""
		for _, f := range c13Fields {
			if k < len(f.vals) {
				f.vals[k](&b[at])
				name = f.name
				break
			}
			k -= len(f.vals)
		}
		w.Desc("%d entries, %s of entry %d", n, name, at)
		w.State(w.desc)
		w.Trans(2)
		w.Trace()
		if a.Equal(b) || b.Equal(a) {
			return failf("equal", "a difference in %s of entry %d of %d is not seen:\n%s\n%s", name, at, n, dumpE(a[at]), dumpE(b[at]))
		}
		return nil
	})
	// Values that share memory.
	r.Space("aliases", "all pairs of windows of one backing list of up to 6 elements from 2 values, for entries, strings inside entries, plural forms and references; an object with itself", pow(2, 6)*prod(7, 7, 7, 7), func(w *W, i int64) error {
		d := &Dec{i}
		bits := d.N(64)
		a0, a1, b0, b1 := d.N(7), d.N(7), d.N(7), d.N(7)
		if a1 < a0 || b1 < b0 || a1 > 6 || b1 > 6 {
			return nil
		}
		w.Desc("values %06b windows [%d:%d] [%d:%d]", bits, a0, a1, b0, b1)
		w.State(w.desc)
		w.Trans(6)
		w.Trace()
		var es ents
		var ps pes
		var ls locs
		var ss []string
		for k := 0; k < 6; k++ {
			v := bits >> k & 1
			es = append(es, []ent{{ID: "a", Comments: strs("c")}, {ID: "a", Comments: strs("d")}}[v])
			ps = append(ps, []pe{{ID: 1, Str: "x"}, {ID: 1, Str: "y"}}[v])
			ls = append(ls, []loc{{Line: 1, File: "x"}, {Line: 2, File: "x"}}[v])
			ss = append(ss, []string{"p", "q"}[v])
		}
		eq := a1-a0 == b1-b0
		for k := 0; eq && k < a1-a0; k++ {
			eq = bits>>(a0+k)&1 == bits>>(b0+k)&1
		}
		for k, g := range []bool{
			es[a0:a1].Equal(es[b0:b1]), ps[a0:a1].Equal(ps[b0:b1]), ls[a0:a1].Equal(ls[b0:b1]),
			ents{{ID: "x", Comments: ss[a0:a1]}}.Equal(ents{{ID: "x", Comments: ss[b0:b1]}}),
			ents{{ID: "x", Plurals: ps[a0:a1]}}.Equal(ents{{ID: "x", Plurals: ps[b0:b1]}}),
			ents{{ID: "x", Locations: ls[a0:a1], Flags: ss[a0:a1]}}.Equal(ents{{ID: "x", Locations: ls[b0:b1], Flags: ss[b0:b1]}}),
			po.File{Name: "f", Entries: es[a0:a1]}.Equal(po.File{Name: "f", Entries: es[b0:b1]}),
		} {
			if g != eq {
				return failf("alias", "comparison %d of windows [%d:%d] and [%d:%d] of %06b gives %v", k, a0, a1, b0, b1, bits, g)
			}
		}
		// Two entries of one list that share their parts with the other list crosswise.
		x := ents{{ID: "x", Flags: ss[a0:a1]}, {ID: "y", Flags: ss[b0:b1]}}
		y := ents{{ID: "x", Flags: ss[b0:b1]}, {ID: "y", Flags: ss[a0:a1]}}
		if x.Equal(y) != eq || !x.Equal(x) || !es.Equal(es) {
			return failf("alias", "lists sharing their parts crosswise: %v, expected %v", x.Equal(y), eq)
		}
		return nil
	})
	// Names of files.
	nl := []string{"", "x", "X", "x.po", "./x.po", "a/x.po", "b/x.po", "a//x.po", "/x.po", "x.po/", "a/../x.po", "x.PO", " x.po", "x.po ", "x.mo", ".", "..", "-", "/", "x.po\x00", "e\u0301", "\u00e9", "\xe9"}
	r.Space("names", "all pairs of names of files, with equal and with different entries, also as the files of references", prod(len(nl), len(nl), 2), func(w *W, i int64) error {
		d := &Dec{i}
		x, y, same := nl[d.N(len(nl))], nl[d.N(len(nl))], d.B()
		w.Desc("%q %q same entries: %v", x, y, same)
		w.State(w.desc)
		w.Trans(3)
		w.Trace()
		f, g := po.File{Name: x, Entries: ents{{ID: "a", Str: "b"}}}, po.File{Name: y, Entries: ents{{ID: "a", Str: "b"}}}
		if !same {
			g.Entries[0].Comments = strs("c")
		}
		if err := checkEq("File.Equal", f.Equal(g), same && x == y, w.desc); err != nil {
			return err
		}
		a, b := ents{{ID: "a", Locations: locs{{File: x, Line: 1}}}}, ents{{ID: "a", Locations: locs{{File: y, Line: 1}}}}
		if err := checkEq("Entries.Equal", a.Equal(b), x == y, w.desc); err != nil {
			return err
		}
		return checkEq("Locations.Equal", a[0].Locations.Equal(b[0].Locations), x == y, w.desc)
	})
	// Texts.
	tl := []string{"", "a", "A", "a ", " a", "a\n", "a\r\n", "\n", "a\x00", "a\x00b", "a\x04b", "e\u0301", "\u00e9", "\xe9", "\xff", "\ufffd", "\ufeffa", "ａ", "ſ", "s", "K", "K", "%s", "\\n", strings.Repeat("a", 300), strings.Repeat("a", 299) + "b"}
	r.Space("texts", "all pairs of texts as every text of an entry", prod(len(tl), len(tl), 9), func(w *W, i int64) error {
		d := &Dec{i}
		x, y, field := tl[d.N(len(tl))], tl[d.N(len(tl))], d.N(9)
		w.Desc("%q %q field %d", x, y, field)
		w.State(w.desc)
		w.Trans(2)
		w.Trace()
		mk := func(s string) (e ent) {
			switch field {
			case 0:
				e.ID = s
			case 1:
				e.ID, e.Context = "i", s
			case 2:
				e.ID, e.Plural = "i", s
			case 3:
				e.ID, e.Str = "i", s
			case 4:
				e.ID, e.Plural, e.Plurals = "i", "is", pes{{ID: 0, Str: s}, {ID: 1, Str: "z"}}
			case 5:
				e.ID, e.Comments = "i", strs(s)
			case 6:
				e.ID, e.ExtractedComments = "i", strs("k", s)
			case 7:
				e.ID, e.Previous = "i", strs(s, "k")
			case 8:
				e.ID, e.Flags = "i", strs(s)
			}
			return
		}
		a, b := mk(x), mk(y)
		if err := checkEq("Entries.Equal", ents{a}.Equal(ents{b}), x == y, w.desc); err != nil {
			return err
		}
		if we, ok := entryEq(a, b); ok {
			if err := checkEq("Entry.Equal", a.Equal(b), we, w.desc); err != nil {
				return err
			}
		}
		return checkEq("File.Equal", po.File{Name: "n", Entries: ents{a}}.Equal(po.File{Name: "n", Entries: ents{b}}), x == y, w.desc)
	})
	// Small values.
	pm := pes{{ID: 0, Str: ""}, {ID: 0, Str: "a"}, {ID: 1, Str: "a"}, {ID: -1, Str: "a"}, {ID: 256, Str: "A"}, {ID: 1 << 40, Str: "a"}}
	lm := locs{{Line: 0, File: ""}, {Line: 0, File: "a"}, {Line: 1, File: "a"}, {Line: -1, File: "a"}, {Line: 1, File: "./a"}, {Line: 1 << 40, File: "a"}}
	r.Space("parts", "all pairs of lists of up to 3 plural forms and of up to 3 references", seqCount(len(pm), 3)*seqCount(len(pm), 3), func(w *W, i int64) error {
		ns := seqCount(len(pm), 3)
		ia, ib := i%ns, i/ns
		var p, q pes
		var a, b locs
		for _, j := range seqAt(len(pm), ia) {
			p, a = append(p, pm[j]), append(a, lm[j])
		}
		for _, j := range seqAt(len(pm), ib) {
			q, b = append(q, pm[j]), append(b, lm[j])
		}
		w.Desc("%v %v %v %v", p, q, a, b)
		w.State(fmt.Sprint(ia, ib))
		w.Trans(2)
		w.Trace()
		if p.Equal(q) != (ia == ib) || a.Equal(b) != (ia == ib) {
			return failf("equal", "PluralEntries.Equal = %v, Locations.Equal = %v, expected %v for\n%v\n%v\n%v\n%v", p.Equal(q), a.Equal(b), ia == ib, p, q, a, b)
		}
		if len(p) == 1 && len(q) == 1 && (p[0].Equal(q[0]) != (ia == ib) || a[0].Equal(b[0]) != (ia == ib)) {
			return failf("equal", "Equal of single values is wrong for %v %v %v %v", p[0], q[0], a[0], b[0])
		}
		return nil
	})
	large(r, "compared with a copy, and with one that differs in one place", 1025, 1025, 1, func(w *W, cat ents, k int) error {
		if !cat.Equal(clone(cat)) || !(po.File{Name: "n", Entries: cat}).Equal(po.File{Name: "n", Entries: clone(cat)}) {
			return failf("equal", "a catalog is not equal to its copy")
		}
		w.Trace()
		differ := func(what string, at int, f func(es ents) ents) error {
			b := f(clone(cat))
			w.Trans(2)
			if cat.Equal(b) || b.Equal(cat) {
				return failf("equal", "a difference in %s of entry %d of %d is not seen", what, at, len(cat))
			}
			return nil
		}
		if err := differ("the number", len(cat), func(es ents) ents { return es[:len(es)-1] }); err != nil {
			return err
		}
		for _, at := range []int{0, 1, len(cat) / 2, len(cat) - 2, len(cat) - 1} {
			for _, f := range c13Fields {
				for _, set := range f.vals {
					b := clone(cat)
					set(&b[at])
					if dump(b[at:at+1]) == dump(cat[at:at+1]) {
						continue
					}
					if err := differ(f.name, at, func(ents) ents { return b }); err != nil {
						return err
					}
				}
			}
			e := cat[at]
			for _, x := range []int{0, len(e.Flags) / 2, len(e.Flags) - 1} {
				if len(e.Flags) < 3 {
					break
				}
				for name, set := range map[string]func(e *ent){
					"Flags": func(e *ent) { e.Flags[x] += "?" }, "Comments": func(e *ent) { e.Comments[x] += "?" }, "ExtractedComments": func(e *ent) { e.ExtractedComments[x] += "?" },
					"Previous": func(e *ent) { e.Previous[x] += "?" }, "Plurals": func(e *ent) { e.Plurals[x].Str += "?" }, "Locations": func(e *ent) { e.Locations[x].Line += 10000 },
				} {
					if len(e.Flags) == len(e.Previous) && len(e.Flags) == len(e.Plurals) {
						if err := differ(fmt.Sprintf("%s[%d]", name, x), at, func(es ents) ents { set(&es[at]); return es }); err != nil {
							return err
						}
					}
				}
			}
		}
		return nil
	})
}
