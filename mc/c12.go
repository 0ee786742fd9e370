// C12: sorting is a stable permutation in the documented order.
package main

import (
	"fmt"
	"math"
	"path/filepath"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func init() {
	props["C12"] = propDef{
		level: "model_checking",
		notes: []string{
			"oracle: an insertion sort (stable by construction) under comparison functions written from their documentation; every element carries a tag no comparison looks at, so the exact permutation is compared",
			"comparison laws are checked on all triples of the menu for every exported comparison",
		},
		run: runC12,
	}
}

func insertionSort[T any](l []T, cmp func(a, b T) int) []T {
	out := append([]T{}, l...)
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && cmp(out[j], out[j-1]) < 0; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func cmpInt(a, b int) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func cmpBool(a, b bool) int { // false first
	if a == b {
		return 0
	}
	if b {
		return -1
	}
	return 1
}

func cmpList[T any](a, b []T, cmp func(a, b T) int) int {
	for i := range a {
		if i >= len(b) {
			return 1
		}
		if c := cmp(a[i], b[i]); c != 0 {
			return c
		}
	}
	return cmpInt(len(a), len(b))
}

func refCmpFile(a, b loc) int {
	return strings.Compare(filepath.Clean(a.File), filepath.Clean(b.File))
}
func refCmpLine(a, b loc) int { return cmpInt(a.Line, b.Line) }
func refCmpLoc(a, b loc) int {
	if c := refCmpFile(a, b); c != 0 {
		return c
	}
	return refCmpLine(a, b)
}

type entCmp struct {
	name string
	real po.Cmp[ent]
	ref  func(a, b ent) int
}

func entCmps() []entCmp {
	byID := func(a, b ent) int { return strings.Compare(refUID(a), refUID(b)) }
	byObs := func(a, b ent) int { return cmpBool(a.Obsolete, b.Obsolete) }
	byFuzzy := func(a, b ent) int { return cmpBool(isFuzzy(a), isFuzzy(b)) }
	byLoc := func(a, b ent) int { return cmpList(a.Locations, b.Locations, refCmpLoc) }
	all := func(a, b ent) int {
		ha, hb := isHeader(a) && !a.Obsolete, isHeader(b) && !b.Obsolete
		if c := cmpBool(!ha, !hb); c != 0 {
			return c
		}
		for _, f := range []func(a, b ent) int{byObs, byFuzzy, byLoc} {
			if c := f(a, b); c != 0 {
				return c
			}
		}
		return byID(a, b)
	}
	return []entCmp{
		{"CompareEntry", po.CompareEntry, all},
		{"CompareEntryByID", po.CompareEntryByID, byID},
		{"CompareEntryByFile", po.CompareEntryByFile, func(a, b ent) int { return cmpList(a.Locations, b.Locations, refCmpFile) }},
		{"CompareEntryByLine", po.CompareEntryByLine, func(a, b ent) int { return cmpList(a.Locations, b.Locations, refCmpLine) }},
		{"CompareEntryByFuzzy", po.CompareEntryByFuzzy, byFuzzy},
		{"CompareEntryByObsolete", po.CompareEntryByObsolete, byObs},
		{"CompareEntryByLocation", po.CompareEntryByLocation, byLoc},
		{"CompareEntryByStr", po.CompareEntryByStr, nil},
	}
}

func c12Menu() ents {
	big := math.MaxInt
	return ents{
		{Str: "Language: es\n"},
		{Str: "Language: fr\n", Flags: strs("fuzzy")},
		{Str: "H\n", Obsolete: true},
		{ID: "a", Str: "x"},
		{ID: "a", Context: "c", Str: "x"},
		{ID: "b", Str: "y", Locations: locs{{Line: 2, File: "f.go"}}},
		{ID: "b", Str: "", Locations: locs{{Line: 2, File: "f.go"}, {Line: 1, File: "a.go"}}},
		{ID: "b", Locations: locs{{Line: 10, File: "f.go"}}, Flags: strs("c-format", "fuzzy")},
		{ID: "c", Locations: locs{{Line: -big, File: "./f.go"}}, Obsolete: true},
		{ID: "c", Locations: locs{{Line: big, File: "a.go"}}},
		{ID: "c", Locations: locs{{Line: -big - 1, File: "a.go"}}, Flags: strs("fuzzy"), Obsolete: true},
		{ID: "d", Plural: "ds", Plurals: pes{{ID: 0, Str: "p"}, {ID: 1, Str: "q"}}},
		{ID: "d", Plural: "dz", Plurals: pes{{ID: 0, Str: "p"}}},
		{ID: "é", Str: "x", Plurals: pes{{ID: -big, Str: ""}}},
		{ID: "a\x04b"}, {ID: "", Context: "a"}, {ID: "A"}, {ID: "ab"}, {ID: "a "},
		{ID: "z", Flags: strs("fuzzy"), Str: "z"},
	}
}

func sign(x int) int { return cmpInt(x, 0) }

func laws[T any](a, b, c T, cmp func(a, b T) int) string {
	ab, ba, bc, ac := sign(cmp(a, b)), sign(cmp(b, a)), sign(cmp(b, c)), sign(cmp(a, c))
	switch {
	case cmp(a, a) != 0:
		return "not zero for an element with itself"
	case ab != -ba:
		return "not antisymmetric"
	case ab <= 0 && bc <= 0 && ac > 0:
		return "not transitive"
	case ab == 0 && ac != bc:
		return "equal elements compare differently with a third"
	}
	return ""
}

// tagged copies entries and gives each a distinct tag.
func tagged(es ents) ents {
	out := clone(es)
	for i := range out {
		out[i].ExtractedComments = strs(fmt.Sprint("tag", i))
	}
	return out
}

func tagsOf(es ents) string {
	var b strings.Builder
	for _, e := range es {
		b.WriteString(e.ExtractedComments[0][3:] + " ")
	}
	return b.String()
}

func checkEntSort(es ents, k int, cmps []entCmp) error {
	c := cmps[k%len(cmps)]
	ref := c.ref
	if ref == nil {
		ref = c.real
	}
	in := tagged(es)
	want := insertionSort(in, ref)
	var got ents
	how := ""
	switch {
	case k >= len(cmps):
		how = fmt.Sprintf("SortMode(%d)", k-len(cmps))
		mode := po.SortMode(k - len(cmps))
		if mode > po.SortByObsolete {
			want = insertionSort(in, cmps[0].ref)
		} else {
			want = insertionSort(in, cmps[int(mode)].ref)
		}
		got = mode.SortMethod(clone(in))()
	case k == 0:
		how = "Sort"
		got = clone(in).Sort()
	default:
		how = "SortFunc(" + c.name + ")"
		got = clone(in).SortFunc(c.real)
	}
	if len(got) != len(want) || dump(got) != dump(want) {
		return failf("sort", "%s gives elements %s, expected %s\n%s", how, tagsOf(got), tagsOf(want), dump(in))
	}
	if k < len(cmps) {
		sorted := dump(in) == dump(want)
		if g := in.IsSortedFunc(c.real); g != sorted {
			return failf("is-sorted", "IsSortedFunc(%s) = %v, expected %v\n%s", c.name, g, sorted, dump(in))
		}
		if k == 0 {
			if g := in.IsSorted(); g != sorted {
				return failf("is-sorted", "IsSorted = %v, expected %v\n%s", g, sorted, dump(in))
			}
		}
	}
	return nil
}

func runC12(r *Run) {
	cmps := entCmps()
	menu := c12Menu()
	n := len(menu)
	r.Space("laws", "all triples of 20 entries for every comparison of entries", pow(n, 3)*int64(len(cmps)), func(w *W, i int64) error {
		d := &Dec{i}
		c := cmps[d.N(len(cmps))]
		a, b, x := menu[d.N(n)], menu[d.N(n)], menu[d.N(n)]
		w.Desc("%s\n%s\n%s\n%s", c.name, dumpE(a), dumpE(b), dumpE(x))
		w.State(w.desc)
		w.Trans(6)
		w.Trace()
		if s := laws(a, b, x, c.real); s != "" {
			return failf("laws", "%s is %s", c.name, s)
		}
		if c.ref != nil && sign(c.real(a, b)) != c.ref(a, b) {
			return failf("order", "%s = %d, documented order says %d", c.name, c.real(a, b), c.ref(a, b))
		}
		return nil
	})
	big := math.MaxInt
	ls := locs{{Line: 0, File: "a"}, {Line: 1, File: "a"}, {Line: -1, File: "a"}, {Line: big, File: "a"}, {Line: -big - 1, File: "./a"}, {Line: 5, File: "b"}, {Line: 5, File: "a/b"}, {Line: 3, File: ""}, {Line: 3, File: "a/../b"}, {Line: 5, File: "B"}, {Line: 1 << 32, File: "é"}}
	ps := pes{{ID: 0, Str: ""}, {ID: 0, Str: "a"}, {ID: 1, Str: ""}, {ID: 1, Str: "b"}, {ID: -1, Str: "a"}, {ID: big, Str: "a"}, {ID: -big - 1, Str: "a"}, {ID: 10, Str: "é"}, {ID: 2, Str: "z"}}
	type lc struct {
		name string
		real po.Cmp[loc]
		ref  func(a, b loc) int
	}
	lcs := []lc{{"CompareLocation", po.CompareLocation, refCmpLoc}, {"CompareLocationByFile", po.CompareLocationByFile, refCmpFile}, {"CompareLocationByLine", po.CompareLocationByLine, refCmpLine}}
	type pc struct {
		name string
		real po.Cmp[pe]
		ref  func(a, b pe) int
	}
	refPID := func(a, b pe) int { return cmpInt(a.ID, b.ID) }
	refPStr := func(a, b pe) int { return strings.Compare(a.Str, b.Str) }
	pcs := []pc{{"ComparePluralEntry", po.ComparePluralEntry, func(a, b pe) int {
		if c := refPID(a, b); c != 0 {
			return c
		}
		return refPStr(a, b)
	}}, {"ComparePluralEntryByID", po.ComparePluralEntryByID, refPID}, {"ComparePluralEntryByStr", po.ComparePluralEntryByStr, refPStr}}
	r.Space("laws-lists", "all triples of references and of plural forms for every comparison", int64(len(lcs))*pow(len(ls), 3)+int64(len(pcs))*pow(len(ps), 3), func(w *W, i int64) error {
		w.Trans(6)
		w.Trace()
		if m := int64(len(lcs)) * pow(len(ls), 3); i < m {
			d := &Dec{i}
			c := lcs[d.N(len(lcs))]
			a, b, x := ls[d.N(len(ls))], ls[d.N(len(ls))], ls[d.N(len(ls))]
			w.Desc("%s %v %v %v", c.name, a, b, x)
			w.State(w.desc)
			if s := laws(a, b, x, c.real); s != "" {
				return failf("laws", "%s is %s", c.name, s)
			}
			if sign(c.real(a, b)) != c.ref(a, b) {
				return failf("order", "%s(%v, %v) = %d", c.name, a, b, c.real(a, b))
			}
			return nil
		} else {
			d := &Dec{i - m}
			c := pcs[d.N(len(pcs))]
			a, b, x := ps[d.N(len(ps))], ps[d.N(len(ps))], ps[d.N(len(ps))]
			w.Desc("%s %v %v %v", c.name, a, b, x)
			w.State(w.desc)
			if s := laws(a, b, x, c.real); s != "" {
				return failf("laws", "%s is %s", c.name, s)
			}
			if sign(c.real(a, b)) != c.ref(a, b) {
				return failf("order", "%s(%v, %v) = %d", c.name, a, b, c.real(a, b))
			}
			return nil
		}
	})

	kinds := len(cmps) + 8
	l := 3
	if r.Thorough {
		l = 4
	}
	r.Space("short", "all lists of up to the bound over 20 entries, by every comparison and sort mode", seqCount(n, l)*int64(kinds), func(w *W, i int64) error {
		d := &Dec{i}
		k := d.N(kinds)
		var es ents
		for _, j := range seqAt(n, d.i) {
			es = append(es, menu[j])
		}
		w.desc = fmt.Sprintf("kind %d\n%s", k, dump(es))
		if k == 0 {
			w.State(w.desc)
		}
		w.Trans(1)
		w.Trace()
		return checkEntSort(es, k, cmps)
	})
	richPairs(r, "pairs", "with a third, by every comparison and sort mode", richMenu(), kinds, func(w *W, a, b ent, k int) error {
		w.Trans(1)
		w.Trace()
		c := cmps[k%len(cmps)]
		if s := laws(a, b, ent{ID: "m", Str: "A"}, c.real); s != "" {
			return failf("laws", "%s is %s", c.name, s)
		}
		if c.ref != nil && sign(c.real(a, b)) != c.ref(a, b) {
			return failf("order", "%s = %d, documented order says %d", c.name, c.real(a, b), c.ref(a, b))
		}
		return checkEntSort(ents{a, b, {ID: "m", Str: "A"}, a}, k, cmps)
	})
	few := []int{0, 3, 4, 5, 7, 8}
	fl := 6
	if r.Thorough {
		fl = 7
	}
	r.Space("ties", "all longer lists over 6 entries (many equal), by every comparison and sort mode", seqCount(len(few), fl)*int64(kinds), func(w *W, i int64) error {
		d := &Dec{i}
		k := d.N(kinds)
		var es ents
		for _, j := range seqAt(len(few), d.i) {
			es = append(es, menu[few[j]])
		}
		w.desc = fmt.Sprintf("kind %d\n%s", k, dump(es))
		if k == 0 {
			w.State(w.desc)
		}
		w.Trans(1)
		w.Trace()
		return checkEntSort(es, k, cmps)
	})
	max := 70
	if r.Thorough {
		max = 160
	}
	pattern := func(p, k, n int) int {
		switch p {
		case 0:
			return k
		case 1:
			return n - k
		case 2:
			return cmpInt(k*2, n) * (k*2 - n)
		case 3:
			return 0
		case 4:
			return k % 2
		case 5:
			return k % 7
		case 6:
			return (k * 7919) % 1009
		case 7:
			return n/2 - k%(n/2+1)
		case 8:
			return k * k % 17
		}
		return (n - k) / 5
	}
	r.Space("long", "lists of every length up to the bound in sorted, reversed, organ-pipe, constant, alternating, periodic and scattered patterns, by every comparison and sort mode", prod(max+1, 10, kinds), func(w *W, i int64) error {
		d := &Dec{i}
		n, p, k := d.N(max+1), d.N(10), d.N(kinds)
		var es ents
		for j := 0; j < n; j++ {
			v := pattern(p, j, n)
			e := ent{ID: fmt.Sprintf("%04d", v+500), Locations: locs{{Line: v, File: fmt.Sprintf("%03d.go", v/3+300)}}, Obsolete: v%3 == 2}
			if v%4 == 1 {
				e.Flags = strs("fuzzy")
			}
			es = append(es, e)
		}
		w.Desc("length %d, pattern %d, kind %d", n, p, k)
		w.State(w.desc)
		w.Trans(1)
		w.Trace()
		return checkEntSort(es, k, cmps)
	})
	r.Space("lists", "references and plural forms: all lists of up to 4, and every length up to the bound in every pattern", 6*(seqCount(len(ps), 4)+int64(10*(max+1))), func(w *W, i int64) error {
		d := &Dec{i}
		k := d.N(6)
		m := seqCount(len(ps), 4)
		var il locs
		var ip pes
		if d.i < m {
			for _, j := range seqAt(len(ps), d.i) {
				il = append(il, ls[j])
				ip = append(ip, ps[j])
			}
		} else {
			q := int(d.i - m)
			n, p := q/10, q%10
			for j := 0; j < n; j++ {
				v := pattern(p, j, n)
				il = append(il, loc{Line: v, File: []string{"a", "b", "./a"}[j%3]})
				ip = append(ip, pe{ID: v, Str: []string{"a", "b"}[j%2]})
			}
		}
		w.Desc("kind %d %v %v", k, il, ip)
		w.State(w.desc)
		w.Trans(1)
		w.Trace()
		if k < 3 {
			want := insertionSort(il, lcs[k].ref)
			got := append(locs{}, il...)
			if k == 0 {
				got = got.Sort()
			} else {
				got = got.SortFunc(lcs[k].real)
			}
			a, b, c := dumpE(ent{Locations: got}), dumpE(ent{Locations: want}), dumpE(ent{Locations: il})
			if a != b {
				return failf("sort", "references sorted to %s, expected %s", a, b)
			}
			if s := il.IsSortedFunc(lcs[k].real); s != (b == c) || k == 0 && il.IsSorted() != s {
				return failf("is-sorted", "sortedness test says %v for %s", s, c)
			}
			return nil
		}
		k -= 3
		want := insertionSort(ip, pcs[k].ref)
		got := append(pes{}, ip...)
		if k == 0 {
			got = got.Sort()
		} else {
			got = got.SortFunc(pcs[k].real)
		}
		a, b, c := dumpE(ent{Plurals: got}), dumpE(ent{Plurals: want}), dumpE(ent{Plurals: ip})
		if a != b {
			return failf("sort", "plural forms sorted to %s, expected %s", a, b)
		}
		if s := ip.IsSortedFunc(pcs[k].real); s != (b == c) || k == 0 && ip.IsSorted() != s {
			return failf("is-sorted", "sortedness test says %v for %s", s, c)
		}
		return nil
	})
}
