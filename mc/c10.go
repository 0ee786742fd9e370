// C10: concatenation keeps every message and every translation of every input.
package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func init() {
	props["C10"] = propDef{
		level: "model_checking",
		notes: []string{
			"plural forms of one definition have distinct indices; flags of one definition are distinct",
			"oracle: selection, order, identity, references, flags and obsolete mark computed exactly; translations and comments checked per definition (equal ones unchanged, a single non-empty one taken over, differing ones all contained and flagged fuzzy)",
		},
		run: runC10,
	}
}

// oneOrAll checks a merged string against the non-empty strings of its definitions.
func oneOrAll(what, got string, defs []string) (conflict bool, err error) {
	var distinct []string
	for _, s := range defs {
		dup := s == ""
		for _, d := range distinct {
			dup = dup || d == s
		}
		if !dup {
			distinct = append(distinct, s)
		}
	}
	switch len(distinct) {
	case 0:
		if got != "" {
			return false, failf("invented", "%s is %q, but no definition has one", what, got)
		}
	case 1:
		if got != distinct[0] {
			return false, failf("changed", "%s is %q, expected %q", what, got, distinct[0])
		}
	default:
		for _, s := range distinct {
			if !strings.Contains(got, s) {
				return true, failf("lost", "%s is %q, which lacks %q", what, got, s)
			}
		}
		sort.SliceStable(distinct, func(i, j int) bool { return len(distinct[i]) > len(distinct[j]) })
		if !containsApart(got, distinct) {
			return true, failf("lost", "%s is %q, which does not hold each of %q separately", what, got, distinct)
		}
		return true, nil
	}
	return false, nil
}

// containsApart: all strings occur in s without overlapping.
func containsApart(s string, parts []string) bool {
	if len(parts) == 0 {
		return true
	}
	for from := 0; ; {
		i := strings.Index(s[from:], parts[0])
		if i < 0 {
			return false
		}
		at := from + i
		if containsApart(s[:at]+"\x00"+s[at+len(parts[0]):], parts[1:]) {
			return true
		}
		from = at + 1
	}
}

func hasAll(got []string, want []string) bool {
	for _, s := range want {
		found := false
		for _, g := range got {
			found = found || g == s
		}
		if !found {
			return false
		}
	}
	return true
}

// c10Heading is the line that says which file the next lines are from.
var c10Heading = regexp.MustCompile("(?m)^#-#-#-#-#  (.*)  #-#-#-#-#$")

// c10Sections cuts a combined text in the parts of the files.
func c10Sections(text string) (names, parts []string) {
	at := c10Heading.FindAllStringSubmatchIndex(text, -1)
	for k, m := range at {
		end := len(text)
		if k+1 < len(at) {
			end = at[k+1][0]
		}
		names, parts = append(names, text[m[2]:m[3]]), append(parts, strings.TrimPrefix(text[m[1]:end], "\n"))
	}
	return
}

// c10Origins checks that what is headed with the name of a file is from that file.
func c10Origins(e ent, owners []string, ds ents) error {
	for k, d := range ds { // headings in the definitions themselves
		if strings.Contains(dumpE(d)+owners[k], "#-#-#-#") {
			return nil
		}
	}
	check := func(what, text string, of func(d ent) []string) error {
		names, parts := c10Sections(text)
		for k, n := range names {
			part := parts[k]
			if part == "" {
				continue
			}
			ok := false
			for j, d := range ds {
				if owners[j] != n {
					continue
				}
				for _, t := range of(d) {
					ok = ok || part == t || part == t+"\n"
				}
			}
			if !ok {
				return failf("origin", "%s %q is shown as from %s, which does not have it: %s", what, part, n, dumpE(e))
			}
		}
		return nil
	}
	texts := map[string]func(d ent) []string{
		"comment":           func(d ent) []string { return d.Comments },
		"extracted comment": func(d ent) []string { return d.ExtractedComments },
		"previous line":     func(d ent) []string { return d.Previous },
	}
	for what, f := range texts {
		if err := check(what, strings.Join(f(e), "\n"), func(d ent) []string { return strs(strings.Join(f(d), "\n")) }); err != nil {
			return err
		}
	}
	form := func(d ent, id int) (out []string) {
		if !isPlural(d) {
			return strs(d.Str)
		}
		for _, p := range d.Plurals {
			if p.ID == id {
				out = append(out, p.Str)
			}
		}
		return
	}
	if err := check("translation", e.Str, func(d ent) []string { return form(d, 0) }); err != nil {
		return err
	}
	for _, p := range e.Plurals {
		if err := check("translation", p.Str, func(d ent) []string { return form(d, p.ID) }); err != nil {
			return err
		}
	}
	return nil
}

func c10Check(w *W, files []*po.File, less, more uint, first bool) error {
	var fs []*po.File
	copies := map[*po.File]*po.File{} // a file given twice stays one object
	for _, f := range files {
		if copies[f] == nil {
			copies[f] = &po.File{Name: f.Name, Entries: clone(f.Entries)}
		}
		fs = append(fs, copies[f])
	}
	var opts []po.MsgcatMergeOption
	if less != math.MaxUint {
		opts = append(opts, po.MsgcatMergeWithLessThan(less))
	}
	opts = append(opts, po.MsgcatMergeWithMoreThan(more), po.MsgcatMergeWithUseFirst(first))
	res := po.MsgcatMergeFiles(fs, opts...)
	w.Trans(1)
	w.Trace()

	var order [][2]string
	defs := map[[2]string]ents{}
	owners := map[[2]string][]string{}
	for _, f := range files {
		for _, e := range f.Entries {
			u := uid(e)
			if len(defs[u]) == 0 {
				order = append(order, u)
			}
			defs[u] = append(defs[u], e)
			owners[u] = append(owners[u], f.Name)
		}
	}
	var want [][2]string
	for _, u := range order {
		if n := uint(len(defs[u])); n > more && n < less {
			want = append(want, u)
		}
	}
	var got [][2]string
	for _, e := range res {
		got = append(got, uid(e))
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return failf("selection", "messages %q, expected %q", got, want)
	}
	for _, e := range res {
		ds := defs[uid(e)]
		if len(ds) == 1 || first {
			if dumpE(e) != dumpE(ds[0]) {
				return failf("changed", "is %s, expected the first definition %s", dumpE(e), dumpE(ds[0]))
			}
			continue
		}
		plural, allObs, anyFuzzy := false, true, false
		mixed, plurals := false, map[string]bool{}
		var locs_ locs
		var flags []string
		for _, d := range ds {
			if plural != isPlural(d) && len(plurals) > 0 {
				mixed = true
			}
			plural = plural || isPlural(d)
			plurals[d.Plural] = true
			allObs = allObs && d.Obsolete
			anyFuzzy = anyFuzzy || isFuzzy(d)
			locs_ = append(locs_, d.Locations...)
			for _, f := range d.Flags {
				if !hasAll(flags, strs(f)) {
					flags = append(flags, f)
				}
			}
		}
		conflict := false
		if !plural {
			var ss []string
			for _, d := range ds {
				ss = append(ss, d.Str)
			}
			c, err := oneOrAll("translation", e.Str, ss)
			if err != nil {
				return err
			}
			conflict = c
			if isPlural(e) {
				return failf("changed", "all definitions are singular, the result is plural: %s", dumpE(e))
			}
		} else {
			forms := map[int][]string{}
			for _, d := range ds {
				if !isPlural(d) {
					forms[0] = append(forms[0], d.Str)
					continue
				}
				for _, p := range d.Plurals {
					forms[p.ID] = append(forms[p.ID], p.Str)
				}
			}
			seen := map[int]int{}
			for _, p := range e.Plurals {
				if seen[p.ID]++; seen[p.ID] > 1 {
					return failf("forms", "form %d occurs twice: %s", p.ID, dumpE(e))
				}
				c, err := oneOrAll(fmt.Sprintf("form %d", p.ID), p.Str, forms[p.ID])
				if err != nil {
					return err
				}
				conflict = conflict || c
			}
			var ids []int
			for id := range forms {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			for _, id := range ids {
				if seen[id] == 0 && strings.Join(forms[id], "") != "" {
					return failf("lost", "form %d of %q is missing: %s", id, forms[id], dumpE(e))
				}
			}
			if e.Plural == "" || !plurals[e.Plural] {
				return failf("changed", "plural id is %q: %s", e.Plural, dumpE(e))
			}
			if e.Str != "" {
				return failf("changed", "a plural message also has a singular translation: %s", dumpE(e))
			}
		}
		if conflict && !isFuzzy(e) {
			return failf("unmarked", "differing translations are merged without fuzzy flag: %s", dumpE(e))
		}
		if !conflict && !anyFuzzy && !mixed && len(plurals) == 1 && isFuzzy(e) {
			return failf("marked", "flagged fuzzy although no definition is and none differ: %s", dumpE(e))
		}
		if isFuzzy(e) && !anyFuzzy {
			flags = append(flags, "fuzzy")
		}
		if len(e.Flags) != len(flags) || !hasAll(e.Flags, flags) {
			return failf("flags", "flags are %q, expected %q", e.Flags, flags)
		}
		if fmt.Sprint(e.Locations) != fmt.Sprint(locs_) && len(e.Locations)+len(locs_) > 0 {
			return failf("references", "references are %v, expected %v", dumpE(e), dumpE(ent{Locations: locs_}))
		}
		for _, d := range ds {
			if !hasAll(e.Comments, d.Comments) || !hasAll(e.ExtractedComments, d.ExtractedComments) || !hasAll(e.Previous, d.Previous) {
				return failf("comments", "comments of a definition are missing: %s lacks those of %s", dumpE(e), dumpE(d))
			}
		}
		if err := c10Origins(e, owners[uid(e)], ds); err != nil {
			return err
		}
		if e.Obsolete != allObs {
			return failf("obsolete", "obsolete is %v, every definition obsolete is %v: %s", e.Obsolete, allObs, dumpE(e))
		}
	}
	return nil
}

func c10Menu() ents {
	return ents{
		{ID: "m", Str: "A", Comments: strs("c1"), Locations: locs{{Line: 1, File: "a.go"}}, Flags: strs("c-format")},
		{ID: "m", Str: "B", Locations: locs{{Line: 2, File: "b.go"}}, Flags: strs("no-wrap", "c-format")},
		{ID: "m", Str: "", ExtractedComments: strs("x1"), Flags: strs("fuzzy")},
		{ID: "m", Str: "A", Obsolete: true, Previous: strs("p1")},
		{ID: "m", Str: "C", Obsolete: true, Comments: strs("c1", "c2")},
		{ID: "m", Plural: "ms", Plurals: pes{{ID: 0, Str: "A"}, {ID: 1, Str: "AA"}}, Comments: strs("c1")},
		{ID: "m", Plural: "ms", Plurals: pes{{ID: 0, Str: "A"}, {ID: 1, Str: "BB"}, {ID: 2, Str: "CC"}}, ExtractedComments: strs("x2")},
		{ID: "m", Plural: "ms", Plurals: pes{{ID: 0, Str: ""}, {ID: 1, Str: ""}}},
		{ID: "m", Plural: "mz", Plurals: pes{{ID: 0, Str: "Z"}}},
		{ID: "m", Plural: "ms", Obsolete: true, Plurals: pes{{ID: 1, Str: "AA"}, {ID: 0, Str: "A"}}},
		{ID: "m", Context: "k", Str: "ctx"},
		{ID: "n", Str: "other", Comments: strs("cn")},
		{Str: "Language: es\n", Comments: strs("h")},
		{Str: "Language: fr\n", Flags: strs("fuzzy")},
	}
}

func runC10(r *Run) {
	menu := c10Menu()
	names := []string{"one.po", "two.po", "three.po", "four.po", "five.po"}
	lesses := []uint{math.MaxUint, 1 << 63, 1<<32 + 1, 4, 3, 2, 1, 0}
	mores := []uint{0, 1, 2, 3, 1 << 32, 1 << 63, math.MaxUint}
	mk := func(seq []int, split int) []*po.File {
		files := []*po.File{{Name: names[0]}}
		for k, j := range seq {
			if k > 0 && split>>(k-1)&1 == 1 {
				files = append(files, &po.File{Name: names[len(files)]})
			}
			f := files[len(files)-1]
			f.Entries = append(f.Entries, cloneE(menu[j]))
		}
		return files
	}
	show := func(fs []*po.File) string {
		s := ""
		for _, f := range fs {
			s += f.Name + ":\n" + dump(f.Entries) + "\n"
		}
		return s
	}
	r.Space("definitions", "all sequences of up to 3 definitions of 14 kinds, split into files in every way, every combination of selection bounds and use-first", seqCount(len(menu), 3)*4*prod(len(lesses), len(mores), 2), func(w *W, i int64) error {
		d := &Dec{i}
		less, more, first := lesses[d.N(len(lesses))], mores[d.N(len(mores))], d.B()
		split := d.N(4)
		fs := mk(seqAt(len(menu), d.i), split)
		w.desc = fmt.Sprintf("less=%d more=%d first=%v\n%s", less, more, first, show(fs))
		w.State(w.desc)
		return c10Check(w, fs, less, more, first)
	})
	r.Space("same file", "all files of up to 2 definitions, given two or three times as one and the same object, alone or around another, every selection and use-first", seqCount(len(menu), 2)*int64(len(menu)+1)*prod(3, len(lesses), len(mores), 2), func(w *W, i int64) error {
		d := &Dec{i}
		less, more, first := lesses[d.N(len(lesses))], mores[d.N(len(mores))], d.B()
		how, o := d.N(3), d.N(len(menu)+1)
		f := &po.File{Name: "one.po"}
		for _, j := range seqAt(len(menu), d.i) {
			f.Entries = append(f.Entries, cloneE(menu[j]))
		}
		fs := []*po.File{f, f}
		if o > 0 {
			g := &po.File{Name: "two.po", Entries: ents{cloneE(menu[o-1])}}
			fs = [][]*po.File{{f, f, g}, {f, g, f}, {g, f, f}}[how]
		} else if how > 0 {
			fs = [][]*po.File{nil, {f, f, f}, {f, {Name: "one.po", Entries: f.Entries}}}[how]
		}
		w.desc = fmt.Sprintf("same object: less=%d more=%d first=%v\n%s", less, more, first, show(fs))
		w.State(w.desc)
		return c10Check(w, fs, less, more, first)
	})
	rich := richMenu()
	richPairs(r, "pairs", "two definitions in two files or in one, alone or with a third; use-first", rich, 4, func(w *W, a, b ent, k int) error {
		fs := []*po.File{{Name: "one.po", Entries: ents{a}}, {Name: "two.po", Entries: ents{b}}}
		switch k {
		case 1:
			fs = []*po.File{{Name: "one.po", Entries: ents{a, b}}}
		case 2:
			fs = append(fs, &po.File{Name: "three.po", Entries: ents{cloneE(a), {ID: "m", Str: "third"}}})
		}
		return c10Check(w, fs, math.MaxUint, 0, k == 3)
	})
	l := 4
	if r.Thorough {
		l = 5
	}
	r.Space("longer", "all longer sequences of definitions, files of one or two definitions", seqCount(len(menu), l)*2, func(w *W, i int64) error {
		d := &Dec{i}
		split := []int{0b11111, 0b01010}[d.N(2)]
		fs := mk(seqAt(len(menu), d.i), split)
		w.desc = show(fs)
		w.State(w.desc)
		return c10Check(w, fs, math.MaxUint, 0, false)
	})
	// Many inputs, shared data: as many definitions as files.
	r.Space("many", "up to 40 files that share messages in every pattern of periods", prod(40, 6, 6, 2), func(w *W, i int64) error {
		d := &Dec{i}
		n, p, q, first := d.N(40)+1, d.N(6)+1, d.N(6)+1, d.B()
		var fs []*po.File
		for k := 0; k < n; k++ {
			f := &po.File{Name: fmt.Sprintf("f%d.po", k)}
			for m := 0; m < 12; m++ {
				if (k+m)%p == 0 {
					e := cloneE(menu[(m*q+k)%9])
					e.ID = fmt.Sprintf("m%d", m)
					f.Entries = append(f.Entries, e)
				}
			}
			fs = append(fs, f)
		}
		w.Desc("%d files, periods %d %d, first=%v", n, p, q, first)
		w.State(w.desc)
		return c10Check(w, fs, math.MaxUint, 0, first)
	})
	r.Space("many-names", "up to 40 files, all, pairs or none of them named alike, without name, or given as the same object, each with a message of its own and one that all of them have", prod(40, 5, 2, 2), func(w *W, i int64) error {
		d := &Dec{i}
		n, how, shared, first := d.N(40)+1, d.N(5), d.B(), d.B()
		var fs []*po.File
		for k := 0; k < n; k++ {
			f := &po.File{Name: []string{"same.po", fmt.Sprintf("p%d.po", k/2), fmt.Sprintf("f%d.po", k), "", "o.po"}[how], Entries: ents{{ID: fmt.Sprintf("own %d", k), Str: fmt.Sprintf("T%d", k)}}}
			if shared {
				f.Entries = append(f.Entries, ent{ID: "shared", Str: "same everywhere", Locations: locs{{Line: k, File: "s.go"}}})
			}
			if how == 4 && k%2 == 1 {
				f = fs[k-1]
			}
			fs = append(fs, f)
		}
		w.Desc("%d files, names %d, shared=%v, first=%v", n, how, shared, first)
		w.State(w.desc)
		return c10Check(w, fs, math.MaxUint, 0, first)
	})
	large(r, "cut in two files that share a third of it", 257, 1025, 2, func(w *W, cat ents, k int) error {
		a, b := bigParts(cat)
		for j := range b {
			if b[j].Str != "" && j%2 == 0 {
				b[j].Str += "2"
			}
		}
		return c10Check(w, []*po.File{{Name: "a.po", Entries: a}, {Name: "b.po", Entries: b}}, math.MaxUint, 0, k == 1)
	})
}
