// C11: catalog clean-up, lookup and validation operations do exactly what they say.
package main

import (
	"errors"
	"fmt"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func init() {
	props["C11"] = propDef{
		level: "model_checking",
		notes: []string{
			"clean-up operations may reuse the memory of the list they are called on (their result replaces it); every step starts from the result of the previous one",
			"oracle: list model in lockstep; for solving, the merged entry is checked relationally (position, references in order, a present translation wins, every field comes from one of the definitions)",
		},
		run: runC11,
	}
}

func filterE(es ents, keep func(ent) bool) (out ents) {
	for _, e := range es {
		if keep(e) {
			out = append(out, e)
		}
	}
	return
}

type c11Op struct {
	name string
	run  func(f *po.File)               // applies the operation to the real file
	want func(es ents) (ents, bool)     // functional model; false: use check
	rel  func(before, after ents) error // relational model
}

func checkSolve(before, after ents) error {
	var order [][2]string
	defs := map[[2]string]ents{}
	for _, e := range before {
		if len(defs[uid(e)]) == 0 {
			order = append(order, uid(e))
		}
		defs[uid(e)] = append(defs[uid(e)], e)
	}
	if len(after) != len(order) {
		return failf("solve", "%d entries, expected %d:\n%s", len(after), len(order), dump(after))
	}
	for i, u := range order {
		e, ds := after[i], defs[u]
		if uid(e) != u {
			return failf("solve", "position %d is %q, expected %q", i, uid(e), u)
		}
		if len(ds) == 1 {
			if dumpE(e) != dumpE(ds[0]) {
				return failf("solve", "entry without duplicate changed to %s from %s", dumpE(e), dumpE(ds[0]))
			}
			continue
		}
		var ls locs
		tr, other, present := false, false, false
		for _, d := range ds {
			ls = append(ls, d.Locations...)
			present = present || trOf(d) != ""
			a, b := e, d
			tr = tr || dumpE(ent{Str: a.Str, Plurals: a.Plurals}) == dumpE(ent{Str: b.Str, Plurals: b.Plurals})
			for _, x := range []*ent{&a, &b} {
				*x = cloneE(*x)
				x.Str, x.Plurals, x.Locations = "", nil, nil
			}
			other = other || dumpE(a) == dumpE(b)
		}
		if dumpE(ent{Locations: e.Locations}) != dumpE(ent{Locations: ls}) {
			return failf("solve-refs", "references of %s are not those of its definitions in order: %s", dumpE(e), dumpE(ent{Locations: ls}))
		}
		if !tr || present && trOf(e) == "" {
			return failf("solve-translation", "translation of %s is not a present one of its definitions:\n%s", dumpE(e), dump(ds))
		}
		if !other {
			return failf("solve-fields", "fields of %s are those of no definition:\n%s", dumpE(e), dump(ds))
		}
	}
	return nil
}

func c11Ops() []c11Op {
	fn := func(name string, real func(es ents) ents, model func(es ents) ents) c11Op {
		return c11Op{name: name, run: func(f *po.File) { f.Entries = real(f.Entries) }, want: func(es ents) (ents, bool) { return model(es), true }}
	}
	set := func(id, ctx string, e ent) c11Op {
		return c11Op{name: fmt.Sprintf("Set(%q,%q)", id, ctx), run: func(f *po.File) { f.Set(id, ctx, e) }, want: func(es ents) (ents, bool) {
			out := clone(es)
			for i := range out {
				if out[i].ID == id && out[i].Context == ctx {
					out[i] = e
					return out, true
				}
			}
			return append(out, e), true
		}}
	}
	return []c11Op{
		fn("CleanFuzzy", ents.CleanFuzzy, func(es ents) ents { return filterE(es, func(e ent) bool { return !isFuzzy(e) }) }),
		fn("CleanObsoletes", ents.CleanObsoletes, func(es ents) ents { return filterE(es, func(e ent) bool { return !e.Obsolete }) }),
		fn("CleanEmpties", ents.CleanEmpties, func(es ents) ents { return filterE(es, func(e ent) bool { return e.ID != "" }) }),
		fn("CutHeader", ents.CutHeader, func(es ents) ents {
			done := false
			return filterE(es, func(e ent) bool {
				cut := isHeader(e) && !done
				done = done || cut
				return !cut
			})
		}),
		fn("CleanDuplicates", ents.CleanDuplicates, refDedupe),
		{name: "Solve", run: func(f *po.File) { f.Entries = f.Solve() }, rel: checkSolve},
		set("m", "", ent{ID: "m", Str: "set"}),
		set("new", "k", ent{ID: "new", Context: "k", Plural: "ns", Plurals: pes{{ID: 0, Str: "set"}}}),
		set("", "", ent{Str: "Set: header\n"}),
		set("m", "c", ent{ID: "renamed", Str: "set"}),
		set("m", "", ent{ID: "m", Context: "c", Str: "moved"}),
		set("n", "", ent{ID: "", Context: "k", Plural: "ns"}),
	}
}

func c11Menu() ents {
	return ents{
		{ID: "m", Str: "A", Locations: locs{{Line: 1, File: "a"}}, Comments: strs("c")},
		{ID: "m", Str: "", Locations: locs{{Line: 2, File: "b"}, {Line: 1, File: "b"}}},
		{ID: "m", Str: "B", Flags: strs("fuzzy")},
		{ID: "m", Str: "C", Obsolete: true, Locations: locs{{Line: 3, File: "a"}}},
		{ID: "m", Context: "c", Str: "D"},
		{ID: "m", Plural: "ms", Plurals: pes{{ID: 0, Str: "p"}, {ID: 1, Str: "q"}}},
		{ID: "n", Plural: "ns", Plurals: pes{{ID: 0, Str: "p"}}, Str: "both", Flags: strs("c-format", "fuzzy")},
		{ID: "n", Str: "N", Plurals: pes{}},
		{Str: "Language: es\n"},
		{Str: "Language: fr\n", Flags: strs("fuzzy")},
		{ID: "", Context: "c", Str: "E"},
		{ID: "cm", Str: "F"},
	}
}

// c11Queries checks every lookup and validation against the model list.
func c11Queries(f *po.File, es ents) error {
	ids := []string{"m", "n", "", "new", "cm", "nope"}
	for _, id := range ids {
		for _, ctx := range []string{"", "c", "k"} {
			at, ustr := -1, ""
			for i, e := range es {
				if e.ID == id && e.Context == ctx {
					at, ustr = i, e.Str
					break
				}
			}
			u := id
			if ctx != "" {
				u = ctx + "\x04" + id
			}
			if g := f.Index(id, ctx); g != at {
				return failf("index", "Index(%q,%q) = %d, expected %d in\n%s", id, ctx, g, at, dump(es))
			}
			if g := f.IndexByUnifiedID(u); g != at {
				return failf("index", "IndexByUnifiedID(%q) = %d, expected %d in\n%s", u, g, at, dump(es))
			}
			if g := f.ContainsUnifiedID(u); g != (at >= 0) {
				return failf("index", "ContainsUnifiedID(%q) = %v in\n%s", u, g, dump(es))
			}
			if g := f.Load(id, ctx); g != ustr {
				return failf("load", "Load(%q,%q) = %q, expected %q in\n%s", id, ctx, g, ustr, dump(es))
			}
			if g := f.LoadByUnifiedID(u); g != ustr {
				return failf("load", "LoadByUnifiedID(%q) = %q, expected %q in\n%s", u, g, ustr, dump(es))
			}
			if id == "" && ctx == "" && f.HasHeader() != (at >= 0) {
				return failf("header", "HasHeader = %v in\n%s", f.HasHeader(), dump(es))
			}
		}
	}
	type rep struct{ at, org int }
	var dups []rep
	var bad []int
	first := map[[2]string]int{}
	for i, e := range es {
		if o, ok := first[uid(e)]; ok {
			dups = append(dups, rep{i, o})
		} else {
			first[uid(e)] = i
		}
		if e.Str != "" && len(e.Plurals) > 0 {
			bad = append(bad, i)
		}
		errs := e.Validate()
		if (len(errs) > 0) != (e.Str != "" && len(e.Plurals) > 0) || len(errs) > 1 {
			return failf("validate", "Validate of %s gives %v", dumpE(e), errs)
		}
	}
	if f.HasDuplicates() != (len(dups) > 0) {
		return failf("duplicates", "HasDuplicates = %v, repeated %v in\n%s", f.HasDuplicates(), dups, dump(es))
	}
	readDups := func(errs []error) (out []rep, rest []error) {
		for _, err := range errs {
			var at *po.InvalidEntryAtIndexError
			var d *po.DuplicatedEntryError
			var ie *po.InvalidEntryError
			if errors.As(err, &at) && errors.As(err, &d) && errors.As(err, &ie) {
				out = append(out, rep{at.Index, d.OriginalIndex})
				if at.Index < len(es) && ie.ID != refUID(es[at.Index]) {
					out = append(out, rep{-1, -1})
				}
			} else {
				rest = append(rest, err)
			}
		}
		return
	}
	for k, errs := range [][]error{f.Entries.CatchDuplicateEntries(), f.CatchDuplicateEntries(), f.Entries.Validate(), f.Validate()} {
		got, rest := readDups(errs)
		if fmt.Sprint(got) != fmt.Sprint(dups) {
			return failf("duplicates", "report %d names repeated entries %v, expected %v: %v\n%s", k, got, dups, errs, dump(es))
		}
		if k < 2 && len(rest) > 0 {
			return failf("duplicates", "report %d has unexpected errors %v", k, rest)
		}
		if k >= 2 {
			var bs []int
			for _, err := range rest {
				var at *po.InvalidEntryAtIndexError
				if !errors.Is(err, po.ErrBadPluralEntry) || !errors.As(err, &at) {
					return failf("validate", "unexpected error %v", err)
				}
				bs = append(bs, at.Index)
			}
			if fmt.Sprint(bs) != fmt.Sprint(bad) {
				return failf("validate", "report %d names entries %v as singular and plural, expected %v\n%s", k, bs, bad, dump(es))
			}
		}
		if k%2 == 1 {
			for _, err := range errs {
				var fe *po.InvalidFileError
				if !errors.As(err, &fe) || fe.Filename != f.Name {
					return failf("validate", "report %d does not name the file: %v", k, err)
				}
			}
		}
	}
	return nil
}

// c11Ratios checks the match ratios of two entries against those of their single texts, and the best matches.
func c11Ratios(a, b ent) error {
	one := func(x, y string) int { return po.EntryIDMatchRatio(ent{ID: x}, ent{ID: y}) }
	avg := func(l []int) int {
		t := 0
		for _, x := range l {
			t += x
		}
		if len(l) == 0 {
			return 0
		}
		return t / len(l)
	}
	var ids, strs []int
	if a.ID != "" || b.ID != "" {
		ids = append(ids, one(a.ID, b.ID))
	}
	if a.Context != "" || b.Context != "" {
		ids = append(ids, one(a.Context, b.Context))
	}
	if isPlural(a) && isPlural(b) {
		ids = append(ids, one(a.Plural, b.Plural))
	}
	if a.Str != "" || b.Str != "" {
		strs = append(strs, one(a.Str, b.Str))
	}
	for i := 0; i < len(a.Plurals) && i < len(b.Plurals); i++ {
		strs = append(strs, one(a.Plurals[i].Str, b.Plurals[i].Str))
	}
	if g := po.EntryIDMatchRatio(a, b); a.Plural != "" == isPlural(a) && b.Plural != "" == isPlural(b) && g != avg(ids) {
		return failf("ratio", "EntryIDMatchRatio = %d, that of its parts is %v\n%s\n%s", g, ids, dumpE(a), dumpE(b))
	}
	if g := po.EntryStrMatchRatio(a, b); g != avg(strs) {
		return failf("ratio", "EntryStrMatchRatio = %d, that of its parts is %v\n%s\n%s", g, strs, dumpE(a), dumpE(b))
	}
	for _, s := range []string{a.ID, a.Str, a.Context} {
		if s != "" && one(s, s) != 100 {
			return failf("ratio", "%q matches itself by %d", s, one(s, s))
		}
	}
	// Best matches: the first one with the highest ratio above zero.
	es := ents{{ID: "qqq", Str: "qqq"}, b, {ID: "m", Str: "A"}, cloneE(b), a}
	best := func(f func(x, y ent) int) (at, top int) {
		for i, e := range es {
			if q := f(a, e); q > top {
				at, top = i, q
			}
		}
		return
	}
	at, top := best(po.EntryIDMatchRatio)
	if g, q := es.BestIDRatio(a); g != at || q != top {
		return failf("best", "BestIDRatio = %d (%d), expected %d (%d)\n%s\nin\n%s", g, q, at, top, dumpE(a), dump(es))
	}
	at, top = best(po.EntryStrMatchRatio)
	if g, q := es.BestStrRatio(a); g != at || q != top {
		return failf("best", "BestStrRatio = %d (%d), expected %d (%d)\n%s\nin\n%s", g, q, at, top, dumpE(a), dump(es))
	}
	return nil
}

// c11Find checks the lookup of similar messages: clearly similar ones are found, clearly different ones are not.
func c11Find(w *W, es ents, id, ctx string) error {
	ratio := func(x, y string) int {
		if x == y {
			return 100
		}
		return po.EntryIDMatchRatio(ent{ID: x}, ent{ID: y})
	}
	g := es.FuzzyFind(id, ctx)
	w.Trans(1)
	if g < -1 || g >= len(es) {
		return failf("find", "FuzzyFind(%q,%q) = %d in\n%s", id, ctx, g, dump(es))
	}
	if g >= 0 && (ratio(es[g].ID, id) < 60 || ratio(es[g].Context, ctx) < 60) {
		return failf("find", "FuzzyFind(%q,%q) = %d, which is different, in\n%s", id, ctx, g, dump(es))
	}
	for i, e := range es {
		if (g < 0 || i < g) && ratio(e.ID, id) >= 90 && ratio(e.Context, ctx) >= 90 {
			return failf("find", "FuzzyFind(%q,%q) = %d, entry %d is similar in\n%s", id, ctx, g, i, dump(es))
		}
	}
	return nil
}

// c11Predicates checks what an entry says about itself.
func c11Predicates(e ent) error {
	for _, p := range []struct {
		name      string
		got, want bool
	}{
		{"IsPlural", e.IsPlural(), e.Plural != "" || len(e.Plurals) > 0},
		{"HasContext", e.HasContext(), e.Context != ""},
		{"IsFuzzy", e.IsFuzzy(), isFuzzy(e)},
		{"IsHeader", e.IsHeader(), e.ID == "" && e.Context == ""},
		{"HasComments", e.HasComments(), len(e.Comments)+len(e.ExtractedComments)+len(e.Flags)+len(e.Previous)+len(e.Locations) > 0},
	} {
		if p.got != p.want {
			return failf("predicate", "%s = %v of %s", p.name, p.got, dumpE(e))
		}
	}
	return nil
}

func runC11(r *Run) {
	menu, ops := c11Menu(), c11Ops()
	body := func(l, depth int) func(w *W, i int64) error {
		return func(w *W, i int64) error {
			d := &Dec{i}
			var seq []int
			n := pow(len(ops), depth)
			k := d.i % n
			for j := 0; j < depth; j++ {
				seq = append(seq, int(k%int64(len(ops))))
				k /= int64(len(ops))
			}
			var model ents
			for _, j := range seqAt(len(menu), d.i/n) {
				model = append(model, cloneE(menu[j]))
			}
			f := po.NewFile("the file", clone(model)...)
			start := dump(model)
			w.desc = start + "\nops: "
			for _, o := range seq {
				w.desc += ops[o].name + " "
			}
			if d.i%n == 0 {
				w.State(start)
				if err := c11Queries(f, model); err != nil {
					return err
				}
			}
			for s, o := range seq {
				op := ops[o]
				op.run(f)
				w.Trans(1)
				if op.want != nil {
					model, _ = op.want(model)
					if err := sameEntries("op", fmt.Sprintf("after %s (step %d)", op.name, s+1), f.Entries, model); err != nil {
						return err
					}
				} else {
					if err := op.rel(model, f.Entries); err != nil {
						return err
					}
					model = clone(f.Entries)
				}
				w.State(dump(model))
			}
			w.Trace()
			return c11Queries(f, model)
		}
	}
	l, depth := 3, 2
	if r.Thorough {
		l, depth = 4, 2
	}
	r.Space("operations", "every sequence of clean-up, solve and set operations up to the depth from every catalog of up to the bound over 12 entries, every lookup and report checked after it", seqCount(len(menu), l)*pow(len(ops), depth), body(l, depth))
	r.Space("deep", "longer sequences from smaller catalogs", seqCount(len(menu), 2)*pow(len(ops), 3), body(2, 3))
	if r.Thorough {
		r.Space("deeper", "longest sequences from catalogs of up to 2 entries", seqCount(len(menu), 2)*pow(len(ops), 4), body(2, 4))
	}
	odd := append(richMenu(), oddEntries()...)
	richPairs(r, "pairs", "each operation, then every lookup and report", odd, len(ops), func(w *W, a, b ent, k int) error {
		es := ents{a, b, cloneE(a)}
		f := po.NewFile("the file", clone(es)...)
		op := ops[k]
		op.run(f)
		w.Trans(1)
		w.Trace()
		if op.want == nil {
			if err := op.rel(es, f.Entries); err != nil {
				return err
			}
			return c11Queries(f, clone(f.Entries))
		}
		want, _ := op.want(clone(es))
		if err := sameEntries("op", op.name, f.Entries, want); err != nil {
			return err
		}
		return c11Queries(f, want)
	})
	richPairs(r, "ratios", "match ratios and best matches", odd, 1, func(w *W, a, b ent, k int) error {
		w.Trans(8)
		w.Trace()
		return c11Ratios(a, b)
	})
	// Large lists: duplicates far apart.
	r.Space("large", "lists of up to 120 entries with identities repeating in every period", prod(121, 30, 3), func(w *W, i int64) error {
		d := &Dec{i}
		n, p, op := d.N(121), d.N(30)+1, d.N(3)
		var es ents
		for k := 0; k < n; k++ {
			e := cloneE(menu[k%5])
			e.ID = fmt.Sprintf("id%d", k%p)
			e.Context = ""
			e.Locations = locs{{Line: k, File: "x"}}
			es = append(es, e)
		}
		w.Desc("%d entries, period %d, operation %d", n, p, op)
		w.State(w.desc)
		w.Trans(1)
		w.Trace()
		f := po.NewFile("x", clone(es)...)
		switch op {
		case 0:
			return sameEntries("large", "CleanDuplicates", f.CleanDuplicates(), refDedupe(es))
		case 1:
			return checkSolve(es, f.Solve())
		}
		return c11Queries(f, es)
	})
	// Duplicate resolution with priorities.
	prior := ents{{ID: "m", Str: "prior", Comments: strs("pc"), Locations: locs{{Line: 7, File: "p"}}}, {ID: "m", Context: "c", Str: "prior c"}}
	list := strs("m", "c\x04m")
	fids := []string{"Open the file", "Open the files", "Close it", "", "Open  the file"}
	fctx := []string{"", "main menu", "main menus", "k"}
	var fmenu ents
	for _, id := range fids {
		for _, c := range fctx {
			fmenu = append(fmenu, ent{ID: id, Context: c})
		}
	}
	r.Space("similar", "the lookup of similar messages in all lists of up to 2 (thorough: 3), by every id and context", seqCount(len(fmenu), map[bool]int{false: 2, true: 3}[r.Thorough]), func(w *W, i int64) error {
		var es ents
		for _, j := range seqAt(len(fmenu), i) {
			es = append(es, fmenu[j])
		}
		w.Desc("%s", dump(es))
		w.State(w.desc)
		w.Trace()
		for _, id := range fids {
			for _, c := range fctx {
				if err := c11Find(w, es, id, c); err != nil {
					return err
				}
			}
		}
		return nil
	})
	r.Space("predicates", "every entry with each field absent or present in one or two ways", prod(2, 2, 2, 2, 2, 2, 2, 2, 3, 4, 2), func(w *W, i int64) error {
		d := &Dec{i}
		str := func(s string) string { return map[bool]string{true: s}[d.B()] }
		list := func(s ...string) []string { return map[bool][]string{true: s}[d.B()] }
		e := ent{ID: str("id"), Context: str("c"), Plural: str("ps"), Str: str("t"), Comments: list("x"), ExtractedComments: list("y", "fuzzy"), Previous: list("z"), Obsolete: d.B()}
		e.Locations = []locs{nil, {}, {{Line: 1, File: "f"}}}[d.N(3)]
		e.Flags = [][]string{nil, strs("fuzzy"), strs("c-format"), strs("no-fuzzy", "fuzzy")}[d.N(4)]
		if d.B() {
			e.Plurals = pes{{ID: 0}}
		}
		w.Desc("%s", dumpE(e))
		w.State(w.desc)
		w.Trace()
		w.Trans(5)
		return c11Predicates(e)
	})
	flags := strs("fuzzy", "definitely-not-fuzzy", "no-fuzzy", "fuzzy-logic-format", "xfuzzy", "fuzzyx", "FUZZY", "Fuzzy", " fuzzy", "fuzzy ", "", "c-format", "fuzzy, c-format", "fuz")
	r.Space("flags", "all lists of up to three flags, most of them nearly fuzzy, in a catalog with a fuzzy message: fuzziness, clean-up and lookups", seqCount(len(flags), 3), func(w *W, i int64) error {
		e := ent{ID: "id", Str: "x"}
		for _, k := range seqAt(len(flags), i) {
			e.Flags = append(e.Flags, flags[k])
		}
		w.Desc("%s", dumpE(e))
		w.State(w.desc)
		w.Trace()
		w.Trans(6)
		if err := c11Predicates(e); err != nil {
			return err
		}
		es := ents{e, {ID: "other", Str: "y", Flags: strs("fuzzy")}, {ID: "last"}}
		if err := sameEntries("clean", "CleanFuzzy", clone(es).CleanFuzzy(), filterE(es, func(e ent) bool { return !isFuzzy(e) })); err != nil {
			return err
		}
		return c11Queries(&po.File{Entries: clone(es)}, es)
	})
	r.Space("priorities", "duplicate resolution with every priority strategy", seqCount(len(menu), 3)*4*2, func(w *W, i int64) error {
		d := &Dec{i}
		k := d.N(4)
		prior, list := prior, list
		if d.B() { // only the one with the context has priority
			prior, list = prior[1:], list[1:]
		}
		var es ents
		for _, j := range seqAt(len(menu), d.i) {
			es = append(es, cloneE(menu[j]))
		}
		w.Desc("strategy %d, %d with priority\n%s", k, len(prior), dump(es))
		var model ents
		at := map[[2]string]int{}
		for _, e := range es {
			j, ok := at[uid(e)]
			if !ok {
				at[uid(e)] = len(model)
				model = append(model, cloneE(e))
				continue
			}
			pi := -1
			for x, q := range prior {
				if uid(q) == uid(e) {
					pi = x
				}
			}
			switch k {
			case 0:
				if pi >= 0 {
					model[j] = *po.SolveMerge(cloneE(prior[pi]), cloneE(e))
				} else {
					model[j] = *po.SolveMerge(model[j], cloneE(e))
				}
			case 1:
				model[j] = *po.SolveMerge(model[j], cloneE(e))
				if pi < 0 {
					model[j].Obsolete = true
				}
			case 2:
				if pi >= 0 {
					model[j] = *po.SolveMerge(model[j], cloneE(e))
				}
			default:
				if pi >= 0 {
					model[j] = cloneE(prior[pi])
				} else {
					model[j] = *po.SolveMerge(model[j], cloneE(e))
				}
			}
		}
		fs := []po.MergeFunc{po.MergeUsingPriorAsBase(prior), po.MergeAndMarkObsoleteIfNotPrioritized(list), po.MergeIfInPriorityList(list), po.MergeUsingPriorityOrFallback(prior)}
		got := clone(es).SolveFunc(fs[k])
		w.Trans(1)
		w.Trace()
		return sameEntries("priority", "resolved", got, model)
	})
	// Plural forms.
	forms := pes{{ID: 0, Str: "a"}, {ID: 0, Str: "b"}, {ID: 1, Str: "a"}, {ID: 1, Str: ""}, {ID: 10, Str: "a"}, {ID: -1, Str: "0\x00a"}}
	r.Space("plurals", "resolving all lists of up to 5 plural forms", seqCount(len(forms), 5), func(w *W, i int64) error {
		var in, want pes
		for _, j := range seqAt(len(forms), i) {
			in = append(in, forms[j])
			dup := false
			for _, p := range want {
				dup = dup || p == forms[j]
			}
			if !dup {
				want = append(want, forms[j])
			}
		}
		w.Desc("%v", in)
		w.State(fmt.Sprint(in))
		w.Trans(1)
		w.Trace()
		if got := in.Solve(); dumpE(ent{Plurals: got}) != dumpE(ent{Plurals: want}) {
			return failf("plurals", "Solve gives %v, expected %v", dumpE(ent{Plurals: got}), dumpE(ent{Plurals: want}))
		}
		return nil
	})
}
