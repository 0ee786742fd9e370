// C17: library calls leave their inputs unchanged and repeat with the same result.
package main

import (
	"bytes"
	"fmt"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C17"] = propDef{
		level: "model_checking",
		notes: []string{
			"all lists of the shared catalogs have spare capacity filled with marked values, and the spare part is compared as well",
			"sorting and removing header, fuzzy, obsolete or empty entries work in place on the list they are called on; in the histories they are called on results, never on the shared catalogs",
			"oracle: value semantics - every call is repeated on deep copies without spare capacity, and every variable must keep its value",
		},
		run: runC17,
	}
}

// spare copies a catalog so that all its lists have marked spare capacity.
func spare(es ents) ents {
	poison := ent{ID: "POISON", Str: "POISON", Flags: strs("POISON")}
	out := make(ents, 0, len(es)+3)
	for _, e := range es {
		e.Flags = spareStrs(e.Flags)
		e.Comments = spareStrs(e.Comments)
		e.ExtractedComments = spareStrs(e.ExtractedComments)
		e.Previous = spareStrs(e.Previous)
		ps := make(pes, 0, len(e.Plurals)+2)
		ps = append(ps, e.Plurals...)
		for i, f := len(ps), ps[:cap(ps)]; i < len(f); i++ {
			f[i] = pe{ID: 77, Str: "POISON"}
		}
		e.Plurals = ps
		ls := make(locs, 0, len(e.Locations)+2)
		ls = append(ls, e.Locations...)
		for i, f := len(ls), ls[:cap(ls)]; i < len(f); i++ {
			f[i] = loc{Line: 77, File: "POISON"}
		}
		e.Locations = ls
		out = append(out, e)
	}
	for i, f := len(out), out[:cap(out)]; i < len(f); i++ {
		f[i] = poison
	}
	return out
}

func spareStrs(l []string) []string {
	out := make([]string, 0, len(l)+2)
	out = append(out, l...)
	for i, f := len(out), out[:cap(out)]; i < len(f); i++ {
		f[i] = "POISON"
	}
	return out
}

// dumpFull is the canonical text of a catalog including the spare capacity of all its lists.
func dumpFull(es ents) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|", len(es))
	for _, e := range es[:cap(es)] {
		fmt.Fprintf(&b, "%d,%d,%d,%d,%d,%d:", len(e.Flags), len(e.Comments), len(e.ExtractedComments), len(e.Previous), len(e.Plurals), len(e.Locations))
		e.Flags = e.Flags[:cap(e.Flags)]
		e.Comments = e.Comments[:cap(e.Comments)]
		e.ExtractedComments = e.ExtractedComments[:cap(e.ExtractedComments)]
		e.Previous = e.Previous[:cap(e.Previous)]
		e.Plurals = e.Plurals[:cap(e.Plurals)]
		e.Locations = e.Locations[:cap(e.Locations)]
		b.WriteString(dumpE(e))
	}
	return b.String()
}

// c17Op is a library call on a catalog and another one.
type c17Op struct {
	name string
	f    func(a, b ents) (string, ents) // the text of everything returned, and a catalog if there is one
}

func textOp(name string, f func(a, b ents) string) c17Op {
	return c17Op{name, func(a, b ents) (string, ents) { return f(a, b), nil }}
}

func catOp(name string, f func(a, b ents) ents) c17Op {
	return c17Op{name, func(a, b ents) (string, ents) { r := f(a, b); return dump(r), r }}
}

func errText(errs []error) string {
	var b strings.Builder
	for _, e := range errs {
		b.WriteString(e.Error() + "\n")
	}
	return b.String()
}

var c17Cmps = entCmps()

// c17Core are the calls used in histories.
func c17Core() []c17Op {
	return []c17Op{
		textOp("compile to PO", func(a, b ents) string { return compile.PoToString(a) }),
		textOp("compile to PO, all options", func(a, b ents) string {
			return compile.PoToString(&po.File{Name: "f.po", Entries: a}, compile.PoWithOmitHeader(true), compile.PoWithCommentFuzzy(true), compile.PoWithWordWrap(true), compile.PoWithMsgstrPrefix("<"), compile.PoWithMsgstrSuffix(">"), compile.PoWithAddLocation("file"))
		}),
		textOp("compile to PO with managed header", func(a, b ents) string {
			return compile.PoToString(po.File{Name: "f.po", Entries: a}, compile.PoWithManageHeader(true), compile.PoWithHeaderComments(true), compile.PoWithHeaderFields(true), compile.PoWithNoLocation(true))
		}),
		textOp("compile to MO", func(a, b ents) string { return string(compile.MoToBytes(a)) }),
		textOp("compile to MO as it is", func(a, b ents) string {
			return string(compile.MoToBytes(&po.File{Entries: a}, compile.MoWithDepureEntries(false), compile.MoWithSortEntries(false)))
		}),
		catOp("merge", func(a, b ents) ents { return po.Merge(a, b) }),
		catOp("merge as template", func(a, b ents) ents { return po.Merge(b, a, po.MergeWithSort(false)) }),
		catOp("merge without fuzzy matching", func(a, b ents) ents {
			return po.Merge(a, b, po.MergeWithFuzzyMatch(false), po.MergeWithKeepPreviousIDs(true))
		}),
		catOp("concatenate", func(a, b ents) ents {
			return po.MsgcatMergeFiles([]*po.File{{Name: "1.po", Entries: a}, {Name: "2.po", Entries: b}, {Name: "3.po", Entries: a}})
		}),
		catOp("concatenate, first", func(a, b ents) ents {
			return po.MsgcatMergeFiles([]*po.File{{Name: "1.po", Entries: b}, {Name: "2.po", Entries: a}}, po.MsgcatMergeWithUseFirst(true))
		}),
		catOp("solve", func(a, b ents) ents { return append(clone(a), b...).Solve() }),
		catOp("solve one list", func(a, b ents) ents { return a.Solve() }),
		catOp("clean duplicates", func(a, b ents) ents { return a.CleanDuplicates() }),
	}
}

// c17More are further calls, used one by one and in pairs.
func c17More() (ops []c17Op) {
	ops = c17Core()
	for _, h := range []bool{false, true} {
		for _, e := range []compile.Endianness{compile.LittleEndian, compile.BigEndian} {
			ops = append(ops, textOp("MO bytes", func(a, b ents) string {
				return string(compile.MoToBytes(a, compile.MoWithHashTable(h), compile.MoWithEndianness(e)))
			}))
		}
	}
	for sm := po.SortByAll; sm <= po.SortByObsolete; sm++ {
		ops = append(ops, catOp("merge sorted", func(a, b ents) ents { return po.Merge(a, b, po.MergeWithSortMode(sm)) }))
	}
	ops = append(ops,
		catOp("concatenate, bounds", func(a, b ents) ents {
			return po.MsgcatMergeFiles([]*po.File{{Name: "1.po", Entries: a}, {Name: "2.po", Entries: b}}, po.MsgcatMergeWithMoreThan(1), po.MsgcatMergeWithLessThan(5))
		}),
		catOp("solve with prior base", func(a, b ents) ents { return append(clone(a), a...).SolveFunc(po.MergeUsingPriorAsBase(b)) }),
		catOp("solve with fallback", func(a, b ents) ents {
			return append(clone(a), a...).SolveFunc(po.MergeUsingPriorityOrFallback(b))
		}),
		catOp("solve marking obsolete", func(a, b ents) ents {
			return a.SolveFunc(po.MergeAndMarkObsoleteIfNotPrioritized([]string{"m"}))
		}),
		catOp("solve if listed", func(a, b ents) ents { return a.SolveFunc(po.MergeIfInPriorityList([]string{"m", "p"})) }),
		textOp("look up", func(a, b ents) string {
			f := po.File{Entries: a}
			var s strings.Builder
			for _, e := range b {
				fmt.Fprint(&s, a.Index(e.ID, e.Context), a.IndexByUnifiedID(e.UnifiedID()), a.ContainsUnifiedID(e.UnifiedID()), f.Load(e.ID, e.Context), f.LoadByUnifiedID(e.UnifiedID()), a.FuzzyFind(e.ID, e.Context))
				fmt.Fprintln(&s, e.UnifiedID(), e.FullUnifiedID(), e.UnifiedStr(), e.Hash(), e.FullHash())
			}
			fmt.Fprint(&s, a.HasHeader(), a.HasDuplicates(), a.IsSorted(), a.Header())
			return s.String()
		}),
		textOp("best ratios", func(a, b ents) string {
			var s strings.Builder
			for _, e := range b {
				i, r := a.BestIDRatio(e)
				j, q := a.BestStrRatio(e)
				fmt.Fprintln(&s, i, r, j, q)
			}
			return s.String()
		}),
		textOp("compare", func(a, b ents) string {
			var s strings.Builder
			fmt.Fprint(&s, a.Equal(b), a.Equal(a), b.Equal(a), po.File{Entries: a}.Equal(po.File{Entries: b}), po.CompareEntriesFunc(a, b, po.CompareEntry))
			for _, x := range a {
				for _, y := range b {
					for _, c := range c17Cmps {
						fmt.Fprint(&s, c.real(x, y), " ")
					}
					fmt.Fprint(&s, x.Equal(y), x.Plurals.Equal(y.Plurals), x.Locations.Equal(y.Locations), po.EntryIDMatchRatio(x, y), po.EntryStrMatchRatio(x, y))
				}
			}
			return s.String()
		}),
		textOp("validate", func(a, b ents) string {
			return errText(a.Validate()) + errText(po.File{Name: "n", Entries: b}.Validate()) + errText(a.CatchDuplicateEntries()) + errText(po.File{Entries: a}.CatchDuplicateEntries())
		}),
		textOp("format", func(a, b ents) string {
			s := a.String() + po.File{Name: "n", Entries: b}.String()
			for _, e := range a {
				s += e.String() + e.Plurals.String() + e.Locations.String() + errText(e.Validate())
			}
			return s + a.Header().String()
		}),
		textOp("solve plurals", func(a, b ents) string {
			s := ""
			for _, e := range append(clone(a), b...) {
				s += e.Plurals.Solve().String()
			}
			for _, e := range a {
				x := e.Plurals.Solve()
				x.Sort()
				s += x.String()
			}
			return s
		}),
		textOp("header", func(a, b ents) string {
			h := a.Header()
			h.Set("X", "y")
			h.Register("Z", "z")
			h2 := a.Header()
			return h.String() + h2.String() + dumpE(h.ToEntry()) + h2.ToConfig().String()
		}),
	)
	return
}

// c17InPlace work on the list they are called on and return it.
var c17InPlace = []struct {
	name string
	f    func(ents) ents
}{
	{"sort", func(e ents) ents { return e.Sort() }},
	{"sort by obsolete", func(e ents) ents { return e.SortFunc(po.CompareEntryByObsolete) }},
	{"cut header", func(e ents) ents { return e.CutHeader() }},
	{"remove fuzzy", func(e ents) ents { return e.CleanFuzzy() }},
	{"remove obsolete", func(e ents) ents { return e.CleanObsoletes() }},
	{"remove empty", func(e ents) ents { return e.CleanEmpties() }},
	{"set", func(e ents) ents {
		f := po.File{Entries: e}
		f.Set("new", "", ent{ID: "new", Str: "set"})
		f.Set("m", "", ent{ID: "m", Str: "set"})
		return f.Entries
	}},
}

// c17Pool are the entries the shared catalogs are made of.
func c17Pool() ents {
	return ents{
		{Str: "Language: es\nPlural-Forms: nplurals=3; plural=0;\n", Flags: strs("fuzzy")},
		{ID: "m", Str: "t", Comments: strs("c"), Locations: locs{{Line: 9, File: "b.go"}, {Line: 2, File: "a.go"}}},
		{ID: "m", Str: "u", Flags: strs("fuzzy", "x"), Locations: locs{{Line: 1, File: "a.go"}}, Comments: strs("d"), ExtractedComments: strs("e")},
		{ID: "message one", Context: "k", Str: "v", Previous: strs(`msgid "o"`), ExtractedComments: strs("e", "f")},
		{ID: "message two", Str: "w", Obsolete: true, Flags: strs("fuzzy")},
		{ID: "p", Plural: "ps", Plurals: pes{{ID: 1, Str: "b"}, {ID: 0, Str: "a"}}, Flags: strs("x")},
		{ID: "p", Plural: "ps2", Plurals: pes{{ID: 0, Str: "c"}}, Locations: locs{{Line: 3, File: "c.go"}}},
		{ID: "message ones", Context: "k", Plural: "pl"},
		{ID: "p", Str: "singular", Obsolete: true},
	}
}

// snug copies a catalog without any spare capacity, telling nil from empty lists.
func snug(es ents) ents {
	out := snugList(es)
	for i := range out {
		e := &out[i]
		e.Flags, e.Comments = snugList(e.Flags), snugList(e.Comments)
		e.ExtractedComments, e.Previous = snugList(e.ExtractedComments), snugList(e.Previous)
		e.Plurals, e.Locations = snugList(e.Plurals), snugList(e.Locations)
	}
	return out
}

func snugList[S ~[]E, E any](l S) S {
	if l == nil {
		return nil
	}
	out := make(S, len(l), len(l)+1) // not shared with other empty lists: the debug format shows sharing
	copy(out, l)
	return out[:len(l):len(l)]
}

// c17Run runs an operation and checks that nothing else happened.
func c17Run(w *W, op c17Op, a, b ents, why string) (string, ents, error) {
	ca, cb := snug(a), snug(b)
	fa, fb := dumpFull(a), dumpFull(b)
	text, res := op.f(a, b)
	w.Trans(1)
	if g := dumpFull(a); g != fa {
		return "", nil, failf("modified", "%s: %s modified its argument (with spare capacity)\n now: %s\n was: %s", why, op.name, g, fa)
	}
	if g := dumpFull(b); g != fb {
		return "", nil, failf("modified", "%s: %s modified its second argument (with spare capacity)\n now: %s\n was: %s", why, op.name, g, fb)
	}
	want, _ := op.f(ca, cb)
	if text != want {
		return "", nil, failf("differs", "%s: %s gives another result than on a fresh copy: %s", why, op.name, firstDiff(text, want))
	}
	return text, res, nil
}

func runC17(r *Run) {
	pool := c17Pool()
	more := c17More()
	n := len(pool)
	l := 3
	if r.Thorough {
		l = 4
	}
	r.Space("calls", "every call on all catalogs of up to the bound of entries with spare capacity, three times, compared with deep copies", seqCount(n, l)*2, func(w *W, i int64) error {
		d := Dec{i}
		second := d.B()
		var a ents
		for _, j := range seqAt(n, d.i) {
			a = append(a, pool[j])
		}
		b := pool
		if second {
			b = ents{pool[1], pool[3], pool[5], pool[7]}
		}
		a, b = spare(a), spare(b)
		w.Desc("%s\n---\n%s", dump(a), dump(b))
		w.State(w.desc)
		w.Trace()
		for _, op := range more {
			first, res, err := c17Run(w, op, a, b, "once")
			if err != nil {
				return err
			}
			for k := 0; k < 2; k++ {
				again, _, err := c17Run(w, op, a, b, "again")
				if err != nil {
					return err
				}
				if again != first {
					return failf("repeat", "%s gives another result the second time\n%q\n%q", op.name, again, first)
				}
			}
			if res != nil && dump(res) != first {
				return failf("alias", "a later %s changed the result of the first one", op.name)
			}
		}
		return nil
	})

	rich := append(richMenu(), oddEntries()...)
	rstep := 4
	if r.Thorough {
		rstep = 1
	}
	richPairs(r, "entries", fmt.Sprintf("every call, every %d-th pair", rstep), rich, 1, func(w *W, x, y ent, k int) error {
		if rstep > 1 && (len(dumpE(x))+len(dumpE(y)))%rstep != 0 {
			return nil
		}
		a, b := spare(ents{x, {ID: "m", Str: "A", Comments: strs("own")}, y}), spare(ents{y, {ID: "mess", Context: "k"}})
		w.Trace()
		for _, op := range more {
			first, res, err := c17Run(w, op, a, b, "once")
			if err != nil {
				return err
			}
			again, _, err := c17Run(w, op, a, b, "again")
			if err != nil {
				return err
			}
			if again != first || res != nil && dump(res) != first {
				return failf("repeat", "%s gives another result the second time, or changes its first result\n%q\n%q", op.name, again, first)
			}
		}
		return nil
	})

	// Histories on shared data: every variable keeps its value.
	core := c17Core()
	type pair struct{ a, b ents }
	pairs := []pair{
		{ents{pool[0], pool[1], pool[5], pool[3], pool[4]}, ents{pool[2], pool[7], pool[6]}},
		{ents{pool[2], pool[6], pool[1]}, ents{pool[0], pool[1], pool[4], pool[8]}},
		{ents{pool[1]}, ents{pool[1], pool[3]}},
		{ents{pool[0], pool[4], pool[8], pool[1]}, ents{}},
	}
	// a step: a call on (A, B), on (latest result, A) or on (latest result, latest result), or an in-place call on the latest result
	nc, ni := len(core), len(c17InPlace)
	steps := 3*nc + ni
	depth := 3
	r.Space("histories", "all sequences of calls up to the bound on two shared catalogs and the results of earlier calls, every variable compared with its value after each step", prod(len(pairs))*seqCount(steps, depth), func(w *W, i int64) error {
		d := Dec{i}
		p := pairs[d.N(len(pairs))]
		vars := []ents{spare(p.a), spare(p.b)}
		vals := []string{dumpFull(vars[0]), dumpFull(vars[1])} // shared catalogs: with spare capacity
		var names []string
		check := func() error {
			for k, v := range vars {
				got := dump(v)
				if k < 2 {
					got = dumpFull(v)
				}
				if got != vals[k] {
					return failf("alias", "after %s: variable %d changed\n now: %s\n was: %s", strings.Join(names, "; "), k, got, vals[k])
				}
			}
			return nil
		}
		for _, s := range seqAt(steps, d.i) {
			last := len(vars) - 1
			if s >= 3*nc {
				if last < 2 {
					continue // no result yet
				}
				ip := c17InPlace[s-3*nc]
				names = append(names, ip.name+" on the result")
				want := dump(ip.f(clone(vars[last])))
				vars[last] = ip.f(vars[last])
				vals[last] = want
				w.Trans(1)
			} else {
				op := core[s%nc]
				x, y := 0, 1
				switch s / nc {
				case 1:
					x, y = last, 0
				case 2:
					x, y = last, last
				}
				names = append(names, fmt.Sprintf("%s(%d,%d)", op.name, x, y))
				_, res, err := c17Run(w, op, vars[x], vars[y], strings.Join(names, "; "))
				if err != nil {
					w.Desc("%v", names)
					return err
				}
				if res != nil {
					vars = append(vars, res)
					vals = append(vals, dump(res))
				}
			}
			if err := check(); err != nil {
				w.Desc("%v", names)
				return err
			}
		}
		w.Desc("%v", names)
		w.State(strings.Join(vals, "\x00"))
		w.Trace()
		return nil
	})

	runC17Objects(r)
	runC17Configs(r)
	classes := append(append([]string{}, c20Classes...), "")
	ncl := len(classes)
	sty := append(clone(pool), ent{ID: "100%d\n", Str: "%s\t", Flags: strs("fuzzy", "c-format")}, ent{ID: "p", Plural: "ps", Plurals: pes{{ID: 0, Str: "x"}, {ID: 1}}}, ent{ID: "o", Str: "x", Obsolete: true})
	r.Space("styles", "every pair of classes (and the predefined sets without each of theirs) as the styles given by reference to the writer, twice, with every kind of message", prod(ncl, ncl, 3), func(w *W, i int64) error {
		d := Dec{i}
		a, b := classes[d.N(ncl)], classes[d.N(ncl)]
		h := compile.CSSClassesHighlighting{}
		switch d.N(3) {
		case 0:
			h[a] = compile.HighlightCSSProperties{Color: termEsc("31")}
			h[b] = compile.HighlightCSSProperties{FontWeight: compile.FontWeightBold}
		case 1:
			for k, v := range compile.TestHighlight {
				h[k] = v
			}
			delete(h, a)
			delete(h, b)
		default:
			for k, v := range compile.DefaultHighlight {
				h[k] = v
			}
			delete(h, a)
			delete(h, b)
		}
		show := func() string {
			return fmt.Sprint(h, len(compile.TestHighlight), len(compile.DefaultHighlight)) // maps are shown in the order of their keys
		}
		was := show()
		w.Desc("%q %q %d classes", a, b, len(h))
		w.State(was)
		w.Trace()
		first := ""
		for k := 0; k < 2; k++ {
			got := compile.PoToString(sty, compile.PoWithHighlight(h), compile.PoWithManageHeader(true))
			hl, _ := compile.Highlight(h, "x.po", got)
			got += string(hl)
			w.Trans(2)
			if k == 1 && got != first {
				return failf("repeat", "writing with the same styles again: %s", firstDiff(got, first))
			}
			first = got
			if now := show(); now != was {
				return failf("modified", "writing changed the styles it was given\n now: %s\n was: %s", now, was)
			}
		}
		return nil
	})
	large(r, "every call twice, compared with deep copies", 65, 257, 1, func(w *W, cat ents, k int) error {
		x, y := bigParts(cat)
		a, b := spare(append(x, x[len(x)-1])), spare(y)
		w.Trace()
		for _, op := range more {
			first, res, err := c17Run(w, op, a, b, "once")
			if err != nil {
				return err
			}
			again, _, err := c17Run(w, op, a, b, "again")
			if err != nil {
				return err
			}
			if again != first || res != nil && dump(res) != first {
				return failf("repeat", "%s gives another result the second time, or changes its first result", op.name)
			}
		}
		return nil
	})
}

// runC17Objects explores histories of one compiler or parser object.
func runC17Objects(r *Run) {
	pool := c17Pool()
	depth := 4
	if r.Thorough {
		depth = 5
	}
	f1 := func() *po.File { return &po.File{Name: "1.po", Entries: spare(pool)} }
	f2 := func() *po.File { return &po.File{Name: "2.po", Entries: spare(ents{pool[5], pool[2], pool[1]})} }
	type poStep struct {
		name string
		opts []compile.PoOption
	}
	poSteps := []poStep{
		{"plain", nil},
		{"omit header", []compile.PoOption{compile.PoWithOmitHeader(true)}},
		{"managed header", []compile.PoOption{compile.PoWithManageHeader(true), compile.PoWithHeaderFields(true)}},
		{"comment fuzzy, no location", []compile.PoOption{compile.PoWithCommentFuzzy(true), compile.PoWithNoLocation(true)}},
		{"prefix, wrap", []compile.PoOption{compile.PoWithMsgstrPrefix("P"), compile.PoWithWordWrap(true)}},
	}
	n := len(poSteps)*3 + 1
	r.Space("po-compiler", "all sequences of string, byte and writer calls with options and of changes of the file on one PO compiler", seqCount(n, depth), func(w *W, i int64) error {
		files := []*po.File{f1(), f2()}
		full := []string{dumpFull(files[0].Entries), dumpFull(files[1].Entries)}
		cur := 0
		c := compile.NewPo(files[0])
		var names []string
		for _, j := range seqAt(n, i) {
			if j == n-1 {
				cur = 1 - cur
				c.SetFile(files[cur])
				names = append(names, "other file")
				continue
			}
			s := poSteps[j%len(poSteps)]
			names = append(names, s.name)
			var got string
			switch j / len(poSteps) {
			case 0:
				if s.opts == nil {
					got = c.ToString()
				} else {
					got = c.ToStringWithOptions(s.opts...)
				}
			case 1:
				if s.opts == nil {
					got = string(c.ToBytes())
				} else {
					got = string(c.ToBytesWithOptions(s.opts...))
				}
			default:
				var b bytes.Buffer
				var err error
				if s.opts == nil {
					err = c.ToWriter(&b)
				} else {
					err = c.ToWriterWithOptions(&b, s.opts...)
				}
				if err != nil {
					return failf("object", "%v: %v", names, err)
				}
				got = b.String()
			}
			w.Trans(1)
			want := compile.PoToString(&po.File{Name: files[cur].Name, Entries: clone(files[cur].Entries)}, s.opts...)
			if got != want {
				w.Desc("%v", names)
				return failf("object", "PO compiler after %v gives another result than a new one: %s", names, firstDiff(got, want))
			}
			for k, f := range files {
				if g := dumpFull(f.Entries); g != full[k] {
					return failf("modified", "PO compiler after %v: file %d is modified\n%s\n%s", names, k, g, full[k])
				}
			}
		}
		w.Desc("%v", names)
		w.State(w.desc)
		w.Trace()
		return nil
	})
	type moStep struct {
		name string
		opts []compile.MoOption
	}
	moSteps := []moStep{
		{"plain", nil},
		{"big endian", []compile.MoOption{compile.MoWithEndianness(compile.BigEndian)}},
		{"no hash, unsorted", []compile.MoOption{compile.MoWithHashTable(false), compile.MoWithSortEntries(false)}},
		{"everything", []compile.MoOption{compile.MoWithDepureEntries(false)}},
	}
	mn := len(moSteps)*2 + 1
	r.Space("mo-compiler", "all sequences of byte and writer calls with options and of changes of the file on one MO compiler", seqCount(mn, depth+1), func(w *W, i int64) error {
		files := []*po.File{f1(), f2()}
		full := []string{dumpFull(files[0].Entries), dumpFull(files[1].Entries)}
		cur := 0
		c := compile.NewMo(files[0])
		var names []string
		for _, j := range seqAt(mn, i) {
			if j == mn-1 {
				cur = 1 - cur
				c.SetFile(files[cur])
				names = append(names, "other file")
				continue
			}
			s := moSteps[j%len(moSteps)]
			names = append(names, s.name)
			var got []byte
			if j < len(moSteps) {
				if s.opts == nil {
					got = c.ToBytes()
				} else {
					got = c.ToBytesWithOptions(s.opts...)
				}
			} else {
				var b bytes.Buffer
				if s.opts == nil {
					c.ToWriter(&b)
				} else {
					c.ToWriterWithOptions(&b, s.opts...)
				}
				got = b.Bytes()
			}
			w.Trans(1)
			want := compile.MoToBytes(&po.File{Name: files[cur].Name, Entries: clone(files[cur].Entries)}, s.opts...)
			if !bytes.Equal(got, want) {
				w.Desc("%v", names)
				return failf("object", "MO compiler after %v gives another result than a new one: %s", names, firstDiff(string(got), string(want)))
			}
			for k, f := range files {
				if g := dumpFull(f.Entries); g != full[k] {
					return failf("modified", "MO compiler after %v: file %d is modified\n%s\n%s", names, k, g, full[k])
				}
			}
		}
		w.Desc("%v", names)
		w.State(w.desc)
		w.Trace()
		return nil
	})

	// Parsers: the input bytes stay as they are, results are independent of each other.
	docs := []string{sampleDoc, "msgid \"a\"\nmsgstr \"b\"\n#~ msgid \"o\"\n#~ msgstr \"p\"\n", "", "msgid \"bad", "#, fuzzy\nmsgid \"\"\nmsgstr \"K: v\\n\"\n# c\n#: a.go:1 b.go:2\nmsgid \"x\"\nmsgid_plural \"y\"\nmsgstr[0] \"1\"\nmsgstr[1] \"2\"\n"}
	type ppStep struct {
		name string
		opts []parse.PoOption
	}
	pps := []ppStep{{"plain", nil}, {"no header", []parse.PoOption{parse.PoWithSkipHeader(true)}}, {"no comments", []parse.PoOption{parse.PoWithIgnoreAllComments(true)}}, {"no obsolete", []parse.PoOption{parse.PoWithParseObsolete(false)}}, {"duplicates", []parse.PoOption{parse.PoWithCleanDuplicates(false)}},
		{"damage the result", nil}, {"compile the result", nil}}
	r.Space("po-parser", "all sequences of Parse and ParseWithOptions on one PO parser, with changes to earlier results in between", prod(len(docs))*seqCount(len(pps), depth), func(w *W, i int64) error {
		d := Dec{i}
		doc := docs[d.N(len(docs))]
		buf := append(make([]byte, 0, len(doc)+16), doc...)
		p := parse.NewPoFromBytes(buf, "d.po")
		var last *po.File
		var names []string
		for _, j := range seqAt(len(pps), d.i) {
			s := pps[j]
			names = append(names, s.name)
			switch s.name {
			case "damage the result":
				if last != nil {
					for k := range last.Entries {
						e := &last.Entries[k]
						e.ID, e.Str = "D", "D"
						for x := range e.Comments {
							e.Comments[x] = "D"
						}
						for x := range e.Locations {
							e.Locations[x].Line = -1
						}
						for x := range e.Plurals {
							e.Plurals[x].Str = "D"
						}
						for x := range e.Flags {
							e.Flags[x] = "D"
						}
					}
				}
				continue
			case "compile the result":
				if last != nil {
					compile.PoToString(last)
					compile.MoToBytes(last)
				}
				continue
			}
			if s.opts == nil {
				last = p.Parse()
			} else {
				last = p.ParseWithOptions(s.opts...)
			}
			w.Trans(1)
			errs := errText(p.Errors())
			q := parse.NewPoFromString(doc, "d.po", s.opts...)
			want := q.Parse()
			wd, gd := "nil", "nil"
			if want != nil {
				wd = dump(want.Entries)
			}
			if last != nil {
				gd = dump(last.Entries)
			}
			if gd != wd || errs != errText(q.Errors()) {
				w.Desc("%v", names)
				return failf("object", "PO parser after %v gives\n%s\n%s\na new one gives\n%s\n%s", names, gd, errs, wd, errText(q.Errors()))
			}
			if string(buf) != doc {
				return failf("modified", "the PO parser changed its input")
			}
		}
		w.Desc("%q %v", doc, names)
		w.State(w.desc)
		w.Trace()
		return nil
	})
	cat := spare(ents{pool[0], pool[1], pool[3], pool[5]})
	imgs := [][]byte{compile.MoToBytes(cat), compile.MoToBytes(cat, compile.MoWithEndianness(compile.BigEndian), compile.MoWithHashTable(false)), {}, compile.MoToBytes(cat)[:40]}
	r.Space("mo-parser", "all sequences of Parse and ParseWithOptions on one MO parser, with changes to earlier results in between", prod(len(imgs))*seqCount(5, depth+1), func(w *W, i int64) error {
		d := Dec{i}
		img := imgs[d.N(len(imgs))]
		buf := append(make([]byte, 0, len(img)+16), img...)
		p := parse.NewMoFromBytes(buf, "d.mo")
		var last *po.File
		seq := seqAt(5, d.i)
		w.Desc("%v on %d bytes", seq, len(img))
		for _, j := range seq {
			var opts []parse.MoOption
			switch j {
			case 1:
				opts = append(opts, parse.MoWithEndianness(compile.BigEndian))
			case 2:
				opts = append(opts, parse.MoWithEndianness(compile.LittleEndian))
			case 3:
				opts = append(opts, parse.MoWithMustBeSorted(true))
			case 4:
				if last != nil {
					for k := range last.Entries {
						last.Entries[k].Str = "D"
						for x := range last.Entries[k].Plurals {
							last.Entries[k].Plurals[x].Str = "D"
						}
					}
				}
				continue
			}
			if opts == nil {
				last = p.Parse()
			} else {
				last = p.ParseWithOptions(opts...)
			}
			w.Trans(1)
			q := parse.NewMoFromBytes(append([]byte{}, img...), "d.mo", opts...)
			want := q.Parse()
			wd, gd := "nil", "nil"
			if want != nil {
				wd = dump(want.Entries)
			}
			if last != nil {
				gd = dump(last.Entries)
			}
			if gd != wd || errText(p.Errors()) != errText(q.Errors()) {
				return failf("object", "MO parser after %v gives\n%s\n%s\na new one gives\n%s\n%s", seq, gd, errText(p.Errors()), wd, errText(q.Errors()))
			}
			if !bytes.Equal(buf, img) {
				return failf("modified", "the MO parser changed its input")
			}
		}
		w.State(w.desc)
		w.Trace()
		return nil
	})
	// One-off readers on shared bytes.
	texts := append([]string{goDoc}, docs...)
	r.Space("bytes", "every reader on shared bytes with spare capacity", prod(len(texts), 5), func(w *W, i int64) error {
		d := Dec{i}
		text := texts[d.N(len(texts))]
		buf := append(make([]byte, 0, len(text)+16), text...)
		full := string(buf[:cap(buf)])
		w.Desc("%q", text)
		w.State(w.desc)
		k := d.N(5)
		run := func() string {
			switch k {
			case 0:
				f, err := goparse.FromBytes(buf, "x.go", goparse.WithExtractAll(true))
				if f != nil {
					return fmt.Sprint(dump(f.Entries), err)
				}
				return fmt.Sprint(err)
			case 1:
				f, err := parse.PoFromBytes(buf, "x.po")
				if f != nil {
					return fmt.Sprint(dump(f.Entries), err)
				}
				return fmt.Sprint(err)
			case 2:
				f, err := parse.MoFromBytes(buf, "x.mo")
				if f != nil {
					return fmt.Sprint(dump(f.Entries), err)
				}
				return fmt.Sprint(err)
			case 3:
				b, err := compile.HighlightFromBytes(compile.DefaultHighlight, "x.po", buf)
				return fmt.Sprint(string(b), err)
			default:
				f, err := parse.PoFromReader(bytes.NewReader(buf), "x.po")
				if f != nil {
					return fmt.Sprint(dump(f.Entries), err)
				}
				return fmt.Sprint(err)
			}
		}
		a := run()
		b := run()
		w.Trans(2)
		w.Trace()
		if a != b {
			return failf("repeat", "second run differs: %s", firstDiff(b, a))
		}
		if string(buf[:cap(buf)]) != full {
			return failf("modified", "the input bytes are changed")
		}
		return nil
	})
}

// runC17Configs gives configurations and headers by reference, several times.
func runC17Configs(r *Run) {
	src := "package x\n\nimport \"github.com/leonelquinteros/gotext\"\n\nvar a = gotext.Get(\"A\")\nvar b = gotext.Get(\"A\")\nvar c = \"lit\"\n"
	cfgs := []po.HeaderConfig{{}, po.DefaultHeaderConfig(), po.DefaultTemplateHeaderConfig(), {XGenerator: "own", Language: "es", Nplurals: 3, Plural: "n", ExtraFields: []po.HeaderField{{Key: "E", Value: "v"}}}}
	heads := []po.Header{{}, {Fields: []po.HeaderField{{Key: "Custom", Value: "yes"}}}, {Fields: []po.HeaderField{{Key: "X-Generator", Value: "own"}, {Key: "Language"}, {Key: "x-generator", Value: "2"}}, Template: true}}
	kinds := len(cfgs)*(len(heads)+1) + len(heads) + 1
	r.Space("configurations", "header configurations, headers, exclude lists and source texts given by reference to extraction, with every option, and used again for a second extraction and for writing", prod(kinds, 2, 2, 2, 3), func(w *W, i int64) error {
		d := Dec{i}
		kind, noHeader, dups, all, how := d.N(kinds), d.B(), d.B(), d.B(), d.N(3)
		var cfg *po.HeaderConfig
		var head *po.Header
		ci, hi := kind/(len(heads)+1)-1, kind%(len(heads)+1)-1
		if ci >= 0 {
			c := cfgs[ci]
			cfg = &c
		}
		if hi >= 0 {
			h := heads[hi]
			h.Fields = append(make([]po.HeaderField, 0, len(h.Fields)+2), h.Fields...)
			tail := h.Fields[len(h.Fields):cap(h.Fields)]
			tail[0].Key = "POISON"
			head = &h
		}
		ex := append(make([]string, 0, 4), "./not/there", "b/../c")
		ex[:3][2] = "POISON"
		buf := append(make([]byte, 0, len(src)+8), src...)
		state := func() string {
			s := fmt.Sprintf("%q %q", ex[:cap(ex)], buf)
			if cfg != nil {
				s += fmt.Sprintf("%+v", *cfg)
			}
			if head != nil {
				s += fmt.Sprintf("%+v %+v", *head, head.Fields[:cap(head.Fields)])
			}
			return s
		}
		was := state()
		base := goparse.DefaultConfig(goparse.WithHeaderConfig(cfg), goparse.WithCustomHeader(head), goparse.WithExclude(ex...), goparse.WithNoHeader(noHeader), goparse.WithCleanDuplicates(!dups), goparse.WithExtractAll(all))
		baseWas := fmt.Sprintf("%+v", base)
		w.Desc("configuration %d header %d noheader=%v dups=%v all=%v how=%d", ci, hi, noHeader, dups, all, how)
		w.State(w.desc)
		var first string
		var p *goparse.Parser
		for round := 1; round <= 3; round++ {
			var f *po.File
			var err error
			switch {
			case how == 0:
				f, err = goparse.FromBytes(buf, "a.go", goparse.WithConfig(base))
			case how == 1:
				f, err = goparse.FromString(src, "a.go", goparse.WithHeaderConfig(cfg), goparse.WithCustomHeader(head), goparse.WithExclude(ex...), goparse.WithNoHeader(noHeader), goparse.WithCleanDuplicates(!dups), goparse.WithExtractAll(all))
			case p == nil:
				if p, err = goparse.NewParserFromBytes(buf, "a.go", goparse.WithConfig(base)); err != nil {
					return failf("error", "%v", err)
				}
				fallthrough
			default:
				f, err = p.Parse(), p.Error()
			}
			w.Trans(1)
			if err != nil {
				return failf("error", "%v", err)
			}
			text := dump(f.Entries)
			if round == 1 {
				first = text
			}
			if text != first {
				return failf("repeat", "extraction %d gives another result\n%s\n%s", round, text, first)
			}
			if g := state(); g != was {
				return failf("modified", "extraction %d modified what it was given\n now: %s\n was: %s", round, g, was)
			}
			if g := fmt.Sprintf("%+v", base); g != baseWas {
				return failf("modified", "extraction %d modified the configuration\n now: %s\n was: %s", round, g, baseWas)
			}
			// the same configuration for writing
			pc := compile.DefaultPoConfig()
			pc.HeaderConfig, pc.ManageHeader, pc.HeaderFields = cfg, true, true
			full := dumpFull(f.Entries)
			a := compile.PoToString(f, compile.PoWithConfig(pc))
			if b := compile.PoToString(f, compile.PoWithConfig(pc)); a != b {
				return failf("repeat", "writing twice: %s", firstDiff(a, b))
			}
			if g := state(); g != was {
				return failf("modified", "writing modified what it was given\n now: %s\n was: %s", g, was)
			}
			if g := dumpFull(f.Entries); g != full {
				return failf("modified", "writing modified the catalog\n now: %s\n was: %s", g, full)
			}
			if head != nil {
				e := head.ToEntry()
				c := head.ToConfig()
				if dumpE(e) != dumpE(head.ToEntry()) || fmt.Sprintf("%+v", c) != fmt.Sprintf("%+v", head.ToConfig()) {
					return failf("repeat", "converting the header twice differs")
				}
			}
			if cfg != nil {
				h := cfg.ToHeader()
				h.Set("X-Generator", "changed")
				h.Register("Another", "v")
			}
			if g := state(); g != was {
				return failf("modified", "converting headers modified them\n now: %s\n was: %s", g, was)
			}
			f.Set("", "", ent{Str: "Changed: yes\n"})
			for k := range f.Entries {
				f.Entries[k].ID += "!"
			}
		}
		w.Trace()
		return nil
	})
}
