// C02: writing a catalog to PO and reading it back preserves every part of every entry.
package main

import (
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C02"] = propDef{
		level: "model_checking",
		notes: []string{
			"comments, flags and references are representable on one line (no line breaks; flags without comma; reference files not ending in :digits)",
			"custom obsolete prefixes other than the markers of the other comment kinds",
			"a reference without a line number is represented by line -1, as the reader does",
			"oracle: live entries in order, then obsolete entries in order, every exported field equal; an untranslated plural entry reads back with the empty forms 0 and 1",
		},
		run: runC02,
	}
}

// Feature menus of one entry.
var (
	mComments = [][]string{nil, {"x"}, {""}, {"one", "", "  indented "}, {"~ like obsolete"}, {", fuzzy"}, {": a.go:1"}, {". dot"}, {"| bar", "# hash"}, {"msgid \"x\""}, {"a\tb", "end "}, {"\tx", "\u3000y"}}
	mExtr     = [][]string{nil, {"e"}, {"", "~ e", "  two"}}
	mFlags    = [][]string{nil, {"fuzzy"}, {"c-format"}, {"fuzzy", "no-wrap", "x y"}}
	mLocs     = []locs{nil, {{Line: 1, File: "a.go"}}, {{Line: 3, File: "dir/b c.go"}, {Line: 2, File: "a.go"}}, {{Line: -1, File: "only file.go"}}, {{Line: 0, File: `C:\x.go`}, {Line: 12, File: "b.go"}, {Line: 12, File: "b.go"}}, {{Line: 1, File: "~x.go"}, {Line: -1, File: "y"}}}
	mPrev     = [][]string{nil, {`msgid "old"`}, {`msgctxt "c"`, `msgid "old"`, ""}}
	mCtx      = []string{"", "ctx"}
	mKind     = []func(*ent){
		func(e *ent) { e.Str = "t" },
		func(e *ent) {},
		func(e *ent) { e.Plural = "ps"; e.Plurals = pes{{ID: 0, Str: "f0"}, {ID: 1, Str: "f1"}} },
		func(e *ent) { e.Plural = "ps"; e.Plurals = pes{{ID: 0, Str: "f0"}} },
		func(e *ent) {
			e.Plural = "ps"
			e.Plurals = pes{{ID: 0, Str: ""}, {ID: 1, Str: "x\ny"}, {ID: 2, Str: ""}}
		},
		func(e *ent) { e.Plural = "ps" },
		func(e *ent) { e.Str = "one\ntwo\n" },
		func(e *ent) {
			e.Plural = "ps"
			e.Plurals = pes{{ID: 2, Str: "c"}, {ID: 0, Str: "a"}, {ID: 10, Str: "k"}}
		},
	}
)

// c02Options are the writer/reader configurations.
type ioCfg struct {
	name string
	w    []compile.PoOption
	r    []parse.PoOption
}

func ioCfgs(prefixes string) []ioCfg {
	out := []ioCfg{
		{name: "default"},
		{name: "wrap", w: []compile.PoOption{compile.PoWithWordWrap(true)}},
	}
	for _, c := range prefixes {
		out = append(out, ioCfg{"prefix " + string(c),
			[]compile.PoOption{compile.PoWithUseCustomObsoletePrefix(true), compile.PoWithCustomObsoletePrefixRune(c)},
			[]parse.PoOption{parse.PoWithUseCustomObsoletePrefix(true), parse.PoWithCustomObsoletePrefix(c)},
		})
	}
	return out
}

// poImage is what a PO file can say about a catalog: live entries, then obsolete ones.
func poImage(cat ents) ents {
	var live, obs ents
	for _, e := range cat {
		e = cloneE(e)
		if e.Plural != "" && len(e.Plurals) == 0 {
			e.Str = ""
			e.Plurals = pes{{ID: 0}, {ID: 1}}
		}
		if e.Obsolete {
			obs = append(obs, e)
		} else {
			live = append(live, e)
		}
	}
	return append(live, obs...)
}

func roundtrip(w *W, cat ents, c ioCfg) error {
	text, err := writePo(cat, c.w...)
	if err != nil {
		return err
	}
	got, err := readPo(text, c.r...)
	if err != nil {
		return err
	}
	w.Trans(2)
	w.Trace()
	if err := sameEntries("roundtrip", c.name+": read back differs; text:\n"+text, got, poImage(cat)); err != nil {
		return err
	}
	return nil
}

// featEntry decodes one entry from the full feature product.
func featEntry(d *Dec) ent {
	e := ent{ID: "id", Context: mCtx[d.N(len(mCtx))]}
	mKind[d.N(len(mKind))](&e)
	e.Obsolete = d.B()
	e.Comments = cloneStrs(mComments[d.N(len(mComments))])
	e.ExtractedComments = cloneStrs(mExtr[d.N(len(mExtr))])
	e.Flags = cloneStrs(mFlags[d.N(len(mFlags))])
	e.Locations = append(locs(nil), mLocs[d.N(len(mLocs))]...)
	e.Previous = cloneStrs(mPrev[d.N(len(mPrev))])
	return e
}

func featCount() int64 {
	return prod(len(mCtx), len(mKind), 2, len(mComments), len(mExtr), len(mFlags), len(mLocs), len(mPrev))
}

// richPool are entries that differ in what they carry; used for neighbour interference.
func richPool() ents {
	return ents{
		{ID: "p", Str: "t"},
		{ID: "p"},
		{ID: "p", Str: "t", Comments: strs("c1", "c2")},
		{ID: "p", Str: "t", Flags: strs("fuzzy"), Locations: locs{{Line: 4, File: "f.go"}}},
		{ID: "p", Str: "t", Previous: strs(`msgid "o"`), ExtractedComments: strs("x")},
		{ID: "p", Context: "k", Plural: "ps", Plurals: pes{{ID: 0, Str: "a"}, {ID: 1, Str: "b"}}},
		{ID: "p", Str: "multi\nline\n", Comments: strs(""), Locations: locs{{Line: 1, File: "g.go"}, {Line: 2, File: "g.go"}}},
		{ID: "p", Plural: "ps", Flags: strs("c-format", "fuzzy"), Comments: strs("~ no"), ExtractedComments: strs("", "y")},
	}
}

func runC02(r *Run) {
	cfgs := ioCfgs("!")
	r.Space("features", "one entry, full product of context, kind, obsolete mark, comments, flags, references, previous lines; all writer/reader configurations", featCount(), func(w *W, i int64) error {
		d := &Dec{i}
		e := featEntry(d)
		cat := ents{{Str: "Language: es\n"}, e, {ID: "next", Str: "n", Comments: strs("next's")}}
		w.Desc("%s", dumpE(e))
		w.State(w.desc)
		for _, c := range cfgs {
			if !r.Thorough && c.name == "wrap" && i%4 != 0 {
				continue
			}
			if err := roundtrip(w, cat, c); err != nil {
				return err
			}
		}
		return nil
	})

	pool := richPool()
	n := len(pool) * 2
	l := 3
	if r.Thorough {
		l = 4
	}
	all := ioCfgs("!=^*%xé_+$[")
	r.Space("neighbours", "all sequences of up to the bound of 16 different live/obsolete entries, with and without header", 2*seqCount(n, l), func(w *W, i int64) error {
		d := &Dec{i}
		hdr := d.B()
		var cat ents
		if hdr {
			cat = append(cat, ent{Str: "Language: es\n", Comments: strs("title"), Flags: strs("fuzzy")})
		}
		for k, j := range seqAt(n, d.i) {
			e := cloneE(pool[j/2])
			e.Obsolete = j%2 == 1
			e.ID = "id" + string(rune('a'+k))
			cat = append(cat, e)
		}
		w.Desc("%s", dump(cat))
		w.State(w.desc)
		for ci, c := range all {
			if !r.Thorough && ci > 0 && ci != int(i)%len(all) {
				continue
			}
			if err := roundtrip(w, cat, c); err != nil {
				return err
			}
		}
		return nil
	})

	rich := richMenu()
	richPairs(r, "pairs", "each writer/reader configuration", rich, len(cfgs), func(w *W, a, b ent, k int) error {
		if uid(a) == uid(b) {
			if isHeader(b) {
				return nil
			}
			b.ID += "2"
		}
		return roundtrip(w, ents{a, b}, cfgs[k])
	})

	// Lists within one entry.
	words := []string{"fuzzy", "c-format", "c", "no-c-format", "no-c", "x y", "range: 0..9", "fuzzy-ish", "\xe9"}
	lines := []string{"", "x", " x", "  x", "x ", "~ x", "~", ", fuzzy", ". d", ": a:1", "| p", "#", "# x", `msgid "y"`, "\tz", "ü", "%s", "\xe9"}
	files := []string{"a.go", "dir/b c.go", "a", "C:\\x.go", "ü.go", "-", "~a", "x, y.go", "d\xe9.go"}
	nums := []int{-1, 0, 1, 10, 1 << 31}
	ll := 3
	if r.Thorough {
		ll = 4
	}
	nl := []int64{seqCount(len(words), ll), seqCount(len(lines), ll-1), seqCount(len(lines), ll-1), seqCount(len(lines), ll-1), seqCount(len(files)*len(nums), ll-1)}
	r.Space("lists", "every sequence of flags, comments, extracted comments, previous lines or references up to the bound (repeated ones and ones that are prefixes of others included), live and obsolete", 2*(nl[0]+nl[1]+nl[2]+nl[3]+nl[4]), func(w *W, i int64) error {
		e := ent{ID: "id", Str: "t", Obsolete: i%2 == 1}
		i /= 2
		k := 0
		for i >= nl[k] {
			i -= nl[k]
			k++
		}
		pick := func(from []string) (out []string) {
			for _, j := range seqAt(len(from), i) {
				out = append(out, from[j])
			}
			return
		}
		switch k {
		case 0:
			e.Flags = pick(words)
		case 1:
			e.Comments = pick(lines)
		case 2:
			e.ExtractedComments = pick(lines)
		case 3:
			e.Previous = pick(lines)
		default:
			for _, j := range seqAt(len(files)*len(nums), i) {
				e.Locations = append(e.Locations, loc{Line: nums[j/len(files)], File: files[j%len(files)]})
			}
		}
		w.Desc("%s", dumpE(e))
		w.State(w.desc)
		return roundtrip(w, ents{{ID: "first", Str: "f"}, e, {ID: "next", Str: "n", Comments: strs("next's")}}, cfgs[i%3])
	})

	// Whole-catalog sizes.
	counts := []int{1, 7, 12, 13, 50, 51, 100, 300}
	if r.Thorough {
		counts = append(counts, 1000, 3000)
	}
	r.Space("counts", "catalogs of up to hundreds of entries cycling through the pool", prod(len(counts), 3), func(w *W, i int64) error {
		d := &Dec{i}
		n, c := counts[d.N(len(counts))], cfgs[d.N(3)]
		var cat ents
		for k := 0; k < n; k++ {
			e := cloneE(pool[k%len(pool)])
			e.Obsolete = k%3 == 2
			e.ID = "id " + string(rune('a'+k%26)) + string(rune('a'+k/26%26)) + string(rune('a'+k/676))
			cat = append(cat, e)
		}
		w.Desc("%d entries, %s", n, c.name)
		w.State(w.desc)
		return roundtrip(w, cat, c)
	})
	large(r, "written and read back under three configurations", 257, 1025, 3, func(w *W, cat ents, k int) error {
		return roundtrip(w, cat, cfgs[k])
	})
}
