// C27: repeating an operation on its own result changes nothing further.
package main

import (
	"fmt"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func init() {
	props["C27"] = propDef{
		level: "model_checking",
		notes: []string{
			"oracle: the result of the first application; no expectation of what it is",
			"templates have distinct messages; existing catalogs may repeat them",
			"concatenation is repeated on its one result, which is then the only input; the selection by number of definitions is left at its default for the second time",
		},
		run: runC27,
	}
}

func c27Merge(w *W, def, ref ents, c mergeCfg) error {
	seen := map[[2]string]bool{}
	for _, e := range ref {
		if seen[uid(e)] {
			return nil // a template says one thing about each message
		}
		seen[uid(e)] = true
	}
	one := po.Merge(clone(def), clone(ref), c.opts()...)
	w.Trans(1)
	keep := clone(one)
	two := po.Merge(one, clone(ref), c.opts()...)
	w.Trans(1)
	w.Trace()
	return sameEntries("merge", fmt.Sprintf("merging the result with the same template again (%+v) gives something else", c), two, keep)
}

func c27Cat(w *W, a, b ents, first bool) error {
	o := po.MsgcatMergeWithUseFirst(first)
	one := po.MsgcatMergeFiles([]*po.File{{Name: "a.po", Entries: clone(a)}, {Name: "b.po", Entries: clone(b)}}, o)
	keep := clone(one)
	two := po.MsgcatMergeFiles([]*po.File{{Name: "c.po", Entries: one}}, o)
	w.Trans(2)
	w.Trace()
	return sameEntries("cat", fmt.Sprintf("concatenating the result alone (use-first %v) gives something else", first), two, keep)
}

var c27Ops = []struct {
	name string
	f    func(ents) ents
}{
	{"Solve", func(e ents) ents { return e.Solve() }},
	{"CleanDuplicates", func(e ents) ents { return e.CleanDuplicates() }},
	{"CleanEmpties", func(e ents) ents { return e.CleanEmpties() }},
	{"CleanFuzzy", func(e ents) ents { return e.CleanFuzzy() }},
	{"CleanObsoletes", func(e ents) ents { return e.CleanObsoletes() }},
	{"Sort", func(e ents) ents { return e.Sort() }},
	{"SolveFunc/empty list", func(e ents) ents { return e.SolveFunc(po.MergeIfInPriorityList(nil)) }},
	{"SortByID", func(e ents) ents { return po.SortByID.SortMethod(e)() }},
	{"SortByFile", func(e ents) ents { return po.SortByFile.SortMethod(e)() }},
	{"SortByFuzzy", func(e ents) ents { return po.SortByFuzzy.SortMethod(e)() }},
	{"SortByObsolete", func(e ents) ents { return po.SortByObsolete.SortMethod(e)() }},
}

func c27Clean(w *W, l ents) error {
	for _, op := range c27Ops {
		one := op.f(clone(l))
		keep := clone(one)
		two := op.f(one)
		w.Trans(2)
		if err := sameEntries("op:"+op.name, op.name+" of its own result gives something else", two, keep); err != nil {
			return err
		}
	}
	w.Trace()
	return nil
}

func runC27(r *Run) {
	dm, rm := c08Defs(), c08Refs()
	cfgs := mergeCfgs()
	dl, rl, perCfg := 2, 2, 4
	if r.Thorough {
		dl, rl, perCfg = 3, 3, 4
	}
	nd, nr := seqCount(len(dm), dl), seqCount(len(rm), rl)
	r.Space("merge", "all pairs of an existing catalog and a template, sequences over 13 definitions and 12 template messages, several merge settings each", nd*nr*int64(perCfg), func(w *W, i int64) error {
		d := &Dec{i}
		sub := d.N(perCfg)
		c := cfgs[(sub*len(cfgs)/perCfg+int(d.i%int64(len(cfgs)/4)))%len(cfgs)]
		var def, ref ents
		for k, j := range seqAt(len(dm), d.i%nd) {
			e := cloneE(dm[j])
			tag := string(rune('1' + k))
			if e.ID != "" && e.Str != "" {
				e.Str += tag
			}
			for p := range e.Plurals {
				e.Plurals[p].Str += tag
			}
			def = append(def, e)
		}
		for _, j := range seqAt(len(rm), d.i/nd) {
			ref = append(ref, cloneE(rm[j]))
		}
		w.Desc("%+v\nexisting:\n%s\ntemplate:\n%s", c, dump(def), dump(ref))
		w.State(dump(def) + "\n--\n" + dump(ref))
		return c27Merge(w, def, ref, c)
	})
	richPairs(r, "merge-entries", "as existing message (with a header) and as template message, four settings", richMenu(), 4, func(w *W, a, b ent, k int) error {
		def := ents{a}
		if !isHeader(a) {
			def = ents{{Str: "Language: es\nPlural-Forms: nplurals=3; plural=n;\n", Comments: strs("t")}, a}
		}
		return c27Merge(w, def, ents{{Str: "Plural-Forms: nplurals=2; plural=n;\n"}, b}, cfgs[k*len(cfgs)/4+len(w.desc)%(len(cfgs)/4)])
	})
	richPairs(r, "cat-entries", "one in each of two files, both ways of choosing", richMenu(), 2, func(w *W, a, b ent, k int) error {
		return c27Cat(w, ents{a}, ents{b}, k == 1)
	})
	cl := 3
	if r.Thorough {
		cl = 4
	}
	nc := seqCount(len(dm), cl)
	r.Space("cat", "all catalogs over the 13 definitions, cut in two files at every place, both ways of choosing", nc*int64(cl+1)*2, func(w *W, i int64) error {
		d := &Dec{i}
		first, cut := d.B(), d.N(cl+1)
		l := seqAt(len(dm), d.i)
		if cut > len(l) {
			return nil
		}
		var a, b ents
		for k, j := range l {
			e := cloneE(dm[j])
			e.Comments = append(e.Comments, fmt.Sprint("c", k%2))
			if e.ID != "" && e.Str != "" {
				e.Str += fmt.Sprint(k)
			}
			if k < cut {
				a = append(a, e)
			} else {
				b = append(b, e)
			}
		}
		w.Desc("first=%v\n%s\n--\n%s", first, dump(a), dump(b))
		w.State(w.desc)
		return c27Cat(w, a, b, first)
	})
	richPairs(r, "clean-entries", "every clean-up and sort of the list of both", append(richMenu(), oddEntries()...), 1, func(w *W, a, b ent, k int) error {
		return c27Clean(w, ents{a, b})
	})
	r.Space("clean", "every clean-up and sort of all catalogs over the 13 definitions", nc, func(w *W, i int64) error {
		var l ents
		for k, j := range seqAt(len(dm), i) {
			e := cloneE(dm[j])
			e.Locations = append(e.Locations, loc{Line: 9 - k, File: "x.go"})
			l = append(l, e)
		}
		w.Desc("%s", dump(l))
		w.State(w.desc)
		return c27Clean(w, l)
	})
	large(r, "merging, concatenating, clean-up and sorting", 129, 257, 4, func(w *W, cat ents, k int) error {
		if err := c27Merge(w, cat, bigTemplate(cat), cfgs[k*len(cfgs)/4+len(cat)%(len(cfgs)/4)]); err != nil {
			return err
		}
		if k >= 2 {
			return c27Clean(w, append(clone(cat), clone(cat[len(cat)/2:])...))
		}
		a, b := bigParts(cat)
		return c27Cat(w, a, b, k == 1)
	})

	// The tools.
	texts := []string{
		"msgid \"\"\nmsgstr \"Language: es\\nPlural-Forms: nplurals=2; plural=n;\\n\"\n\n# c\n#: z.go:9\nmsgid \"Open file\"\nmsgstr \"T\"\n\nmsgid \"quux\"\nmsgid_plural \"quuxes\"\nmsgstr[0] \"a\"\nmsgstr[1] \"b\"\n\n#~ msgid \"gone\"\n#~ msgstr \"G\"\n",
		"msgid \"Open filed\"\nmsgstr \"T\"\n\nmsgctxt \"k\"\nmsgid \"quux\"\nmsgstr \"Q\"\n",
		"# h\nmsgid \"\"\nmsgstr \"Language: es\\n\"\n\n#, fuzzy, c-format\n#| msgid \"old\"\nmsgid \"Open file\"\nmsgid_plural \"Open files\"\nmsgstr[0] \"1\"\nmsgstr[1] \"2\"\n",
		"",
	}
	pots := []string{
		"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n;\\n\"\n\n#: a.go:1\nmsgid \"Open file\"\nmsgstr \"\"\n\n#: a.go:2\n#, c-format\nmsgid \"new %d\"\nmsgid_plural \"news %d\"\nmsgstr[0] \"\"\nmsgstr[1] \"\"\n",
		"#. x\n#: b.go:1\nmsgid \"Open files\"\nmsgid_plural \"Open many\"\nmsgstr[0] \"\"\n\nmsgctxt \"k\"\nmsgid \"quux\"\nmsgstr \"\"\n",
		"msgid \"quux\"\nmsgid_plural \"quuxes\"\nmsgstr[0] \"\"\nmsgstr[1] \"\"\n\nmsgid \"gone\"\nmsgstr \"\"\n",
	}
	opts := [][]string{nil, {"--no-fuzzy-matching"}, {"--no-location"}, {"--lang", "fr"}, {"--force-po"}, {"--no-wrap"}, {"--add-location", "file"}, {"--add-location", "never"}, {"-C", "c.po"}, {"-N", "-C", "c.po"}}
	r.Space("msgomerge", "msgomerge on its own output, to a file and in place, every option", prod(len(texts), len(pots), len(opts), 2), func(w *W, i int64) error {
		d := &Dec{i}
		def, pot, o, inplace := texts[d.N(len(texts))], pots[d.N(len(pots))], opts[d.N(len(opts))], d.B()
		w.Desc("msgomerge %v in place %v\n%s\n--\n%s", o, inplace, def, pot)
		w.State(w.desc)
		prev := ""
		for k := 0; k < 3; k++ {
			args := append(strs("d.po", "t.pot", "-o", "o.po"), o...)
			out := "o.po"
			if inplace {
				args, out = append(strs("-U", "d.po", "t.pot"), o...), "d.po"
			}
			res, err := r.cli(w, cliJob{tool: "msgomerge", args: args, files: tree{"d.po": def, "t.pot": pot, "c.po": "msgid \"from c\"\nmsgstr \"C\"\n\nmsgid \"quux\"\nmsgstr \"CQ\"\n"}})
			if err != nil {
				return err
			}
			if res.code != 0 {
				return nil // C23 says which must succeed
			}
			def = res.tree[out]
			same := def == prev
			if k == 1 && len(o) > 0 && strings.Contains(o[0], "location") {
				// the result is sorted by references that are then not written
				p1, e1 := readPo(prev)
				p2, e2 := readPo(def)
				same = e1 == nil && e2 == nil && dump(p1.Sort()) == dump(p2.Sort())
			}
			if k > 0 && !same {
				return failf("msgomerge", "run %d of %s changes its own result: %s\nfirst:\n%s\nthen:\n%s", k+1, res.cmd, firstDiff(def, prev), prev, def)
			}
			prev = def
		}
		w.Trace()
		return nil
	})
	copts := [][]string{nil, {"--use-first"}, {"--sort-output"}, {"--sort-by-file"}, {"--no-location"}, {"--lang", "fr"}, {"--no-wrap"}, {"--add-location", "file"}, {"--use-first", "--sort-by-file", "--lang", "de"}}
	r.Space("msgocat", "msgocat on its own output, all pairs of catalogs and templates, every option", prod(len(texts)+len(pots), len(texts)+len(pots), len(copts)), func(w *W, i int64) error {
		d := &Dec{i}
		all := append(append([]string{}, texts...), pots...)
		a, b, o := all[d.N(len(all))], all[d.N(len(all))], copts[d.N(len(copts))]
		w.Desc("msgocat %v\n%s\n--\n%s", o, a, b)
		w.State(w.desc)
		res, err := r.cli(w, cliJob{tool: "msgocat", args: append(strs("a.po", "b.po"), o...), files: tree{"a.po": a, "b.po": b}})
		if err != nil {
			return err
		}
		if res.code != 0 {
			return nil
		}
		prev := res.out
		for k := 2; k <= 3; k++ {
			again, err := r.cli(w, cliJob{tool: "msgocat", args: append(strs("o.po"), o...), files: tree{"o.po": prev}})
			if err != nil {
				return err
			}
			same := again.out == prev
			if k == 2 { // obsolete messages between others move to the end
				p1, e1 := readPo(prev)
				p2, e2 := readPo(again.out)
				same = e1 == nil && e2 == nil && dump(p1) == dump(p2)
			}
			if again.code != 0 || !same {
				return failf("msgocat", "%s of its own result (exit %d %s) differs: %s\nfirst:\n%s\nthen:\n%s", again.cmd, again.code, again.err, firstDiff(again.out, prev), prev, again.out)
			}
			prev = again.out
		}
		w.Trace()
		return nil
	})
	src := "package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nfunc f() {\n\tgotext.Get(\"one\")\n\tgotext.GetN(\"two\", \"twos\", 2)\n\tgotext.GetC(\"one\", \"ctx\")\n}\n"
	xopts := [][]string{nil, {"-j"}, {"-j", "--omit-header"}, {"-j", "--no-location"}, {"-j", "-m", "P"}, {"-j", "-M", "S"}, {"-j", "-m", "p", "-M", "s"}, {"-j", "--add-location", "file"}, {"-j", "--extract-all"}, {"-j", "--title", "t"}, {"-j", "--lang", "es"}, {"--omit-header"}}
	r.Space("xgotext", "xgotext run three times on the same source and output, every option", prod(len(texts)+1, len(xopts)), func(w *W, i int64) error {
		d := &Dec{i}
		def, o := append(append([]string{}, texts...), "\x00")[d.N(len(texts)+1)], xopts[d.N(len(xopts))]
		w.Desc("xgotext %v\n%s", o, def)
		w.State(w.desc)
		files := tree{"a.go": src}
		if def != "\x00" {
			files["o.po"] = def
		}
		prev := ""
		for k := 0; k < 3; k++ {
			res, err := r.cli(w, cliJob{tool: "xgotext", args: append(strs("a.go", "-o", "o.po"), o...), files: files})
			if err != nil {
				return err
			}
			if res.code != 0 {
				return nil
			}
			out := res.tree["o.po"]
			files["o.po"] = out
			same := out == prev
			if k == 1 { // a header made anew and one that was kept are laid out differently
				p1, e1 := readPo(prev)
				p2, e2 := readPo(out)
				if strings.Contains(strings.Join(o, " "), "location") {
					p1, p2 = p1.Sort(), p2.Sort()
				}
				same = e1 == nil && e2 == nil && dump(p1) == dump(p2)
			}
			if k > 0 && !same {
				return failf("xgotext", "run %d of %s changes its own result: %s\nfirst:\n%s\nthen:\n%s", k+1, res.cmd, firstDiff(out, prev), prev, out)
			}
			prev = out
		}
		w.Trace()
		return nil
	})
}
