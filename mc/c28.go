// C28: writing what was read is stable: the second generation of a file is the first.
package main

import (
	"fmt"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C28"] = propDef{
		level: "model_checking",
		notes: []string{
			"PO: any document the reader accepts; the first output may lay it out anew, the second may not differ from the first",
			"MO: any file the reader accepts; the compiler's own files must come out byte for byte",
			"oracle: the first generation",
		},
		run: runC28,
	}
}

type c28Style struct {
	name  string
	write []compile.PoOption
	read  []parse.PoOption
}

func c28Styles() []c28Style {
	return []c28Style{
		{"default", nil, nil},
		{"wrap", []compile.PoOption{compile.PoWithWordWrap(true)}, nil},
		{"no location", []compile.PoOption{compile.PoWithNoLocation(true)}, nil},
		{"file location", []compile.PoOption{compile.PoWithAddLocation(compile.PoLocationModeFile)}, nil},
		{"prefix", []compile.PoOption{compile.PoWithUseCustomObsoletePrefix(true), compile.PoWithCustomObsoletePrefixRune('!')}, []parse.PoOption{parse.PoWithUseCustomObsoletePrefix(true), parse.PoWithCustomObsoletePrefix('!')}},
		{"managed", []compile.PoOption{compile.PoWithManageHeader(true), compile.PoWithHeaderFields(true), compile.PoWithHeaderComments(false)}, nil},
	}
}

// c28Po writes entries that were read, reads and writes again.
func c28Po(w *W, cat ents, s c28Style) error {
	one, err := writePo(cat, s.write...)
	if err != nil {
		return err
	}
	back, err := readPo(one, s.read...)
	if err != nil {
		return err
	}
	two, err := writePo(back, s.write...)
	if err != nil {
		return err
	}
	w.Trans(3)
	w.Trace()
	if one != two {
		return failf("po", "written (%s), read and written again, the file differs: %s\nfirst:\n%s\nthen:\n%s", s.name, firstDiff(two, one), one, two)
	}
	return nil
}

func c28Doc(w *W, doc string, s c28Style) error {
	w.Desc("%s\n%q", s.name, doc)
	w.State(doc)
	p := parse.NewPoFromString(doc, "in.po")
	f := p.Parse()
	w.Trans(1)
	if f == nil || p.Error() != nil {
		return nil
	}
	return c28Po(w, f.Entries, s)
}

// c28Mo writes a catalog as MO, reads it, writes it as PO, reads that, and writes MO again.
func c28Mo(w *W, data []byte, c moCfg, exact bool) error {
	step := func(in []byte) ([]byte, ents, error) {
		p := parse.NewMoFromBytes(in, "x.mo")
		f := p.Parse()
		if p.Error() != nil {
			return nil, nil, failf("mo-read", "%v", p.Error())
		}
		var b strings.Builder
		if err := compile.MoToWriter(f, &b, c.opts()...); err != nil {
			return nil, nil, failf("mo-write", "what was read cannot be written: %v", err)
		}
		return []byte(b.String()), f.Entries, nil
	}
	one, cat, err := step(data)
	if err != nil {
		return err
	}
	if exact && string(one) != string(data) {
		return failf("mo", "an MO file (%+v) read and written again differs: %s\n%q\n%q", c, firstDiff(string(one), string(data)), one, data)
	}
	two, cat2, err := step(one)
	if err != nil {
		return err
	}
	w.Trans(4)
	if string(one) != string(two) {
		return failf("mo-again", "an MO file (%+v) written, read and written again differs: %s", c, firstDiff(string(two), string(one)))
	}
	if err := sameEntries("mo-entries", "an MO file written from what was read is read differently", cat2, cat); !c.sort && err != nil {
		return err
	}
	// Through PO, where every message is there once.
	seen := map[[2]string]bool{}
	for _, e := range cat {
		if seen[uid(e)] {
			w.Trace()
			return nil
		}
		seen[uid(e)] = true
	}
	text, err := writePo(cat)
	if err != nil {
		return err
	}
	back, err := readPo(text)
	if err != nil {
		return err
	}
	var b strings.Builder
	if err := compile.MoToWriter(back, &b, c.opts()...); err != nil {
		return failf("mo-write", "what was read cannot be written: %v", err)
	}
	w.Trans(3)
	w.Trace()
	if b.String() != string(one) {
		return failf("mo-po-mo", "an MO file (%+v) through PO to MO differs: %s\n%s", c, firstDiff(b.String(), string(one)), text)
	}
	return nil
}

func runC28(r *Run) {
	styles := c28Styles()
	nAll := len(c03Lines)
	l := 3
	if r.Thorough {
		l = 4
	}
	r.Space("lines", "all documents of up to the bound of lines over the line alphabet of C03", seqCount(nAll, l), func(w *W, i int64) error {
		return c28Doc(w, joinLines(seqAt(nAll, i), "\n", "\n"), styles[0])
	})
	cl := 5
	if r.Thorough {
		cl = 6
	}
	r.Space("core-lines", "all documents of up to the bound of lines over the core line alphabet", seqCount(c03Core, cl), func(w *W, i int64) error {
		return c28Doc(w, joinLines(seqAt(c03Core, i), "\n", "\n"), styles[0])
	})
	// Comments of every spelling.
	marks := []string{"#", "# ", "#  ", "#\t", "#.", "#. ", "#.  ", "#,", "#, ", "#|", "#| ", "#:", "#: ", "#~ #", "#~ #,", "#!", "#-"}
	bodies := []string{"", "x", "x ", "a.go:1", "a.go:1 b.go:22", "a.go", "fuzzy", "fuzzy,c-format", " fuzzy ,  no-wrap ,", "x #: y", "a.go:1 #, fuzzy", "#~ q", "~ msgid \"a\"", "dir/a.go:007", "a.go:-1", "a.go:99999999999999999999", `msgid "x"`, `"x"`, "ü", "\t", "!", "-fuzzy", "fuzzy fuzzy", "range: 1..2", "\u2068a b.go\u2069:3", "\\n"}
	cs := 1
	if r.Thorough {
		cs = len(styles)
	}
	nm, nb := len(marks), len(bodies)
	r.Space("comments", "all pairs of comment lines from every marker and body before a live or an obsolete message (thorough: every style)", prod(nm, nb, nm, nb, 2, cs), func(w *W, i int64) error {
		d := &Dec{i}
		s := styles[d.N(cs)]
		doc := ""
		for k := 0; k < 2; k++ {
			doc += marks[d.N(nm)] + bodies[d.N(nb)] + "\n"
		}
		if d.B() {
			doc += "msgid \"a\"\nmsgstr \"b\"\n"
		} else {
			doc += "#~ msgid \"a\"\n#~ msgstr \"b\"\n"
		}
		return c28Doc(w, doc, s)
	})
	// Strings of every spelling.
	pieces := []string{"a", `\n`, `\\`, `\"`, `\t`, `\x41`, `\xc3`, `\251`, `\001`, "é", " ", "%", `\r`, `\x7f`, "#", "\"\n\"", "\" \""}
	pl := 3
	if r.Thorough {
		pl = 4
	}
	r.Space("strings", "all texts of up to the bound of pieces (escapes, line breaks in the file, bytes that are no characters) as id, plural id and translation, every style", seqCount(len(pieces), pl)*int64(len(styles)), func(w *W, i int64) error {
		d := &Dec{i}
		s := styles[d.N(len(styles))]
		t := ""
		for _, k := range seqAt(len(pieces), d.i) {
			t += pieces[k]
		}
		return c28Doc(w, fmt.Sprintf("msgctxt \"%s\"\nmsgid \"x%s\"\nmsgid_plural \"%s\"\nmsgstr[0] \"%s\"\nmsgstr[1] \"\"\n\nmsgid \"y\"\nmsgstr \"%s\"\n\nmsgid \"\"\nmsgstr \"%s\"\n\n#~ msgid \"z\"\n#~ msgstr \"%s\"\n", t, t, t, t, t, t, strings.ReplaceAll(t, "\"\n\"", "\"\n#~ \"")), s)
	})
	menu := richMenu()
	n := len(menu)
	r.Space("entries", "all pairs of the rich menu of entries as they are read back, every style", prod(n, n, len(styles)), func(w *W, i int64) error {
		d := &Dec{i}
		s := styles[d.N(len(styles))]
		a, b := cloneE(menu[d.N(n)]), cloneE(menu[d.N(n)])
		w.Desc("%s\n%s\n%s", s.name, dumpE(a), dumpE(b))
		text, err := writePo(ents{a, b}, s.write...)
		if err != nil {
			return err
		}
		w.State(text)
		cat, err := readPo(text, s.read...)
		if err != nil {
			return nil // C02 says what must be readable
		}
		return c28Po(w, cat, s)
	})

	// MO.
	pool := moPool()
	cfgs := moCfgs()
	ml := 2
	if r.Thorough {
		ml = 3
	}
	r.Space("mo", "all sequences of messages of the C05 pool, every writer configuration", seqCount(len(pool), ml)*int64(len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		c := cfgs[d.N(len(cfgs))]
		var cat ents
		for _, j := range seqAt(len(pool), d.i) {
			if strings.Contains(pool[j].ID, "\x04") {
				return nil // its context is ambiguous
			}
			cat = append(cat, cloneE(pool[j]))
		}
		w.Desc("%+v\n%s", c, dump(cat))
		w.State(dump(cat))
		return c28Mo(w, compile.MoToBytes(cat, c.opts()...), c, true)
	})
	fv := strs("", "A", "\n")
	r.Space("mo-forms", "plural messages with up to six forms (more than four: each empty or not), with and without context, next to a singular message with the same id or not, every writer configuration", prod(int(seqCount(len(fv), 4)+pow(2, 5)+pow(2, 6)), 2, 2, len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		c := cfgs[d.N(len(cfgs))]
		ctx, with := d.B(), d.B()
		var fs []int
		if n := seqCount(len(fv), 4); d.i < n {
			fs = seqAt(len(fv), d.i)
		} else {
			d.i -= n
			k := 5
			if d.i >= pow(2, 5) {
				d.i -= pow(2, 5)
				k = 6
			}
			for ; k > 0; k-- {
				fs = append(fs, d.N(2))
			}
		}
		e := ent{ID: "p", Plural: "ps"}
		for j, f := range fs {
			e.Plurals = append(e.Plurals, pe{ID: j, Str: fv[f]})
		}
		cat := ents{e}
		if ctx {
			cat[0].Context = "c"
		}
		if with {
			cat = append(cat, ent{ID: "p", Context: "d", Str: "single"}, ent{ID: "ps"})
		}
		w.Desc("%+v\n%s", c, dump(cat))
		w.State(dump(cat))
		return c28Mo(w, compile.MoToBytes(cat, c.opts()...), c, true)
	})
	orders, lc := 120, 3
	if r.Thorough {
		lc = len(cfgs)
	}
	cat := ents{{Str: "Language: es\n"}, {ID: "a", Str: "x"}, {ID: "b", Str: "x"}, {ID: "b", Context: "c", Str: ""}, {ID: "p", Plural: "a", Plurals: pes{{ID: 0, Str: "1"}, {ID: 1, Str: ""}}}}
	r.Space("mo-layouts", "files with their parts in every order, with and without gaps and shared strings, messages in every order, written by three configurations (thorough: all)", prod(orders, 2, 2, 2, int(fact(len(cat))), lc), func(w *W, i int64) error {
		d := &Dec{i}
		c := cfgs[d.N(lc)*len(cfgs)/lc]
		o, gap, share, be := permAt(5, int64(d.N(orders))), d.N(2)*3, d.B(), d.B()
		var l ents
		for _, k := range permAt(len(cat), d.i) {
			l = append(l, cat[k])
		}
		w.Desc("%+v parts %v gap %d share %v big endian %v\n%s", c, o, gap, share, be, dump(l))
		w.State(w.desc)
		return c28Mo(w, layMo(l, o, gap, share, be), c, false)
	})
	large(r, "every style, and as MO", 257, 1025, len(styles)+1, func(w *W, cat ents, k int) error {
		if k == len(styles) {
			for _, c := range cfgs {
				if err := c28Mo(w, compile.MoToBytes(cat, c.opts()...), c, false); err != nil {
					return err
				}
			}
			return nil
		}
		text, err := writePo(cat, styles[k].write...)
		if err != nil {
			return err
		}
		back, err := readPo(text, styles[k].read...)
		if err != nil {
			return err
		}
		return c28Po(w, back, styles[k])
	})

	// The tools.
	flags := [][]string{nil, {"--no-hash"}, {"--endianness", "big"}, {"--endianness", "little", "--no-hash"}}
	r.Space("tools", "msgofmt, msgounfmt and msgofmt again on all catalogs of up to two messages of the C05 pool, every output option", seqCount(len(pool), 2)*int64(len(flags)), func(w *W, i int64) error {
		d := &Dec{i}
		f := flags[d.N(len(flags))]
		var cat ents
		seen := map[[2]string]bool{}
		for _, j := range seqAt(len(pool), d.i) {
			if seen[uid(pool[j])] || strings.Contains(pool[j].ID, "\x04") || pool[j].Obsolete {
				return nil
			}
			seen[uid(pool[j])] = true
			cat = append(cat, cloneE(pool[j]))
		}
		text, err := writePo(cat)
		if err != nil {
			return err
		}
		w.Desc("%v\n%s", f, text)
		w.State(w.desc)
		one, err := r.cli(w, cliJob{tool: "msgofmt", args: append(strs("a.po", "-o", "a.mo"), f...), files: tree{"a.po": text}})
		if err != nil {
			return err
		}
		if one.code != 0 {
			return nil // C24 says which must not fail
		}
		mid, err := r.cli(w, cliJob{tool: "msgounfmt", args: strs("a.mo", "-o", "b.po"), files: tree{"a.mo": one.tree["a.mo"]}})
		if err != nil {
			return err
		}
		two, err := r.cli(w, cliJob{tool: "msgofmt", args: append(strs("b.po", "-o", "b.mo"), f...), files: tree{"b.po": mid.tree["b.po"]}})
		if err != nil {
			return err
		}
		w.Trace()
		if mid.code != 0 || two.code != 0 || two.tree["b.mo"] != one.tree["a.mo"] {
			return failf("tools", "%s, then %s (exit %d: %s), then %s (exit %d: %s): %s\n%q", one.cmd, mid.cmd, mid.code, mid.err, two.cmd, two.code, two.err, firstDiff(two.tree["b.mo"], one.tree["a.mo"]), mid.tree["b.po"])
		}
		return nil
	})
}
