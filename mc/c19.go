// C19: PO output options change only what they name.
package main

import (
	"fmt"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C19"] = propDef{
		level: "model_checking",
		notes: []string{
			"title, package and copyright holder are one line long, as other comments",
			"entries commented out are comments of the entry that follows in the file, as for every PO reader; with the comment marks removed again they must read as the original entries",
			"a managed header has the fields and the template mark of the header (or of the replacement) and no references or other comments than the title comments; without the fields option it has no fields; a catalog without header gets none",
			"oracle: the catalog transformed option by option, compared with what is read back; canonical text of every field",
		},
		run: runC19,
	}
}

// c19Opt is one setting of all output options.
type c19Opt struct {
	omit, manage, comments, fields, foreign, noLoc, fuzzy, wrap, custom bool
	loc                                                                 compile.PoLocationMode
	prefix, suffix                                                      string
	title, pkg, holder                                                  string
	hc                                                                  *po.HeaderConfig
}

func (o c19Opt) opts() []compile.PoOption {
	l := []compile.PoOption{
		compile.PoWithOmitHeader(o.omit), compile.PoWithManageHeader(o.manage), compile.PoWithHeaderComments(o.comments),
		compile.PoWithHeaderFields(o.fields), compile.PoWithForeignUser(o.foreign), compile.PoWithNoLocation(o.noLoc),
		compile.PoWithCommentFuzzy(o.fuzzy), compile.PoWithWordWrap(o.wrap), compile.PoWithAddLocation(o.loc),
		compile.PoWithMsgstrPrefix(o.prefix), compile.PoWithMsgstrSuffix(o.suffix), compile.PoWithTitle(o.title),
		compile.PoWithPackageName(o.pkg), compile.PoWithCopyrightHolder(o.holder),
	}
	if o.custom {
		l = append(l, compile.PoWithUseCustomObsoletePrefix(true), compile.PoWithCustomObsoletePrefixRune('%'))
	}
	if o.hc != nil {
		hc := o.hc
		l = append(l, func(c *compile.PoConfig) { c.HeaderConfig = hc })
	}
	return l
}

func (o c19Opt) readOpts() []parse.PoOption {
	if o.custom {
		return []parse.PoOption{parse.PoWithUseCustomObsoletePrefix(true), parse.PoWithCustomObsoletePrefix('%')}
	}
	return nil
}

func (o c19Opt) String() string {
	type plain c19Opt
	hc := "-"
	if o.hc != nil {
		hc = fmt.Sprintf("%+v", *o.hc)
	}
	o.hc = nil
	return fmt.Sprintf("%+v hc:%s", plain(o), hc)
}

// c19Image is what the output must read as, before fuzzy entries are commented out.
func c19Image(cat ents, o c19Opt) ents {
	var out ents
	hi := -1
	for i, e := range cat {
		if isHeader(e) && !e.Obsolete {
			hi = i
			break
		}
	}
	for i, e := range cat {
		e = cloneE(e)
		if i == hi {
			if o.omit {
				continue
			}
			if o.manage {
				e = c19Header(e, o)
				out = append(ents{e}, out...)
				continue
			}
		}
		switch {
		case o.noLoc || o.loc == compile.PoLocationModeNever:
			e.Locations = nil
		case o.loc == compile.PoLocationModeFile:
			for k := range e.Locations {
				e.Locations[k].Line = -1
			}
		}
		if e.Plural != "" && len(e.Plurals) == 0 {
			e.Plurals, e.Str = pes{{ID: 0}, {ID: 1}}, ""
		}
		if !isHeader(e) {
			if isPlural(e) {
				for k := range e.Plurals {
					e.Plurals[k].Str = o.prefix + e.Plurals[k].Str + o.suffix
				}
			} else {
				e.Str = o.prefix + e.Str + o.suffix
			}
		}
		out = append(out, e)
	}
	return poImage(out)
}

// c19Header is the managed header.
func c19Header(e ent, o c19Opt) ent {
	fields := refHeader(e.Str)
	fuzzy := isFuzzy(e)
	if o.hc != nil {
		h := o.hc.ToHeader()
		fields = nil
		for _, f := range h.Fields {
			fields = append(fields, hf{Key: f.Key, Value: f.Value})
		}
		fuzzy = o.hc.Template
	}
	var h ent
	if fuzzy {
		h.Flags = strs("fuzzy")
	}
	if o.comments {
		h.Comments = append(h.Comments, o.title)
		if o.foreign {
			h.Comments = append(h.Comments, "This file is put in the public domain.")
		} else {
			h.Comments = append(h.Comments, "Copyright (C) "+o.holder, "This file is distributed under the same license as the "+o.pkg+" package.")
		}
		h.Comments = append(h.Comments, "")
	}
	if o.fields {
		for _, f := range fields {
			h.Str += f.Key + ": " + f.Value + "\n"
		}
	}
	return h
}

// uncomment removes the comment mark of all lines that are commented-out PO.
func uncomment(text string) string {
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "# ") {
			rest := l[2:]
			for _, p := range []string{"msgid", "msgstr", "msgctxt", `"`, "#"} {
				if strings.HasPrefix(rest, p) {
					lines[i] = rest
				}
			}
		}
	}
	return strings.Join(lines, "\n")
}

func c19Check(w *W, cat ents, o c19Opt) error {
	w.Trans(2)
	w.Trace()
	before := dump(cat)
	text, err := writePo(cat, o.opts()...)
	if err != nil {
		return err
	}
	if after := dump(cat); after != before {
		return failf("modified", "writing changed the catalog")
	}
	want := c19Image(cat, o)
	plain := text
	managedFuzzy := false
	if o.fuzzy {
		plain = uncomment(text)
		managedFuzzy = o.manage && !o.omit
	}
	got, err := readPo(plain, o.readOpts()...)
	if err != nil {
		return err
	}
	if err := sameEntries("options", fmt.Sprintf("%v: reads back differently; text:\n%s", o, text), got, want); err != nil {
		return err
	}
	if !o.fuzzy {
		return nil
	}
	// As it stands: everything but the live fuzzy entries, whose text is only in comments.
	got, err = readPo(text, o.readOpts()...)
	if err != nil {
		return err
	}
	var rest ents
	for _, e := range want {
		if !e.Obsolete && isFuzzy(e) && !(managedFuzzy && isHeader(e)) {
			continue
		}
		rest = append(rest, e)
	}
	if len(got) != len(rest) {
		return failf("comment-fuzzy", "%v: %d entries read, expected %d; text:\n%s", o, len(got), len(rest), text)
	}
	got = clone(got)
	for i := range got {
		own := rest[i].Comments
		if n := len(got[i].Comments) - len(own); n > 0 {
			got[i].Comments = got[i].Comments[n:]
		}
	}
	return sameEntries("comment-fuzzy", fmt.Sprintf("%v: with fuzzy entries commented out the others read differently; text:\n%s", o, text), got, rest)
}

var (
	c19HC  = &po.HeaderConfig{ProjectIDVersion: "P 1", Language: "de", Nplurals: 2, Plural: "n != 1"}
	c19HCt = &po.HeaderConfig{ProjectIDVersion: `q"\`, Template: true}
)

// c19Decode decodes one combination of all options.
func c19Decode(d *Dec) c19Opt {
	o := c19Opt{omit: d.B(), manage: d.B(), comments: d.B(), fields: d.B(), foreign: d.B(), noLoc: d.B(), fuzzy: d.B(), wrap: d.B(), custom: d.B(), holder: "H"}
	o.loc = []compile.PoLocationMode{compile.PoLocationModeFull, compile.PoLocationModeFile, compile.PoLocationModeNever, ""}[d.N(4)]
	o.prefix = []string{"", "<", "p\n\""}[d.N(3)]
	o.suffix = []string{"", ">", "\n"}[d.N(3)]
	o.title, o.pkg = "", ""
	if d.B() {
		o.title, o.pkg = "Title", "Pkg"
	}
	o.hc = []*po.HeaderConfig{nil, c19HC, c19HCt}[d.N(3)]
	return o
}

func c19Combos() int64 { return prod(512, 4, 3, 3, 2, 3) }

// c19Singles are the settings that differ from the default in one or two options.
func c19Singles(two bool) []c19Opt {
	full := compile.PoLocationModeFull
	sets := []func(*c19Opt){
		func(o *c19Opt) {},
		func(o *c19Opt) { o.omit = true },
		func(o *c19Opt) { o.manage, o.comments, o.fields, o.title, o.pkg = true, true, true, "T", "P" },
		func(o *c19Opt) { o.manage, o.fields = true, true },
		func(o *c19Opt) { o.manage = true },
		func(o *c19Opt) { o.manage, o.fields, o.hc = true, true, c19HC },
		func(o *c19Opt) { o.manage, o.fields, o.hc = true, true, c19HCt },
		func(o *c19Opt) { o.manage, o.foreign, o.comments = true, true, true },
		func(o *c19Opt) { o.noLoc = true },
		func(o *c19Opt) { o.loc = compile.PoLocationModeNever },
		func(o *c19Opt) { o.loc = compile.PoLocationModeFile },
		func(o *c19Opt) { o.loc = "" },
		func(o *c19Opt) { o.prefix = "<\n" },
		func(o *c19Opt) { o.suffix = "\n>" },
		func(o *c19Opt) { o.prefix, o.suffix = `\`, `"` },
		func(o *c19Opt) { o.fuzzy = true },
		func(o *c19Opt) { o.wrap = true },
		func(o *c19Opt) { o.custom = true },
	}
	var out []c19Opt
	for i, f := range sets {
		for j, g := range sets {
			if j < i || j != i && !two {
				continue
			}
			o := c19Opt{loc: full, holder: "H"}
			f(&o)
			g(&o)
			out = append(out, o)
		}
	}
	return out
}

func c19Pool() ents {
	return ents{
		{Str: "Language: es\nPlural-Forms: nplurals=2; plural=n != 1;\nX: a: \"b\"\n", Comments: strs("hc"), Locations: locs{{Line: 1, File: "h.go"}}},
		{Str: "Language: es\n", Flags: strs("fuzzy")},
		{ID: "a", Str: "t", Locations: locs{{Line: 4, File: "f.go"}, {Line: 2, File: "f.go"}}},
		{ID: "b", Str: "x\ny\n", Flags: strs("fuzzy", "c-format"), Comments: strs("c", ""), Locations: locs{{Line: 4, File: "f.go"}}, ExtractedComments: strs("e"), Previous: strs(`msgid "o"`)},
		{ID: "c", Context: "k", Plural: "ps", Plurals: pes{{ID: 0, Str: "f0"}, {ID: 1, Str: "f\n1"}}, Flags: strs("x")},
		{ID: "d", Plural: "p\nq", Flags: strs("fuzzy"), Locations: locs{{Line: -1, File: "g.go"}}},
		{ID: "e", Str: "old\n", Obsolete: true, Locations: locs{{Line: 4, File: "f.go"}}, Comments: strs("co")},
		{ID: "f", Str: "fo", Obsolete: true, Flags: strs("fuzzy")},
		{ID: "g\nh", Context: "c\nd"},
		{ID: "i", Plural: "is", Plurals: pes{{ID: 0, Str: "z"}}, Obsolete: true},
	}
}

func runC19(r *Run) {
	pool := c19Pool()
	pick := func(l ...int) ents {
		var out ents
		for _, i := range l {
			out = append(out, cloneE(pool[i]))
		}
		return out
	}
	cats := []ents{pick(0, 2, 3, 4, 5, 6, 7, 8), pick(3, 1, 5, 2), pick(2, 6, 0, 9)}
	if r.Thorough {
		cats = append(cats, pick(4, 3, 2, 7), pick(0), pick(1, 5, 3), nil, pick(8, 7, 6, 5, 4, 3, 2, 1))
	}
	r.Space("combinations", "every combination of all output options on catalogs with every kind of entry", c19Combos()*int64(len(cats)), func(w *W, i int64) error {
		d := &Dec{i}
		cat := cats[d.N(len(cats))]
		o := c19Decode(d)
		w.Desc("%v\n%s", o, dump(cat))
		w.State(w.desc)
		return c19Check(w, clone(cat), o)
	})

	pairs := c19Singles(true)
	singles := c19Singles(false)
	l := 3
	use := singles
	if r.Thorough {
		l, use = 4, pairs
	}
	r.Space("catalogs", "all catalogs of up to the bound of entries (at most one header), under every setting of one option (thorough: two)", seqCount(len(pool), l)*int64(len(use)), func(w *W, i int64) error {
		d := &Dec{i}
		o := use[d.N(len(use))]
		var cat ents
		headers := 0
		for k, j := range seqAt(len(pool), d.i) {
			e := cloneE(pool[j])
			if isHeader(e) {
				headers++
			} else {
				e.ID += fmt.Sprint(k)
			}
			cat = append(cat, e)
		}
		if headers > 1 {
			return nil
		}
		w.Desc("%v\n%s", o, dump(cat))
		w.State(w.desc)
		return c19Check(w, cat, o)
	})

	r.Space("pairs", "catalogs of two entries under every setting of two options", seqCount(len(pool), 2)*int64(len(pairs)), func(w *W, i int64) error {
		d := &Dec{i}
		o := pairs[d.N(len(pairs))]
		cat := pick(seqAt(len(pool), d.i)...)
		if len(cat) == 2 && uid(cat[0]) == uid(cat[1]) {
			return nil
		}
		w.Desc("%v\n%s", o, dump(cat))
		w.State(w.desc)
		return c19Check(w, cat, o)
	})

	richPairs(r, "entries", "every setting of one option", richMenu(), len(singles), func(w *W, a, b ent, k int) error {
		if uid(a) == uid(b) {
			if isHeader(b) {
				return nil
			}
			b.ID += "2"
		}
		if o := singles[k]; (o.omit || o.manage) && (isHeader(a) && a.Obsolete || isHeader(b) && b.Obsolete) {
			return nil // whether an obsolete entry without id is "the header" is not settled
		}
		return c19Check(w, ents{a, b}, singles[k])
	})

	r.Space("features", "one entry, full product of context, kind, obsolete mark, comments, flags, references, previous lines, each under one option setting in turn (thorough: all)", featCount(), func(w *W, i int64) error {
		d := &Dec{i}
		e := featEntry(d)
		cat := ents{{Str: "Language: es\n"}, e, {ID: "next", Str: "n", Comments: strs("next's")}}
		w.Desc("%s", dumpE(e))
		w.State(w.desc)
		looks := false
		for _, c := range e.Comments {
			looks = looks || strings.HasPrefix(c, "msgid") || strings.HasPrefix(c, "#")
		}
		for k, o := range singles {
			if !r.Thorough && k != int(i)%len(singles) {
				continue
			}
			if looks {
				o.fuzzy = false
			}
			if err := c19Check(w, clone(cat), o); err != nil {
				return err
			}
		}
		return nil
	})

	// Word wrap and affixes never change content: all texts over a small alphabet.
	alphabet := []string{"a", "\n", " ", `"`, `\`, "n", "\t", "é", "\r"}
	tl := 5
	if r.Thorough {
		tl = 6
	}
	r.Space("texts", "all texts up to the bound as id, context, plural and translation, wrapped and with prefix and suffix", seqCount(len(alphabet), tl), func(w *W, i int64) error {
		var b strings.Builder
		for _, j := range seqAt(len(alphabet), i) {
			b.WriteString(alphabet[j])
		}
		s := b.String()
		w.Desc("%q", s)
		w.State(s)
		cat := ents{{ID: "x" + s, Context: s + "y", Str: s}, {ID: "p" + s, Plural: s + "z", Plurals: pes{{ID: 0, Str: s}, {ID: 1, Str: s + s}}, Obsolete: true}}
		for _, o := range []c19Opt{{wrap: true, loc: "full"}, {prefix: s, suffix: s, loc: "full"}, {prefix: s, suffix: s, wrap: true, loc: "full"}} {
			if err := c19Check(w, cat, o); err != nil {
				return err
			}
		}
		return nil
	})
	large(r, "every setting of one option", 257, 1025, len(singles), func(w *W, cat ents, k int) error {
		return c19Check(w, cat, singles[k])
	})
}
