// C15: Go extraction finds exactly the translatable calls with the right fields.
package main

import (
	"fmt"
	"sort"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func init() {
	props["C15"] = propDef{
		level: "model_checking",
		notes: []string{
			"programs are generated piece by piece, and the generator itself records which call or literal it wrote on which line; no Go parser takes part in the oracle",
			"whether a malformed call (missing or non-string arguments) yields an entry for itself is left open, other entries must not change; without the import only literals outside calls named like the library's are used",
			"package names shadowed by local variables and dot imports are not covered",
		},
		run: runC15,
	}
}

// gsrc writes a Go program and records what it contains.
type gsrc struct {
	b        strings.Builder
	calls    ents // entries of the calls, in order of the call
	lits     ents // one entry per non-empty literal outside imports
	optional map[string]bool
	imported bool
}

func (g *gsrc) w(s string) { g.b.WriteString(s) }

func (g *gsrc) line() int { return 1 + strings.Count(g.b.String(), "\n") }

// lit is a form of a string literal: source text and value.
type glit struct{ src, val string }

// lit writes a literal and returns its line.
func (g *gsrc) lit(l glit) int {
	n := g.line()
	if l.val != "" {
		g.lits = append(g.lits, ent{ID: l.val, Locations: locs{{Line: n, File: "x.go"}}})
	}
	g.w(l.src)
	return n
}

// gmethod says which argument is what.
type gmethod struct {
	name string
	args string // d domain, i id, p plural, n number, c context
}

var gmethods = []gmethod{
	{"Get", "i"}, {"GetN", "ipn"}, {"GetD", "di"}, {"GetND", "dipn"}, {"GetC", "ic"}, {"GetNC", "ipnc"}, {"GetDC", "dic"}, {"GetNDC", "dipnc"},
}

// garg is a form of an argument.
type garg struct {
	name string
	lit  *glit
	src  string // instead of a literal: source, with %q literal places written through lit
	mal  bool   // makes the call malformed
}

func litArg(src, val string) garg { return garg{name: src, lit: &glit{src, val}} }

var gargForms = []garg{
	litArg(`"$"`, "$"),
	litArg("`$`", "$"),
	litArg("`$\n\tb\n`", "$\n\tb\n"),
	litArg(`"$\n\"\\\t\u00e9\x41\101\U0001F600"`, "$\n\"\\\té\x41A😀"),
	litArg(`""`, ""),
	litArg("``", ""),
	{name: "variable", src: "v"},
	{name: "number", src: "5", mal: true},
	{name: "rune", src: "'r'", mal: true},
	{name: "call", src: "f()"},
	{name: "parenthesised", src: "(\x00)"},
	{name: "concatenation", src: "\x00 + v"},
	{name: "nested call", src: "\x01"},
	{name: "function literal", src: "func() string { return \x01 }()"},
}

// gcall writes a call. args gives one form per argument; fewer forms than arguments make it malformed.
type gcallForm struct {
	m     gmethod
	args  []int
	extra string // further arguments
	split bool   // arguments on lines of their own
}

var gseq int64

func (g *gsrc) call(pkg, tag string, c gcallForm, depth int) {
	g.w(pkg + "." + c.m.name + "(")
	var e ent
	malformed := len(c.args) < len(c.m.args)
	hasID := false
	callAt := len(g.calls)
	g.calls = append(g.calls, ent{})
	var used []int // indices in lits of this call's id, plural and context
	for k, a := range c.args {
		if k > 0 {
			g.w(", ")
		}
		if c.split {
			g.w("\n\t\t")
		}
		role := byte('n')
		if k < len(c.m.args) {
			role = c.m.args[k]
		}
		if role == 'n' {
			g.w("n")
			continue
		}
		form := gargForms[a]
		if form.mal && role != 'd' {
			malformed = true
		}
		if form.lit == nil {
			for _, ch := range form.src {
				switch ch {
				case 0:
					g.lit(glit{`"` + tag + string(role) + `x"`, tag + string(role) + "x"})
				case 1:
					if depth > 2 {
						g.w("v")
					} else {
						g.call(pkg, tag+string(role), gcallForm{m: gmethods[0], args: []int{0}}, depth+1)
					}
				default:
					g.w(string(ch))
				}
			}
			continue
		}
		l := glit{strings.ReplaceAll(form.lit.src, "$", tag+string(role)), strings.ReplaceAll(form.lit.val, "$", tag+string(role))}
		at := len(g.lits)
		n := g.lit(l)
		if l.val == "" {
			continue
		}
		switch role {
		case 'i':
			e.ID, e.Locations = l.val, locs{{Line: n, File: "x.go"}}
			hasID = true
			used = append(used, at)
		case 'p':
			e.Plural = l.val
			used = append(used, at)
		case 'c':
			e.Context = l.val
			used = append(used, at)
		}
	}
	g.w(c.extra)
	if c.split {
		g.w(",\n\t")
	}
	g.w(")")
	if !hasID || malformed {
		if malformed && hasID {
			if g.optional == nil {
				g.optional = map[string]bool{}
			}
			g.optional[e.ID] = true
		}
		return
	}
	if !g.imported {
		return
	}
	g.calls[callAt] = e
	for _, at := range used {
		g.lits[at].Obsolete = true // taken by a call
	}
}

// plain entries: the entries without order.
func dumpSorted(es ents) string {
	var l []string
	for _, e := range es {
		l = append(l, dumpE(e))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func gplaceHead(g *gsrc, imp string) {
	g.w("package x\n\n")
	g.w(imp)
}

// gimports: declarations that make the library available under a name ("" for none).
var gimports = []struct{ src, pkg string }{
	{"import \"github.com/leonelquinteros/gotext\"\n", "gotext"},
	{"import gt \"github.com/leonelquinteros/gotext\"\n", "gt"},
	{"import (\n\t\"fmt\"\n\n\t\"github.com/leonelquinteros/gotext\"\n\t\"os\"\n)\n", "gotext"},
	{"import (\n\t_ \"embed\"\n\tGT \"github.com/leonelquinteros/gotext\"\n)\n", "GT"},
	{"import `github.com/leonelquinteros/gotext`\n", "gotext"},
	{"import _ \"github.com/leonelquinteros/gotext\"\nimport \"github.com/leonelquinteros/gotext\"\n", "gotext"},
	{"import \"github.com/leonelquinteros/gotext\"\nimport two \"github.com/leonelquinteros/gotext\"\n", "two"},
	{"import two \"github.com/leonelquinteros/gotext\"\nimport \"github.com/leonelquinteros/gotext\"\n", "two"},
	{"import ñ \"github.com/leonelquinteros/gotext\"\n", "ñ"},
	{"import gotext \"github.com/leonelquinteros/gotext\"; import \"fmt\"\n", "gotext"},
	{"", ""},
	{"import \"fmt\"\n", ""},
	{"import \"example.com/gotext\"\n", ""},
	{"import \"github.com/leonelquinteros/gotext/v2\"\n", ""},
	{"import \"github.com/leonelquinteros/gotextra\"\n", ""},
}

// gplaces put a call (@) somewhere in a program.
var gplaces = []string{
	"var v = @\n", "var (\n\ta = 1\n\tb, c = @, @\n)\n", "func f() {\n\t@\n}\n", "func f() string { return @ }\n",
	"func f() {\n\tfmt.Println(@, 1, @)\n}\n", "func f() {\n\tif x := @; x != @ {\n\t\t@\n\t} else {\n\t\t@\n\t}\n}\n",
	"func f() {\n\tswitch @ {\n\tcase @:\n\t\tg(@)\n\tdefault:\n\t\tg(@)\n\t}\n}\n", "func f() {\n\tfor i := range @ {\n\t\t_ = @[i]\n\t}\n}\n",
	"var m = map[string]string{@: @}\n", "var s = []string{@, @,\n@}\n", "var t = T{A: @, B: &U{@}}\n",
	"func f() {\n\tdefer g(@)\n\tgo func() { g(@) }()\n}\n", "func (t *T) f() (s string) {\n\ts = @\n\ts += @\n\treturn\n}\n",
	"func f() {\n\tch <- @\n\tselect {\n\tcase ch <- @:\n\tcase <-g(@):\n\t}\n}\n", "var f = func() string { return @ }\n",
	"func f() {\n\tx := @[1:2] + (@) + string(@)\n\tx, y := @, -len(@)\n}\n", "func f[T any](t T) { g[string](@); _ = any(@).(string) }\n",
	"type T struct{}\n\nfunc f() {\nL:\n\tfor {\n\t\tbreak L\n\t}\n\tvar a [2]string\n\ta[len(@)] = @\n}\n",
	"func f() {\n\t{\n\t\t{\n\t\t\tvar x string = @\n\t\t}\n\t}\n}\n\nvar z = @\n", "func init() { @ }; func g() { @; @ }\n",
	"func f() {\n\tswitch x := g(@).(type) {\n\tcase int:\n\t\t_ = x\n\t\t_ = @\n\t}\n}\n", "func f() {\n\tpanic(@)\n\tfunc() {}()\n\tg(func(s string) { h(@) }, @)\n}\n",
}

// gdecoys are pieces without any translatable call.
var gdecoys = []func(g *gsrc, pkg string){
	func(g *gsrc, pkg string) {},
	func(g *gsrc, pkg string) { g.w("// " + pkg + `.Get("comment")` + "\n") },
	func(g *gsrc, pkg string) { g.w("/*\n" + pkg + `.Get("comment")` + "\n\"q\n*/\n") },
	func(g *gsrc, pkg string) {
		g.w("var d1 = other.Get(")
		g.lit(glit{`"decoy"`, "decoy"})
		g.w(")\n")
	},
	func(g *gsrc, pkg string) {
		g.w("var d2 = ")
		g.lit(glit{"`raw " + "\n\"x\" `", "raw \n\"x\" "})
		g.w("\n")
	},
	func(g *gsrc, pkg string) {
		g.w("var d3 = Get(")
		g.lit(glit{`"decoy"`, "decoy"})
		g.w(")\n")
	},
	func(g *gsrc, pkg string) {
		g.w("var d4 = o." + pkg + ".Get(")
		g.lit(glit{`"decoy"`, "decoy"})
		g.w(")\n")
	},
	func(g *gsrc, pkg string) {
		g.w("type D struct {\n\tA int ")
		g.lit(glit{"`json:\"a\"`", `json:"a"`})
		g.w("\n}\n")
	},
	func(g *gsrc, pkg string) { g.w("var d5 = 'x' + '\\'' + '\"'\n") },
	func(g *gsrc, pkg string) {
		g.w("const d6 = ")
		g.lit(glit{`"é\t\""`, "é\t\""})
		g.w(" + ")
		g.lit(glit{`"decoy"`, "decoy"})
		g.w("\n")
	},
	func(g *gsrc, pkg string) { g.w("//line other.go:1000\n") },
	func(g *gsrc, pkg string) { g.w("\n\n\n") },
}

// gdecoysLib use the library's name in other ways (only with the import).
var gdecoysLib = []func(g *gsrc, pkg string){
	func(g *gsrc, pkg string) {
		for _, m := range []string{"Gets", "get", "GetDomain", "SetDomain", "Configure"} {
			g.w("var _ = " + pkg + "." + m + "(")
			g.lit(glit{`"` + m + `"`, m})
			g.w(", ")
			g.lit(glit{`"second"`, "second"})
			g.w(")\n")
		}
	},
	func(g *gsrc, pkg string) {
		g.w("var _ = " + pkg + ".Get\nvar _ = " + pkg + ".Get(")
		g.lit(glit{`""`, ""})
		g.w(")\n")
	},
	func(g *gsrc, pkg string) {
		g.w("var _ = " + pkg + ".Get()\nvar _ = " + pkg + ".GetN()\nvar _ = " + pkg + ".GetNDC(")
		g.lit(glit{`"only"`, "only"})
		g.w(")\n")
	},
}

func (g *gsrc) check(w *W, all bool, crlf bool) error {
	src := g.b.String()
	if crlf {
		src = strings.ReplaceAll(src, "\n", "\r\n")
	}
	return g.checkSrc(w, src, all)
}

func (g *gsrc) checkSrc(w *W, src string, all bool) error {
	var want ents
	for _, e := range g.calls {
		if e.ID != "" {
			want = append(want, e)
		}
	}
	if !g.imported {
		want = nil
	}
	inOrder := dump(want)
	if all {
		for _, e := range g.lits {
			if !e.Obsolete {
				want = append(want, e)
			}
		}
	}
	w.Trans(1)
	w.Trace()
	p, err := goparse.NewParserFromString(src, "x.go", goparse.WithNoHeader(true), goparse.WithCleanDuplicates(false), goparse.WithExtractAll(all))
	if err != nil {
		return failf("parse", "the program does not parse: %v\n%s", err, src)
	}
	f := p.Parse()
	if errs := p.Errors(); len(errs) > 0 {
		return failf("errors", "extraction reported %v\n%s", errs, src)
	}
	got := f.Entries
	if len(g.optional) > 0 && !all {
		got = filterE(got, func(e ent) bool { return !g.optional[e.ID] })
	}
	if all {
		if g, x := dumpSorted(got), dumpSorted(want); g != x {
			return failf("entries", "extract-all:\n got:\n%s\n want:\n%s\n%s", g, x, src)
		}
		return nil
	}
	if g := dump(got); g != inOrder {
		return failf("entries", "got:\n%s\n want:\n%s\n%s", g, inOrder, src)
	}
	return nil
}

// gsmall is a menu of calls for sequences and places.
var gsmall = []gcallForm{
	{m: gmethods[0], args: []int{0}},
	{m: gmethods[0], args: []int{2}, extra: ", v, 3"},
	{m: gmethods[1], args: []int{0, 0, 0}},
	{m: gmethods[1], args: []int{3, 2, 0}, split: true},
	{m: gmethods[2], args: []int{0, 0}},
	{m: gmethods[3], args: []int{6, 1, 0, 0}},
	{m: gmethods[4], args: []int{0, 0}, split: true},
	{m: gmethods[4], args: []int{0}},       // malformed
	{m: gmethods[1], args: []int{7, 0, 0}}, // malformed
	{m: gmethods[5], args: []int{0, 0, 0, 2}},
	{m: gmethods[6], args: []int{0, 0, 0}},
	{m: gmethods[7], args: []int{0, 0, 0, 0, 0}, extra: ", v..."},
	{m: gmethods[7], args: []int{2, 2, 2, 0, 2}, split: true},
	{m: gmethods[0], args: []int{6}},
	{m: gmethods[0], args: []int{4}},
	{m: gmethods[0], args: []int{12}},
	{m: gmethods[0], args: nil}, // malformed
	{m: gmethods[4], args: []int{12, 0}},
	{m: gmethods[4], args: []int{0, 12}},
}

func runC15(r *Run) {
	// All argument forms in all positions of all methods.
	type methSpace struct {
		m     gmethod
		n     int64
		roles []int
	}
	var ms []methSpace
	var total int64
	nf := len(gargForms)
	for _, m := range gmethods {
		x := methSpace{m: m, n: 1}
		for k, c := range m.args {
			if c != 'n' {
				x.roles = append(x.roles, k)
				x.n *= int64(nf)
			}
		}
		ms = append(ms, x)
		total += x.n
	}
	variants := 4 // split or not, extract-all or not
	r.Space("arguments", "every method with every combination of argument forms, arguments on one or several lines, with and without extract-all, between two other calls", total*int64(variants), func(w *W, i int64) error {
		d := Dec{i}
		all, split := d.B(), d.B()
		j := d.i
		for _, x := range ms {
			if j >= x.n {
				j -= x.n
				continue
			}
			c := gcallForm{m: x.m, args: make([]int, len(x.m.args)), split: split}
			dd := Dec{j}
			for _, k := range x.roles {
				c.args[k] = dd.N(nf)
			}
			g := &gsrc{imported: true}
			gplaceHead(g, gimports[0].src)
			g.w("var a = ")
			g.call("gotext", "A", gsmall[0], 0)
			g.w("\nvar b = ")
			g.call("gotext", "B", c, 0)
			g.w("\nvar c = ")
			g.call("gotext", "C", gsmall[6], 0)
			g.w("\n")
			w.Desc("all=%v\n%s", all, g.b.String())
			w.State(w.desc)
			return g.check(w, all, false)
		}
		return nil
	})

	r.Space("arity", "every method with every number of arguments up to seven, literals only, with and without variadic end", prod(len(gmethods), 8, 3, 2), func(w *W, i int64) error {
		d := Dec{i}
		m := gmethods[d.N(len(gmethods))]
		n := d.N(8)
		extra := []string{"", ", v", ", v..."}[d.N(3)]
		all := d.B()
		if n == 0 && extra != "" {
			return nil
		}
		c := gcallForm{m: m, args: make([]int, min(n, len(m.args))), extra: extra}
		g := &gsrc{imported: true}
		gplaceHead(g, gimports[1].src)
		g.w("func f() {\n\t")
		g.call("gt", "A", c, 0)
		g.w("\n\t")
		g.call("gt", "B", gsmall[9], 0)
		g.w("\n}\n")
		if len(c.args) < len(m.args) && extra != "" {
			return nil // the further arguments take the places of missing ones
		}
		if all && len(c.args) < len(m.args) && len(c.args) > strings.LastIndexAny(m.args, "ipc") {
			return nil // only the number is missing: open whether this is one entry or two
		}
		w.Desc("all=%v\n%s", all, g.b.String())
		w.State(w.desc)
		return g.check(w, all, false)
	})

	places := len(gplaces)
	r.Space("places", "every place in a program with every pair of calls, with and without extract-all, line ends LF and CRLF", prod(places, len(gsmall), len(gsmall), 2, 2), func(w *W, i int64) error {
		d := Dec{i}
		pl := gplaces[d.N(places)]
		a, b := gsmall[d.N(len(gsmall))], gsmall[d.N(len(gsmall))]
		all, crlf := d.B(), d.B()
		g := &gsrc{imported: true}
		gplaceHead(g, gimports[0].src)
		for k, part := range strings.Split(pl, "@") {
			if k > 0 {
				c := a
				if k%2 == 0 {
					c = b
				}
				g.call("gotext", fmt.Sprintf("T%d", k), c, 0)
			}
			g.w(part)
		}
		w.Desc("all=%v crlf=%v\n%s", all, crlf, g.b.String())
		w.State(w.desc)
		return g.check(w, all, crlf)
	})

	sl := 3
	if r.Thorough {
		sl = 4
	}
	r.Space("sequences", "all sequences of calls up to the bound over a menu of calls, well-formed and malformed", 2*seqCount(len(gsmall), sl), func(w *W, i int64) error {
		d := Dec{i}
		all := d.B()
		g := &gsrc{imported: true}
		gplaceHead(g, gimports[0].src)
		g.w("func f() {\n")
		for k, j := range seqAt(len(gsmall), d.i) {
			g.w("\t")
			g.call("gotext", fmt.Sprintf("T%d", k), gsmall[j], 0)
			g.w("\n")
		}
		g.w("}\n")
		w.Desc("all=%v\n%s", all, g.b.String())
		w.State(w.desc)
		return g.check(w, all, false)
	})

	r.Space("imports", "every form of import with every pair of surrounding pieces and every call, file heads with comments, byte order mark and build tags", prod(len(gimports), len(gdecoys), len(gdecoys)+len(gdecoysLib), len(gsmall), 4, 2), func(w *W, i int64) error {
		d := Dec{i}
		im := gimports[d.N(len(gimports))]
		d1, d2 := d.N(len(gdecoys)), d.N(len(gdecoys)+len(gdecoysLib))
		c := gsmall[d.N(len(gsmall))]
		head := []string{"", "\ufeff", "//go:build ignore\n\n// Package x: é.\n", "/* a\nb */ "}[d.N(4)]
		all := d.B()
		pkg := im.pkg
		g := &gsrc{imported: pkg != ""}
		if pkg == "" {
			pkg = "gotext"
			if all {
				return nil // see notes
			}
		}
		if !g.imported && (c.m.name != "Get" || d2 >= len(gdecoys)) && all {
			return nil
		}
		g.w(head)
		gplaceHead(g, im.src)
		g.w("\n")
		gdecoys[d1](g, pkg)
		g.w("func f() string {\n\treturn ")
		g.call(pkg, "T", c, 0)
		g.w("\n}\n\n")
		if d2 < len(gdecoys) {
			gdecoys[d2](g, pkg)
		} else {
			gdecoysLib[d2-len(gdecoys)](g, pkg)
		}
		g.w("var last = ")
		g.call(pkg, "L", gsmall[2], 0)
		g.w("\n")
		w.Desc("all=%v\n%q", all, g.b.String())
		w.State(w.desc)
		return g.check(w, all, false)
	})

	r.Space("no-import-literals", "files without the import with every pair of pieces, extract-all", prod(len(gdecoys), len(gdecoys), 5), func(w *W, i int64) error {
		d := Dec{i}
		g := &gsrc{}
		a, b := d.N(len(gdecoys)), d.N(len(gdecoys))
		gplaceHead(g, gimports[len(gimports)-5+d.N(5)].src)
		gdecoys[a](g, "lib")
		gdecoys[b](g, "lib")
		w.Desc("%q", g.b.String())
		w.State(w.desc)
		if err := g.check(w, true, false); err != nil {
			return err
		}
		return g.check(w, false, false)
	})

	// Literals: all sequences of pieces of an interpreted or raw literal.
	pieces := []glit{
		{"a", "a"}, {" ", " "}, {`\n`, "\n"}, {`\"`, `"`}, {`\\`, `\`}, {`\t`, "\t"}, {`\x41`, "A"}, {`\101`, "A"}, {`\u00e9`, "é"}, {`\U0001F600`, "😀"},
		{`\a\b\f\r\v`, "\a\b\f\r\v"}, {"é", "é"}, {"日", "日"}, {"'", "'"}, {"`", "`"}, {"%d", "%d"}, {"//", "//"}, {`\000`, "\x00"}, {"\t", "\t"}, {`\xc3\xa9`, "é"},
	}
	raw := []string{"a", "\n", `"`, `\`, `\n`, "é", "\t", "//", "/*", "  ", "'", "\r", "%s", "日"}
	ll := 3
	if r.Thorough {
		ll = 4
	}
	r.Space("literals", "all interpreted literals of up to the bound of pieces, as id, plural and context", seqCount(len(pieces), ll), func(w *W, i int64) error {
		var l glit
		for _, j := range seqAt(len(pieces), i) {
			l.src += pieces[j].src
			l.val += pieces[j].val
		}
		return c15Literal(w, glit{`"` + l.src + `"`, l.val}, i)
	})
	r.Space("raw-literals", "all raw literals of up to the bound of pieces, as id, plural and context", seqCount(len(raw), ll+1), func(w *W, i int64) error {
		s := ""
		for _, j := range seqAt(len(raw), i) {
			s += raw[j]
		}
		return c15Literal(w, glit{"`" + s + "`", strings.ReplaceAll(s, "\r", "")}, i)
	})

	// Calls nested in arguments of calls, up to depth three.
	nestMenu := []int{0, 2, 4, 6, 9, 11}
	nn := len(nestMenu)
	r.Space("nesting", "calls nested in the further arguments of calls up to depth four, over a menu of calls", prod(2)*seqCount(nn, 4), func(w *W, i int64) error {
		d := Dec{i}
		all := d.B()
		seq := seqAt(nn, d.i)
		g := &gsrc{imported: true}
		gplaceHead(g, gimports[0].src)
		g.w("var x = ")
		var rec func(k int)
		rec = func(k int) {
			if k == len(seq) {
				g.w("v")
				return
			}
			c := gsmall[nestMenu[seq[k]]]
			c.extra = ""
			mark := g.b.Len()
			_ = mark
			g.callOpen("gotext", fmt.Sprintf("N%d", k), c, func() {
				g.w(",\n\t\tg(")
				rec(k + 1)
				g.w(")")
			})
		}
		rec(0)
		g.w("\n")
		w.Desc("all=%v\n%s", all, g.b.String())
		w.State(w.desc)
		return g.check(w, all, false)
	})

	// Long files: line numbers.
	sizes := []int{1, 2, 3, 10, 100, 254, 255, 256, 257, 511, 512, 513, 1000, 4096, 5000, 32767, 65534, 65535, 65536, 70000}
	r.Space("lines", "calls after many lines of several kinds", prod(len(sizes), 6, len(gsmall)), func(w *W, i int64) error {
		d := Dec{i}
		n := sizes[d.N(len(sizes))]
		fill := []string{"\n", "// é comment\n", "var _ = 1\n", "\r\n", "/* x\n\n*/\n", "var _ = `\n\n`\n"}[d.N(6)]
		c := gsmall[d.N(len(gsmall))]
		g := &gsrc{imported: true}
		gplaceHead(g, gimports[0].src)
		g.w(strings.Repeat(fill, n))
		g.w("var x = ")
		g.call("gotext", "A", c, 0)
		g.w("\n" + strings.Repeat(fill, 3) + "var y = ")
		g.call("gotext", "B", c, 0)
		w.Desc("%d times %q, %s", n, fill, c.m.name)
		w.State(w.desc)
		return g.check(w, false, false)
	})
}

// callOpen is call with further arguments written by more.
func (g *gsrc) callOpen(pkg, tag string, c gcallForm, more func()) {
	at := len(g.calls)
	g.call(pkg, tag, gcallForm{m: c.m, args: c.args}, 0)
	// reopen the parenthesis
	s := g.b.String()
	g.b.Reset()
	g.b.WriteString(strings.TrimSuffix(s, ")"))
	_ = at
	more()
	g.w(")")
}

func c15Literal(w *W, l glit, i int64) error {
	g := &gsrc{imported: true}
	gplaceHead(g, gimports[0].src)
	g.w("var a = gotext.Get(")
	at := g.lit(l)
	if l.val != "" {
		g.calls = append(g.calls, ent{ID: l.val, Locations: locs{{Line: at, File: "x.go"}}})
	}
	g.w(")\nvar b = gotext.GetNC(")
	at = g.lit(glit{`"i"`, "i"})
	g.w(", ")
	g.lit(l)
	g.w(", n, ")
	g.lit(l)
	g.w(")\nvar c = gotext.Get(")
	g.calls = append(g.calls, ent{ID: "i", Plural: l.val, Context: l.val, Locations: locs{{Line: at, File: "x.go"}}})
	at = g.lit(glit{`"end"`, "end"})
	g.calls = append(g.calls, ent{ID: "end", Locations: locs{{Line: at, File: "x.go"}}})
	g.w(")\nvar d = gotext.Get(\n")
	at = g.lit(l)
	if l.val != "" {
		g.calls = append(g.calls, ent{ID: l.val, Locations: locs{{Line: at, File: "x.go"}}})
	}
	g.w(")\n")
	for k := range g.lits {
		g.lits[k].Obsolete = true
	}
	g.w("var e = ")
	g.lit(l)
	g.w("\nvar f =\n")
	g.lit(l)
	g.w("\n")
	w.Desc("%q", l.src)
	w.State(w.desc)
	if err := g.check(w, false, false); err != nil {
		return err
	}
	return g.check(w, true, false)
}

var _ = po.Entry{}
