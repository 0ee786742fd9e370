// C20: highlighting only adds colour codes.
package main

import (
	"bytes"
	"fmt"
	"os"
	"regexp"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

func init() {
	props["C20"] = propDef{
		level: "model_checking",
		notes: []string{
			"colourers given by the caller add escape sequences only",
			"environments: COLORTERM or FORCE_COLOR set (colours), TERM=dumb with nothing else set (no colours)",
			"oracle: the output without highlighting; escape sequences are removed with an independent scanner",
		},
		run: runC20,
	}
}

// termEsc is a colourer of the caller.
type termEsc string

func (t termEsc) Sprint(a ...any) string {
	return "\x1b[" + string(t) + "m" + fmt.Sprint(a...) + "\x1b[0m"
}

func (t termEsc) Sprintf(f string, a ...any) string { return t.Sprint(fmt.Sprintf(f, a...)) }

var sgr = regexp.MustCompile("\x1b\\[[0-9;]*m")

func stripSGR(s string) string { return sgr.ReplaceAllString(s, "") }

var c20Classes = []string{"keyword", "string", "text", "comment", "msgid", "msgstr", "msgid string", "msgstr string", "msgid text", "msgstr text", "fuzzy msgstr text", "text string", "string text", "obsolete", "translator-comment", ""}

// c20Props decodes one set of properties; 0 is the empty one.
func c20Props(d *Dec) compile.HighlightCSSProperties {
	var p compile.HighlightCSSProperties
	if d.B() {
		p.Color = termEsc("38;5;200")
	}
	if d.B() {
		p.BackgroundColor = termEsc("41")
	}
	p.FontWeight = compile.HighlightFontWeight(d.N(2))
	p.FontStyle = compile.HighlightFontStyle(d.N(3))
	p.TextDecoration = compile.HighlightTextDecoration(d.N(2))
	return p
}

const c20NProps = 48

// c20Layouts are settings of the other output options.
func c20Layouts() []c19Opt {
	full := compile.PoLocationModeFull
	return []c19Opt{
		{loc: full},
		{loc: full, wrap: true},
		{loc: full, fuzzy: true, wrap: true},
		{loc: full, fuzzy: true, custom: true},
		{loc: compile.PoLocationModeFile, manage: true, comments: true, fields: true, title: "T", prefix: "<\n", suffix: ">"},
		{noLoc: true, omit: true, wrap: true},
	}
}

func setEnv(vars map[string]string) (restore func()) {
	old := map[string]*string{}
	for _, k := range []string{"COLORTERM", "FORCE_COLOR", "TERM_PROGRAM", "TERM_PROGRAM_VERSION", "TERM", "NO_COLOR"} {
		if v, ok := os.LookupEnv(k); ok {
			v := v
			old[k] = &v
		} else {
			old[k] = nil
		}
		if v, ok := vars[k]; ok {
			os.Setenv(k, v)
		} else {
			os.Unsetenv(k)
		}
	}
	return func() {
		for k, v := range old {
			if v == nil {
				os.Unsetenv(k)
			} else {
				os.Setenv(k, *v)
			}
		}
	}
}

func runC20(r *Run) {
	pool := append(c19Pool(), ent{ID: "esc\x1b[1mx", Str: "%s\t\x1b[0m\\", Comments: strs("raw \x1b[31m red")})
	layouts := c20Layouts()

	check := func(w *W, cat ents, h compile.CSSClassesHighlighting, o c19Opt, colour bool) error {
		plain, err := writePo(cat, o.opts()...)
		if err != nil {
			return err
		}
		high, err := writePo(cat, append(o.opts(), compile.PoWithHighlight(h))...)
		if err != nil {
			return err
		}
		none, err := writePo(cat, append(o.opts(), compile.PoWithHighlight(h), compile.PoWithNoColor(true))...)
		if err != nil {
			return err
		}
		w.Trans(3)
		w.Trace()
		if none != plain {
			return failf("no-color", "output with highlighting and NoColor differs from the output without highlighting: %s", firstDiff(none, plain))
		}
		if !colour && high != plain {
			return failf("environment", "without colours in the environment the highlighted output differs: %s", firstDiff(high, plain))
		}
		if high != plain {
			w.Outcome("coloured")
		} else {
			w.Outcome("identical")
		}
		if g, want := stripSGR(high), stripSGR(plain); g != want {
			return failf("content", "without its colour codes the highlighted output differs: %s", firstDiff(g, want))
		}
		return nil
	}

	named := []compile.CSSClassesHighlighting{compile.TestHighlight, compile.DefaultHighlight, {}, nil}
	envs := []struct {
		name   string
		vars   map[string]string
		colour bool
	}{
		{"colour", map[string]string{"COLORTERM": "truecolor"}, true},
		{"forced colour", map[string]string{"FORCE_COLOR": "1", "TERM": "dumb"}, true},
		{"no colour", map[string]string{"TERM": "dumb"}, false},
	}
	nc := len(c20Classes)
	for ei, env := range envs {
		restore := setEnv(env.vars)
		env := env
		l := 2
		if r.Thorough {
			l = 3
		}
		r.Space("named styles, "+env.name, "all catalogs up to the bound under the predefined styles and other output options", prod(int(seqCount(len(pool), l)), len(named), len(layouts)), func(w *W, i int64) error {
			d := &Dec{i}
			o, h := layouts[d.N(len(layouts))], named[d.N(len(named))]
			var cat ents
			for k, j := range seqAt(len(pool), d.i) {
				e := cloneE(pool[j])
				if !isHeader(e) {
					e.ID += fmt.Sprint(k)
				}
				cat = append(cat, e)
			}
			w.Desc("%v %d classes\n%s", o, len(h), dump(cat))
			w.State(env.name + w.desc)
			return check(w, cat, h, o, env.colour)
		})
		if ei > 0 {
			// Styles without colourers of the caller: only the environment decides.
			r.Space("font styles, "+env.name, "every class with every weight, style and decoration", prod(nc, 12, len(layouts)), func(w *W, i int64) error {
				d := &Dec{i}
				o := layouts[d.N(len(layouts))]
				c := c20Classes[d.N(nc)]
				p := c20Props(&Dec{d.i * 4})
				w.Desc("%v %q: %+v", o, c, p)
				w.State(env.name + w.desc)
				return check(w, pool, compile.CSSClassesHighlighting{c: p}, o, env.colour)
			})
			restore()
			continue
		}
		r.Space("styles, "+env.name, "every class with every combination of properties, on all entries at once", prod(nc, c20NProps, len(layouts)), func(w *W, i int64) error {
			d := &Dec{i}
			o := layouts[d.N(len(layouts))]
			c := c20Classes[d.N(nc)]
			p := c20Props(d)
			w.Desc("%v %q: %+v", o, c, p)
			w.State(w.desc)
			return check(w, pool, compile.CSSClassesHighlighting{c: p}, o, true)
		})
		richPairs(r, "pairs", "two predefined styles, three layouts", richMenu(), 6, func(w *W, a, b ent, k int) error {
			return check(w, ents{a, b}, named[k%2], layouts[[]int{0, 3, 4}[k/2]], true)
		})
		sub := 3
		props := []int64{0, 1, 47}
		if r.Thorough {
			props = []int64{0, 1, 2, 4, 8, 16, 24, 47}
		}
		np := len(props)
		// every assignment of a property set (or none) to the classes in use, up to the bound of classes
		r.Space("style sets", "every set of up to the bound of classes, each with one of several property sets", prod(nc, nc, nc, np, np, np), func(w *W, i int64) error {
			d := &Dec{i}
			h := compile.CSSClassesHighlighting{}
			var cs [3]int
			for k := 0; k < sub; k++ {
				cs[k] = d.N(nc)
				h[c20Classes[cs[k]]] = c20Props(&Dec{props[d.N(np)]})
			}
			if cs[0] > cs[1] || cs[1] > cs[2] { // the same set in another order
				return nil
			}
			o := layouts[int(i)%len(layouts)]
			w.Desc("%v %v", o, h)
			w.State(w.desc)
			return check(w, pool, h, o, true)
		})
		// Content of the texts.
		alphabet := []string{"a", "\n", "%s", `"`, `\`, "\t", "é", "\x1b[1m", "\xe9"}
		tl := 5
		if r.Thorough {
			tl = 6
		}
		r.Space("texts", "all texts up to the bound as id, context, plural, comment and translation, under the predefined styles", seqCount(len(alphabet), tl)*2, func(w *W, i int64) error {
			d := &Dec{i}
			h := named[d.N(2)]
			var b strings.Builder
			for _, j := range seqAt(len(alphabet), d.i) {
				b.WriteString(alphabet[j])
			}
			s := b.String()
			w.Desc("%q", s)
			w.State(s)
			one := strings.ReplaceAll(s, "\n", " ")
			cat := ents{{ID: s, Context: s, Str: s, Comments: strs(one), Flags: strs("fuzzy")}, {ID: "p" + s, Plural: s, Plurals: pes{{ID: 0, Str: s}, {ID: 1, Str: s}}, Obsolete: true}}
			for _, o := range []c19Opt{layouts[0], layouts[1], {loc: "full", prefix: s, suffix: s}} {
				if err := check(w, cat, h, o, true); err != nil {
					return err
				}
			}
			return nil
		})
		restore()
	}

	// Highlighting a text reproduces the text.
	toks := []string{"msgid ", "msgstr ", "msgstr[0] ", `"a\n"`, `"q\"\\"`, "\n", "# c", "#, fuzzy", "#: f.go:1", "#| msgid \"x\"", "#~ ", "#", "\t ", "\r\n", `"`, "msgctxt", "x", "7", "[", "é"}
	tl := 4
	if r.Thorough {
		tl = 5
	}
	r.Space("highlight texts", "all token sequences up to the bound through the three functions that highlight a text", seqCount(len(toks), tl), func(w *W, i int64) error {
		var b strings.Builder
		for _, j := range seqAt(len(toks), i) {
			b.WriteString(toks[j])
		}
		return c20Text(w, b.String(), false)
	})
	r.Space("highlight files", "the files written for all catalogs up to the bound, whole and cut after every byte", seqCount(len(pool), 2)*int64(len(layouts)), func(w *W, i int64) error {
		d := &Dec{i}
		o := layouts[d.N(len(layouts))]
		var cat ents
		for _, j := range seqAt(len(pool), d.i) {
			cat = append(cat, cloneE(pool[j]))
		}
		text, err := writePo(cat, o.opts()...)
		if err != nil {
			return err
		}
		if err := c20Text(w, text, true); err != nil {
			return err
		}
		step := 7
		if r.Thorough {
			step = 1
		}
		for k := 0; k < len(text); k += step {
			if err := c20Text(w, text[:k], false); err != nil {
				return err
			}
		}
		return nil
	})
	large(r, "the file, highlighted", 257, 1025, len(layouts), func(w *W, cat ents, k int) error {
		text, err := writePo(cat, layouts[k].opts()...)
		if err != nil {
			return err
		}
		return c20Text(w, text, true)
	})
	runC20Term(r)
}

// c20Text highlights one text in all ways.
func c20Text(w *W, text string, valid bool) error {
	w.Desc("%q", text)
	w.State("T" + text)
	w.Trace()
	for k, h := range []compile.CSSClassesHighlighting{compile.TestHighlight, nil} {
		var outs [3][]byte
		var errs [3]error
		outs[0], errs[0] = compile.Highlight(h, "f.po", text)
		in := []byte(text)
		outs[1], errs[1] = compile.HighlightFromBytes(h, "f.po", in)
		if string(in) != text {
			return failf("modified", "highlighting modified its input")
		}
		outs[2], errs[2] = compile.HighlightFromReader(h, "f.po", strings.NewReader(text))
		w.Trans(3)
		for j := range outs {
			if errs[j] != nil {
				if valid {
					return failf("refused", "highlighting a well-formed text fails: %v", errs[j])
				}
				w.Outcome("error")
				if errs[0] == nil {
					return failf("ways", "highlighting function %d fails with %v, the first one does not", j, errs[j])
				}
				continue
			}
			if g := stripSGR(string(outs[j])); g != stripSGR(text) {
				return failf("text", "style %d, function %d: highlighting gives another text: %s", k, j, firstDiff(g, text))
			}
			if !bytes.Equal(outs[j], outs[0]) {
				return failf("ways", "highlighting function %d gives something else than the first one", j)
			}
		}
	}
	if valid {
		for at := 0; at < len(text); at += 16 {
			if out, err := compile.HighlightFromReader(nil, "f.po", &faultReader{data: []byte(text), at: at}); err == nil {
				return failf("reader", "the input failed after %d bytes, but highlighting reports no error and gives %d bytes", at, len(out))
			}
			w.Trans(1)
		}
	}
	return nil
}
