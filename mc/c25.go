// C25: xgotext writes the extracted template and joins without losing translations.
package main

import (
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

func init() {
	props["C25"] = propDef{
		level: "model_checking",
		notes: []string{
			"a run of the built tool in a fresh copy of a small source tree; its output is read back and compared with the reference extraction (a table of messages, a reference walk) and reference header; no other file may appear",
			"standard input is read after the named files and reported as /dev/stdin",
			"joining: the result equals the library's merge of the existing file and the reference extraction, and independently no translation, translator comment or obsolete entry of the existing file is missing; the existing header stays as it is",
			"an exclude file whose messages are obsolete, and a nplurals value, are not judged",
		},
		run: runC25,
	}
}

// c25Opt are the options of a run.
type c25Opt struct {
	all, omit, foreign, noLoc, wrap, force, noHold             bool
	loc, prefix, suffix, title, pkg, version, bugs, lang, hold string
}

func (o c25Opt) args() (a []string) {
	b := func(on bool, s string) {
		if on {
			a = append(a, s)
		}
	}
	s := func(v string, flag string) {
		if v != "" {
			if len(a)%2 == 0 || len(flag) == 2 {
				a = append(a, flag, v)
			} else {
				a = append(a, flag+"="+v)
			}
		}
	}
	b(o.all, "-a")
	b(o.omit, "--omit-header")
	b(o.foreign, "--foreign-user")
	b(o.noLoc, "-n")
	b(o.wrap, "--word-wrap")
	b(o.force, "--force-po")
	b(o.noHold && o.hold == "", "--copyright-holder=")
	s(o.loc, "--add-location")
	s(o.prefix, "-m")
	s(o.suffix, "--msgstr-suffix")
	s(o.title, "--title")
	s(o.pkg, "--package-name")
	s(o.version, "--package-version")
	s(o.bugs, "--msgid-bugs-address")
	s(o.lang, "-l")
	s(o.hold, "--copyright-holder")
	return
}

func def(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

// c19 is the reference of what the options do to the output.
func (o c25Opt) c19(manage bool) c19Opt {
	return c19Opt{
		omit: o.omit, manage: manage, comments: true, fields: true, foreign: o.foreign || o.noHold && o.hold == "", noLoc: o.noLoc, wrap: o.wrap,
		loc: compile.PoLocationMode(def(o.loc, "full")), prefix: o.prefix, suffix: o.suffix,
		title: def(o.title, "SOME DESCRIPTIVE TITLE"), pkg: def(o.pkg, "PACKAGE"), holder: def(o.hold, "YEAR THE PACKAGE'S COPYRIGHT HOLDER"),
	}
}

func (o c25Opt) header() ent {
	var t string
	for _, f := range [][2]string{
		{"Project-Id-Version", def(o.version, "PACKAGE VERSION")}, {"Report-Msgid-Bugs-To", o.bugs}, {"PO-Revision-Date", "YEAR-MO-DA HO:MI+ZONE"},
		{"Last-Translator", "FULL NAME <EMAIL@ADDRESS>"}, {"Language-Team", "LANGUAGE <LL@li.org>"}, {"Language", def(o.lang, "en")}, {"MIME-Version", "1.0"},
		{"Content-Type", "text/plain; charset=CHARSET"}, {"Content-Transfer-Encoding", "8bit"}, {"X-Generator", "xgotext"},
	} {
		t += f[0] + ": " + f[1] + "\n"
	}
	return ent{Str: t, Flags: strs("fuzzy")}
}

// extracted is the reference catalog.
func (o c25Opt) extracted(names []string, files []c16File) ents {
	return append(ents{o.header()}, c16Opts{noHeader: true, all: o.all}.want(names, files)...)
}

// normC25 leaves out header fields without value, and the plural rule.
func normC25(es ents) ents {
	es = clone(es)
	for i := range es {
		if isHeader(es[i]) {
			t := ""
			for _, f := range refHeader(es[i].Str) {
				if f.Value != "" && f.Key != "Plural-Forms" {
					t += f.Key + ": " + f.Value + "\n"
				}
			}
			es[i].Str = t
		}
	}
	return es
}

func c25Tree(t []c16File, extra tree) tree {
	o := tree{}
	for _, f := range t {
		o[f.path] = f.text
	}
	for k, v := range extra {
		o[k] = v
	}
	return o
}

// c25Run runs xgotext and compares its output with the catalog; out is the path, "" for standard output.
func (r *Run) c25Run(w *W, j cliJob, out string, want ents) (string, error) {
	j.tool = "xgotext"
	res, err := r.cli(w, j)
	if err != nil {
		return "", err
	}
	if res.code != 0 {
		return "", failf("exit", "%s exits %d: %.800s", res.cmd, res.code, res.err)
	}
	text := res.out
	after := j.files.clone()
	if out != "" {
		if res.out != "" {
			return "", failf("stdout", "%s also writes to standard output: %.300q", res.cmd, res.out)
		}
		t, ok := res.tree[out]
		if !ok {
			return "", failf("output", "%s does not write %s; files:\n%v", res.cmd, out, res.tree)
		}
		text = t
		after[out] = t
	}
	if d := res.tree.diff(after.full()); d != "" {
		return "", failf("files", "%s: %s", res.cmd, d)
	}
	got, err := readPo(text)
	if err != nil {
		return "", err
	}
	w.Trace()
	w.Outcome(text)
	return text, sameEntries("entries", res.cmd+"\n"+text, normC25(got), normC25(want))
}

func runC25(r *Run) {
	t := &c16World{root: "/src", files: append(append([]c16File{}, c16Tree...), c16Bad...)}
	t.files = append(t.files, c16File{path: "emptydir/.keep", bad: true})
	files := c25Tree(t.files, nil)

	// Which files are read.
	menu := []string{"a.go", "./a.go", "sub/../a.go", "b.go", "empty.go", "lit.go", "sub", "sub/", "./sub", "sub/c.go", "sub//c.go", "./sub/deep", "sub/deep/..", "sub2", "z_test.go", "notgo.txt", "noext", "emptydir", "missing.go", "bad", "bad/bad.go", "bad/good.go", "a.go/x"}
	n := 2
	if r.Thorough {
		n = 3
	}
	r.Space("inputs", "all lists of input paths up to the bound, as arguments, in a list file, or divided among both, with extract-all in turn", prod(3, 2)*seqCount(len(menu), n), func(w *W, i int64) error {
		d := Dec{i}
		how, style := d.N(3), d.B()
		var paths []string
		for _, k := range seqAt(len(menu), d.i) {
			paths = append(paths, menu[k])
		}
		if how == 2 && len(paths) < 2 || how == 1 && len(paths) == 0 {
			return nil
		}
		o := c25Opt{all: d.i%2 == 1}
		args := o.args()
		fs := files
		list := ""
		switch how {
		case 0:
			args = append(args, paths...)
		case 1:
			list = strings.Join(paths, "\n")
		case 2:
			args = append(args, paths[0])
			list = strings.Join(paths[1:], "\n")
		}
		if how > 0 {
			if style {
				list = "\n" + strings.ReplaceAll(list, "\n", "\n\n") + "\n"
				args = append(args, "--files-from=lists/l")
			} else {
				args = append(strs("-f", "lists/l"), args...)
			}
			fs = files.with("lists/l", list)
		} else if style {
			return nil
		}
		w.Desc("xgotext %q list %q", args, list)
		w.State(w.desc)
		names, fl, fail := t.expand(paths, nil)
		if fail {
			_, err := r.cliFail(w, cliJob{tool: "xgotext", args: args, files: fs})
			w.Outcome("error")
			return err
		}
		_, err := r.c25Run(w, cliJob{args: args, files: fs}, "", c19Image(o.extracted(names, fl), o.c19(true)))
		return err
	})

	dirs := []string{"sub", "sub/", "./sub", "sub/deep/..", ".", "sub2"}
	rel := []string{"c.go", "d.go", "deep", "./deep/e.go", ".", "deep/../c.go", "dir.go", "../a.go", "../b.go", "missing.go"}
	ex := []string{"", "c.go", "deep", "../a.go", "./d.go", "dir.go"}
	r.Space("directory", "a directory for the input paths, all pairs of paths below it, one excluded path", prod(len(dirs), len(rel), len(rel)+1, len(ex), 2), func(w *W, i int64) error {
		d := Dec{i}
		dir := dirs[d.N(len(dirs))]
		in := strs(rel[d.N(len(rel))])
		if k := d.N(len(rel) + 1); k > 0 {
			in = append(in, rel[k-1])
		}
		x := ex[d.N(len(ex))]
		if !r.Thorough && len(in) == 2 && i%3 != 0 {
			return nil
		}
		style := d.B()
		args := append(strs("-D", dir), in...)
		if style {
			args = append(append([]string{}, in...), "--directory="+dir)
		}
		var paths, excl []string
		for _, p := range in {
			paths = append(paths, filepath.Join(dir, p))
		}
		if x != "" {
			args = append(args, "-X", x)
			excl = strs(filepath.Join(dir, x))
		}
		w.Desc("xgotext %q", args)
		w.State(w.desc)
		names, fl, fail := t.expand(paths, excl)
		if fail {
			_, err := r.cliFail(w, cliJob{tool: "xgotext", args: args, files: files})
			w.Outcome("error")
			return err
		}
		o := c25Opt{}
		_, err := r.c25Run(w, cliJob{args: args, files: files}, "", c19Image(o.extracted(names, fl), o.c19(true)))
		return err
	})
	excl := []string{"a.go", "./sub/c.go", "sub/deep", "sub/dir.go/", "bad/bad.go", "bad/nested", "missing", "su", "a.go/x"}
	sets := [][]string{{"."}, {"sub", "a.go"}, {"bad"}, {"sub/c.go", "sub"}, {"a.go", "a.go", "b.go"}}
	r.Space("excludes", "all subsets of a menu of excluded paths over several path lists, given one by one or together", int64(len(sets)*2)<<len(excl), func(w *W, i int64) error {
		d := Dec{i}
		paths := sets[d.N(len(sets))]
		together := d.B()
		var ex, args []string
		for k, e := range excl {
			if d.i>>k&1 != 0 {
				ex = append(ex, e)
			}
		}
		if together {
			if len(ex) < 2 {
				return nil
			}
			args = strs("--exclude=" + strings.Join(ex, ","))
		} else {
			for _, e := range ex {
				args = append(args, "-X", e)
			}
		}
		args = append(args, paths...)
		w.Desc("xgotext %q", args)
		w.State(w.desc)
		names, fl, fail := t.expand(paths, ex)
		if fail {
			_, err := r.cliFail(w, cliJob{tool: "xgotext", args: args, files: files})
			w.Outcome("error")
			return err
		}
		o := c25Opt{}
		_, err := r.c25Run(w, cliJob{args: args, files: files}, "", c19Image(o.extracted(names, fl), o.c19(true)))
		return err
	})
	r.Space("stdin", "standard input at every place among the inputs, each text, with a directory and a list file", prod(len(c16Tree), 3, 4, 2), func(w *W, i int64) error {
		d := Dec{i}
		f := c16Tree[d.N(len(c16Tree))]
		place, form, all := d.N(3), d.N(4), d.B()
		in := strs("sub/c.go", "b.go")
		in = append(in[:place:place], append(strs("-"), in[place:]...)...)
		var args []string
		fs := files
		paths := strs("sub/c.go", "b.go")
		switch form {
		case 0:
			args = in
		case 1:
			args = strs("-")
			paths = nil
		case 2:
			args = append(strs("-D", "sub"), "-", "c.go", "../b.go")
		case 3:
			args = strs("-f", "lists/l")
			fs = files.with("lists/l", strings.Join(in, "\n"))
		}
		o := c25Opt{all: all}
		args = append(args, o.args()...)
		w.Desc("xgotext %q < %s", args, f.path)
		w.State(w.desc)
		names, fl, _ := t.expand(paths, nil)
		job := cliJob{tool: "xgotext", args: args, files: fs, stdin: f.text}
		if f.bad {
			_, err := r.cliFail(w, job)
			return err
		}
		_, err := r.c25Run(w, job, "", c19Image(o.extracted(append(names, "/dev/stdin"), append(fl, f)), o.c19(true)))
		return err
	})

	// Excluded messages.
	exMsgs := []string{"msgid \"A\"\nmsgstr \"\"\n", "msgid \"shared\"\nmsgstr \"x\"\n", "msgctxt \"ctx\"\nmsgid \"shared\"\nmsgstr \"\"\n", "msgctxt \"no\"\nmsgid \"A\"\nmsgstr \"\"\n", "#, fuzzy\nmsgid \"C\"\nmsgid_plural \"Cs\"\nmsgstr[0] \"\"\nmsgstr[1] \"\"\n", "msgid \"absent\"\nmsgstr \"\"\n", "msgid \"E\\n\"\nmsgstr \"\"\n", "msgid \"\"\nmsgstr \"Language: q\\n\"\n"}
	r.Space("exclude-file", "all subsets of messages in an exclude file", int64(3)<<len(exMsgs), func(w *W, i int64) error {
		d := Dec{i}
		paths := [][]string{{"a.go", "b.go", "sub"}, {"sub2", "lit.go"}, {"a.go"}}[d.N(3)]
		text := ""
		gone := map[[2]string]bool{}
		for k, m := range exMsgs {
			if d.i>>k&1 != 0 {
				text += m + "\n"
				for _, e := range cliMust(m) {
					gone[uid(e)] = !isHeader(e)
				}
			}
		}
		args := append(strs("-x", "lists/ex.pot"), paths...)
		w.Desc("xgotext %q with\n%s", args, text)
		w.State(w.desc)
		names, fl, _ := t.expand(paths, nil)
		o := c25Opt{}
		var want ents
		for _, e := range o.extracted(names, fl) {
			if !gone[uid(e)] {
				want = append(want, e)
			}
		}
		_, err := r.c25Run(w, cliJob{args: args, files: files.with("lists/ex.pot", text)}, "", c19Image(want, o.c19(true)))
		return err
	})

	// Where the output goes.
	outs := []string{"default", "-", "", "x.pot", "lists/x.pot", "./x.pot", "po/../x.pot"}
	r.Space("outputs", "every output name, output directory and default domain, new or existing, with and without joining", prod(len(outs), 4, 3, 2, 2, 2), func(w *W, i int64) error {
		d := Dec{i}
		out, dir, dom := outs[d.N(len(outs))], []string{"", "po", "./po/", "po/../po"}[d.N(4)], []string{"", "dom", "a.b"}[d.N(3)]
		old, wrap, join := d.B(), d.B(), d.B()
		var args []string
		if out != "default" {
			args = append(args, "-o", out)
		}
		if dir != "" {
			args = append(args, "-p", dir)
		}
		if dom != "" {
			args = append(args, "--default-domain", dom)
		}
		target := ""
		if out != "default" && out != "-" {
			target = filepath.Join(dir, out)
			if out == "" {
				target = filepath.Join(dir, def(dom, "messages")+".pot")
			}
		}
		if target == "" && (old || join) {
			return nil
		}
		if out == "po/../x.pot" && dir != "" {
			return nil
		}
		fs := files.with("po/", "", "lists/", "", "po/lists/", "")
		if old {
			fs[target] = "msgid \"A\"\nmsgstr \"alt\"\n" + strings.Repeat("# old\n", 500)
		}
		o := c25Opt{}
		names, fl, _ := t.expand(strs("a.go"), nil)
		want := c19Image(o.extracted(names, fl), o.c19(true))
		if join {
			args = append(args, "-j")
			if old {
				want = ents{{ID: "A", Str: "alt", Locations: locs{{File: "a.go", Line: 5}}}, {ID: "shared", Locations: locs{{File: "a.go", Line: 6}}}}
			}
		}
		args = append(args, "a.go")
		w.Desc("xgotext %q old=%v", args, old)
		w.State(w.desc)
		_, err := r.c25Run(w, cliJob{args: args, files: fs, wrapper: wrap}, target, want)
		return err
	})

	// What the options do.
	r.Space("options", "all combinations of the options of header, references, translations and layout", prod(2, 2, 2, 2, 2, 2, 4, 2, 2, 3, 2, 2, 2), func(w *W, i int64) error {
		d := Dec{i}
		o := c25Opt{all: d.B(), omit: d.B(), foreign: d.B(), noLoc: d.B(), wrap: d.B(), force: d.B(), loc: []string{"", "file", "never", "full"}[d.N(4)]}
		if d.B() {
			o.prefix = "<\n"
		}
		if d.B() {
			o.suffix = "\"z"
		}
		switch d.N(3) {
		case 1:
			o.title, o.hold = "The Title", "Me, 2024"
		case 2:
			o.noHold = true
		}
		if d.B() {
			o.pkg, o.version = "pkg", "pkg 1.2: x"
		}
		if d.B() {
			o.bugs = "bugs@example.org"
		}
		if d.B() {
			o.lang = "pt_BR"
		}
		if !r.Thorough && (o.wrap != (o.loc == "file") || o.force != (o.bugs != "")) {
			return nil
		}
		args := append(o.args(), "sub", "lit.go", "a.go")
		w.Desc("xgotext %q", args)
		w.State(w.desc)
		names, fl, _ := t.expand(strs("sub", "lit.go", "a.go"), nil)
		_, err := r.c25Run(w, cliJob{args: args, files: files}, "", c19Image(o.extracted(names, fl), o.c19(true)))
		return err
	})
	fixes := []string{"", " ", "  <", "> ", "\n", "\t", "<\n", "%s", "%", "\\", "\"", "é", "-", "a b", "#", "\\n"}
	r.Space("affixes", "all pairs of a prefix and a suffix (blanks, line breaks, quotes, format verbs), spelled in every way", prod(len(fixes), len(fixes), 2), func(w *W, i int64) error {
		d := Dec{i}
		o := c25Opt{prefix: fixes[d.N(len(fixes))], suffix: fixes[d.N(len(fixes))]}
		args := o.args()
		if d.B() {
			args = nil
			if o.prefix != "" {
				args = append(args, "--msgstr-prefix="+o.prefix)
			}
			if o.suffix != "" {
				args = append(args, "-M", o.suffix)
			}
		}
		args = append(args, "a.go", "b.go")
		w.Desc("xgotext %q", args)
		w.State(w.desc)
		names, fl, _ := t.expand(strs("a.go", "b.go"), nil)
		_, err := r.c25Run(w, cliJob{args: args, files: files}, "", c19Image(o.extracted(names, fl), o.c19(true)))
		return err
	})
	words := []string{"", "100% free", "%s", "%d%%", "a\\b", "\\n", "\"q\"", "é 日本", "{{.}}", "$HOME", "a: b", "<x>", "-", "'", "# x", "YEAR", "PACKAGE"}
	r.Space("words", "every option that takes a text, and pairs of them, with per cent signs, backslashes, quotes and other unusual text", prod(len(words), len(words), 7, 7, 2), func(w *W, i int64) error {
		d := Dec{i}
		x, y := words[d.N(len(words))], words[d.N(len(words))]
		k, l := d.N(7), d.N(7)
		o := c25Opt{foreign: d.B()}
		if k > l || k == l && y != "" || !r.Thorough && y != "" && o.foreign {
			return nil
		}
		fields := []*string{&o.title, &o.pkg, &o.hold, &o.version, &o.bugs, &o.lang, &o.prefix}
		*fields[l] = y
		*fields[k] = x
		args := append(o.args(), "a.go")
		w.Desc("xgotext %q", args)
		w.State(w.desc)
		names, fl, _ := t.expand(strs("a.go"), nil)
		_, err := r.c25Run(w, cliJob{args: args, files: files}, "", c19Image(o.extracted(names, fl), o.c19(true)))
		return err
	})
	like := &c16World{root: "/src"}
	for _, p := range []string{"a.go", "A.go", "aa.go", "d/a.go", "D/a.go", "d/A.go", "da/a.go", "d/d/a.go", "d/d/da.go", "d.go", "d/d.go"} {
		like.files = append(like.files, c16File{path: p, text: c16Head + "var x = gotext.Get(\"" + p + "\")\n", msgs: ents{c16msg(p, "", "", 5)}})
	}
	likeFiles := c25Tree(like.files, nil)
	dirsA := []string{"", ".", "d", "d/", "D", "d/d", "da", "./d"}
	relA := []string{".", "a.go", "A.go", "d", "d/", "d/a.go", "d.go", "d/d", "../d", "../D/a.go", "da.go"}
	r.Space("alike", "paths that begin like the directory given with -D, repeat its name or differ only in case, all pairs of an input and an excluded path", prod(len(dirsA), len(relA), len(relA), len(relA)+1), func(w *W, i int64) error {
		d := Dec{i}
		dir, in, x := dirsA[d.N(len(dirsA))], relA[d.N(len(relA))], relA[d.N(len(relA))]
		ex := strs(x)
		if k := d.N(len(relA) + 1); k > 0 {
			ex = append(ex, relA[k-1])
		}
		if !r.Thorough && len(ex) > 1 && (i%7 != 0) {
			return nil
		}
		var args, excl []string
		if dir != "" {
			args = strs("-D", dir)
		}
		for _, e := range ex {
			args = append(args, "-X", e)
			excl = append(excl, filepath.Join(dir, e))
		}
		args = append(args, in)
		w.Desc("xgotext %q", args)
		w.State(w.desc)
		names, fl, fail := like.expand(strs(filepath.Join(dir, in)), excl)
		if fail {
			_, err := r.cliFail(w, cliJob{tool: "xgotext", args: args, files: likeFiles})
			return err
		}
		o := c25Opt{}
		_, err := r.c25Run(w, cliJob{args: args, files: likeFiles}, "", c19Image(o.extracted(names, fl), o.c19(true)))
		return err
	})
	odd := &c16World{root: "/src"}
	oddNames := []string{" a.go", "a b.go", "#a.go", "%d.go", "\"q\".go", "'q'.go", "é.go", "a\tb.go", "a\\b.go", "~a.go", "$a.go", "*.go", "[a].go", "a,b.go", "a:3.go", "a\r.go", "@a.go", "!.go", ".go", "..go", "d /x.go", " d/x.go", "#/x.go", "- d/x.go"}
	oddPaths := append([]string{"d ", " d", "#", "."}, oddNames...)
	for k, p := range oddNames {
		id := "m" + strconv.Itoa(k)
		odd.files = append(odd.files, c16File{path: p, text: c16Head + "var x = gotext.Get(\"" + id + "\")\n", msgs: ents{c16msg(id, "", "", 5)}})
	}
	oddFiles := c25Tree(odd.files, nil)
	r.Space("odd-names", "files and directories whose names have blanks at either end, number signs, quotes, patterns or other unusual characters, all pairs of them, as arguments, in a list file, below a directory or excluded", prod(len(oddPaths), len(oddPaths), 4), func(w *W, i int64) error {
		d := Dec{i}
		p, q, how := oddPaths[d.N(len(oddPaths))], oddPaths[d.N(len(oddPaths))], d.N(4)
		args, fs, in := strs("--no-location"), oddFiles, strs(p, q)
		var excl []string
		switch how {
		case 0:
			args = append(args, "--", p, q)
		case 1:
			args = append(args, "-f", "lists/l")
			fs = fs.with("lists/l", p+"\n"+q+"\n")
		case 2:
			args = append(args, "-D", "./.")
			in = strs(p)
			if q != "." {
				args = append(args, "-X", q)
				excl = strs(q)
				if strings.ContainsAny(q, "\",\r") { // lists of values are comma-separated with quotes
					return nil
				}
			}
			args = append(args, "--", p)
		case 3:
			args = append(args, "-f", "lists/l", "--", p)
			fs = fs.with("lists/l", q)
		}
		w.Desc("xgotext %q", args)
		w.State(w.desc)
		names, fl, fail := odd.expand(in, excl)
		if fail {
			return failf("world", "the model fails")
		}
		o := c25Opt{noLoc: true}
		_, err := r.c25Run(w, cliJob{args: args, files: fs}, "", c19Image(o.extracted(names, fl), o.c19(true)))
		return err
	})
	c25Mix(r, t, files)
	c25Join(r, t, files)
}

func c25Join(r *Run, t *c16World, files tree) {
	// Pieces of the existing file.
	head := "# Title\n# A person.\nmsgid \"\"\nmsgstr \"\"\n\"Project-Id-Version: mine\\n\"\n\"Language: es\\n\"\n\"X-Own: kept\\n\"\n\n"
	pieces := []string{
		"# my comment\n#: old.go:1\n#, go-format\nmsgid \"A\"\nmsgstr \"tr A\"\n",
		"# shared by\nmsgctxt \"ctx\"\nmsgid \"shared\"\nmsgstr \"tr ctx\"\n",
		"# plural\nmsgid \"C\"\nmsgid_plural \"Cs\"\nmsgstr[0] \"uno\"\nmsgstr[1] \"dos\"\n",
		"# removed from the code\nmsgid \"qqq www\"\nmsgstr \"tr gone\"\n",
		"# was obsolete\n#~ msgid \"xyz zzz\"\n#~ msgstr \"tr obsolete\"\n",
		"#~ msgid \"shared\"\n#~ msgstr \"comes back\"\n",
		"#, fuzzy\nmsgid \"D\"\nmsgstr \"guess D\"\n",
		"# nearly A message\nmsgid \"E\"\nmsgstr \"near E\\n\"\n",
		"msgid \"F\"\nmsgstr \"\"\n",
	}
	sources := [][]string{{"a.go", "b.go", "sub"}, {"a.go"}, {"empty.go"}, {"sub2", "sub/deep"}}
	type variant struct {
		o    c25Opt
		args []string
	}
	variants := []variant{{}, {o: c25Opt{prefix: "<", suffix: ">"}}, {o: c25Opt{noLoc: true}}, {o: c25Opt{loc: "file", all: true}}, {o: c25Opt{wrap: true, title: "T", pkg: "p", lang: "xx", foreign: true}}}
	joined := func(pieces []string) func(w *W, i int64) error {
		return func(w *W, i int64) error {
			d := Dec{i}
			withHead := d.B()
			src := sources[d.N(len(sources))]
			v := variants[d.N(len(variants))]
			if !r.Thorough && v.args == nil && (d.i+i)%2 == 1 && len(src) != 3 {
				return nil
			}
			text := ""
			if withHead {
				text = head
			}
			for k, p := range pieces {
				if d.i>>k&1 != 0 {
					text += p + "\n"
				}
			}
			existing, err := readPo(text)
			if err != nil {
				return err
			}
			o := v.o
			names, fl, _ := t.expand(src, nil)
			fresh := o.extracted(names, fl)
			merged := po.Merge(clone(existing), clone(fresh))
			known := map[[2]string]bool{}
			for _, e := range existing {
				known[uid(e)] = true
			}
			for k, e := range merged {
				if known[uid(e)] || isHeader(e) || trOf(e) != "" || len(e.Plurals) > 0 { // the forms of a guess stay, even empty ones
					continue
				}
				if e.Plural != "" {
					merged[k].Plurals = pes{{ID: 0, Str: o.prefix + o.suffix}, {ID: 1, Str: o.prefix + o.suffix}}
				} else {
					merged[k].Str = o.prefix + o.suffix
				}
			}
			c := o.c19(false)
			c.prefix, c.suffix = "", ""
			want := c19Image(merged, c)
			args := append(append(o.args(), "-j", "-o", "po/es.po"), src...)
			w.Desc("xgotext %q joined with\n%s", args, text)
			w.State(w.desc)
			out, err := r.c25Run(w, cliJob{args: args, files: files.with("po/es.po", text)}, "po/es.po", want)
			if err != nil {
				return err
			}
			if err := c25Kept(existing, out, fresh); err != nil {
				return err
			}
			if !r.Thorough && d.i%2 == 1 {
				return nil
			}
			// once more: nothing changes
			again, err := readPo(out)
			if err != nil {
				return err
			}
			m2 := po.Merge(clone(again), clone(fresh))
			_, err = r.c25Run(w, cliJob{args: args, files: files.with("po/es.po", out)}, "po/es.po", c19Image(m2, c))
			return err
		}
	}
	r.Space("join", "all subsets of messages of an existing file, joined with several sets of sources under several options, twice", prod(2, len(sources), len(variants))<<len(pieces), joined(pieces))
	near := []string{
		"msgid \"Cc\"\nmsgid_plural \"Ccs\"\nmsgstr[0] \"near one\"\nmsgstr[1] \"near two\"\n",
		"msgid \"Dd\"\nmsgstr \"near D\"\n",
		"msgctxt \"ctx\"\nmsgid \"Ax\"\nmsgid_plural \"Asx\"\nmsgstr[0] \"near A\"\nmsgstr[1] \"near As\"\n",
		"msgctxt \"ctx\"\nmsgid \"shard\"\nmsgstr \"near shared\"\n",
		"msgid \"A\"\nmsgstr \"tr A\"\n",
	}
	r.Space("join-near", "all subsets of messages (singular, plural, with context) close to messages of the sources, joined under the same options, twice", prod(2, len(sources), len(variants))<<len(near), joined(near))
}

// c25Kept checks that nothing of the existing catalog got lost.
func c25Kept(existing ents, out string, fresh ents) error {
	got, err := readPo(out)
	if err != nil {
		return err
	}
	at := map[[2]string]ent{}
	var trs, comments []string
	for _, e := range got {
		at[uid(e)] = e
		trs = append(trs, trOf(e))
		comments = append(comments, e.Comments...)
	}
	live := map[[2]string]bool{}
	for _, e := range fresh {
		live[uid(e)] = !isHeader(e)
	}
	sort.Strings(trs)
	for _, e := range existing {
		if isHeader(e) {
			if dumpE(at[uid(e)]) != dumpE(e) {
				return failf("header", "the existing header is changed to %s", dumpE(at[uid(e)]))
			}
			continue
		}
		g, ok := at[uid(e)]
		if live[uid(e)] {
			if !ok || g.Obsolete || trOf(g) != trOf(e) || !hasAll(g.Comments, e.Comments) {
				return failf("lost", "%s became %s", dumpE(e), dumpE(g))
			}
			continue
		}
		if trOf(e) != "" && !hasAll(trs, strs(trOf(e))) {
			return failf("lost", "the translation of %s is in no entry of the result:\n%s", dumpE(e), out)
		}
		if ok && !g.Obsolete {
			return failf("live", "%s is not in the sources, but live", dumpE(g))
		}
		if trOf(e) != "" && !hasAll(comments, e.Comments) {
			return failf("lost", "the comments of %s are in no entry of the result:\n%s", dumpE(e), out)
		}
	}
	for u, l := range live {
		if _, ok := at[u]; l && !ok {
			return failf("missing", "extracted %q is not in the result", u)
		}
	}
	return nil
}

// c25Mix combines every three of the options, whatever they are about.
func c25Mix(r *Run, t *c16World, files tree) {
	type mix struct {
		o            c25Opt
		args         []string
		paths, excl  []string
		list, in     string
		dir, target  string
		useList, std bool
		files        tree
		gone         map[[2]string]bool
	}
	std := c16Tree[1] // b.go
	feats := []struct {
		name string
		f    func(m *mix)
	}{
		{"all", func(m *mix) { m.o.all = true }},
		{"omit", func(m *mix) { m.o.omit = true }},
		{"foreign", func(m *mix) { m.o.foreign = true }},
		{"empty holder", func(m *mix) { m.o.noHold = true }},
		{"no location", func(m *mix) { m.o.noLoc = true }},
		{"wrap", func(m *mix) { m.o.wrap = true }},
		{"force", func(m *mix) { m.o.force = true }},
		{"file location", func(m *mix) { m.o.loc = "file" }},
		{"never location", func(m *mix) { m.o.loc = "never" }},
		{"empty location", func(m *mix) {
			if m.o.loc == "" {
				m.args = append(m.args, "--add-location=")
			}
		}},
		{"prefix", func(m *mix) { m.o.prefix = "<" }},
		{"suffix", func(m *mix) { m.o.suffix = "\n" }},
		{"title", func(m *mix) { m.o.title = "T" }},
		{"package", func(m *mix) { m.o.pkg = "P" }},
		{"version", func(m *mix) { m.o.version = "P 2" }},
		{"bugs", func(m *mix) { m.o.bugs = "b@x" }},
		{"language", func(m *mix) { m.o.lang = "fr" }},
		{"holder", func(m *mix) { m.o.hold = "Me" }},
		{"two forms", func(m *mix) { m.args = append(m.args, "--nplurals", "2") }},
		{"verbose", func(m *mix) { m.args = append(m.args, "--verbose") }},
		{"colour never", func(m *mix) { m.args = append(m.args, "--color=never") }},
		{"directory", func(m *mix) { m.dir = "sub" }},
		{"list file", func(m *mix) { m.useList = true }},
		{"standard input", func(m *mix) { m.std = true }},
		{"exclude a file", func(m *mix) { m.excl = append(m.excl, "c.go") }},
		{"exclude a directory", func(m *mix) { m.excl = append(m.excl, "deep") }},
		{"exclude messages", func(m *mix) {
			m.args = append(m.args, "-x", "lists/ex.pot")
			m.files["lists/ex.pot"] = "msgid \"A\"\nmsgstr \"\"\n\nmsgctxt \"ctx\"\nmsgid \"shared\"\nmsgstr \"q\"\n"
			m.gone = map[[2]string]bool{uid(ent{ID: "A"}): true, uid(ent{ID: "shared", Context: "ctx"}): true}
		}},
		{"output", func(m *mix) { m.args, m.target = append(m.args, "-o", "x.pot"), "x.pot" }},
		{"join a new file", func(m *mix) { m.args = append(m.args, "-j") }},
		{"domain", func(m *mix) { m.args = append(m.args, "-d", "dom") }},
	}
	n := len(feats)
	k := 3
	if r.Thorough {
		k = 4
	}
	r.Space("mixed options", "every subset of three (thorough: four) of 30 options about input, exclusion, extraction, header, layout and output", prod(n, n, n)*pow(n, k-3), func(w *W, i int64) error {
		d := Dec{i}
		m := mix{files: files.with("lists/", "")}
		last := -1
		for j := 0; j < k; j++ {
			f := d.N(n)
			if f <= last && !(f == last && f == n-1) {
				return nil
			}
			if f != last {
				feats[f].f(&m)
				w.desc += feats[f].name + ", "
			}
			last = f
		}
		if m.target == "" {
			for j, a := range m.args {
				if a == "-j" {
					m.args, m.target = append(append(m.args[:j:j], "-j", "-o", "y.pot"), m.args[j+1:]...), "y.pot"
				}
			}
		}
		args := append(m.o.args(), m.args...)
		base := strs("c.go", "dir.go", "../a.go", "deep")
		if m.dir == "" {
			base = strs("sub/c.go", "sub/dir.go", "a.go", "sub/deep", "lit.go")
		} else {
			args = append(args, "-D", "sub")
		}
		for _, p := range base {
			m.paths = append(m.paths, filepath.Join(m.dir, p))
		}
		var ex []string
		for _, x := range m.excl {
			if m.dir == "" {
				x = "sub/" + x
			}
			args = append(args, "-X", x)
			ex = append(ex, filepath.Join(m.dir, x))
		}
		in := ""
		if m.std {
			base = append(base, "-")
			in = std.text
		}
		if m.useList {
			m.files["lists/l"] = strings.Join(base[1:], "\n") + "\n"
			args = append(args, "-f", "lists/l", base[0])
		} else {
			args = append(args, base...)
		}
		w.Desc("xgotext %q", args)
		w.State(w.desc)
		names, fl, fail := t.expand(m.paths, ex)
		if fail {
			return failf("env", "%q not expanded", m.paths)
		}
		if m.std {
			names, fl = append(names, "/dev/stdin"), append(fl, std)
		}
		var want ents
		for _, e := range m.o.extracted(names, fl) {
			if !m.gone[uid(e)] {
				want = append(want, e)
			}
		}
		_, err := r.c25Run(w, cliJob{args: args, files: m.files, stdin: in}, m.target, c19Image(want, m.o.c19(true)))
		return err
	})
}
