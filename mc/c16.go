// C16: extraction over a set of paths processes each wanted file exactly once.
package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func init() {
	props["C16"] = propDef{
		level: "model_checking",
		notes: []string{
			"a file is identified by its absolute path; symbolic links are not covered",
			"the order below a directory is lexical, depth first",
			"oracle: a table of the files and their messages, kept next to the texts the files are written from",
		},
		run: runC16,
	}
}

// c16File is a file of the tree: text and messages.
type c16File struct {
	path string
	text string
	msgs ents // with lines, file left empty
	bad  bool // does not parse
	all  ents // further messages under extract-all
}

func c16msg(id, ctx, plural string, line int) ent {
	return ent{ID: id, Context: ctx, Plural: plural, Locations: locs{{Line: line}}}
}

const c16Head = "package x\n\nimport \"github.com/leonelquinteros/gotext\"\n\n"

var c16Tree = []c16File{
	{path: "a.go", text: c16Head + "var a = gotext.Get(\"A\")\nvar s = gotext.Get(\"shared\")\n", msgs: ents{c16msg("A", "", "", 5), c16msg("shared", "", "", 6)}},
	{path: "b.go", text: c16Head + "\nvar s = gotext.GetC(\"shared\", \"ctx\")\nvar t = gotext.Get(\"shared\")\nvar u = gotext.Get(\"shared\")\n", msgs: ents{c16msg("shared", "ctx", "", 6), c16msg("shared", "", "", 7), c16msg("shared", "", "", 8)}},
	{path: "empty.go", text: "package x\n"},
	{path: "lit.go", text: "package x\n\nvar l = \"literal\"\nvar m = \"A\"\n", all: ents{c16msg("literal", "", "", 3), c16msg("A", "", "", 4)}},
	{path: "notgo.txt", text: "junk(", bad: true},
	{path: "noext", text: "junk(", bad: true},
	{path: "go", text: "junk(", bad: true},
	{path: "x.go.bak", text: "junk(", bad: true},
	{path: "sub/c.go", text: c16Head + "var c = gotext.GetN(\"C\", \"Cs\", 2)\nvar d = gotext.Get(\"shared\")\n", msgs: ents{c16msg("C", "", "Cs", 5), c16msg("shared", "", "", 6)}},
	{path: "sub/d.go", text: c16Head + "var d = gotext.GetD(\"dom\", \"D\")\n", msgs: ents{c16msg("D", "", "", 5)}, all: ents{c16msg("dom", "", "", 5)}},
	{path: "sub/deep/e.go", text: c16Head + "var e = gotext.Get(`E\n`)\nvar f = gotext.Get(\"A\")\n", msgs: ents{c16msg("E\n", "", "", 5), c16msg("A", "", "", 7)}},
	{path: "sub/deep/readme.md", text: "# x", bad: true},
	{path: "sub/dir.go/f.go", text: c16Head + "var f = gotext.Get(\"F\")\n", msgs: ents{c16msg("F", "", "", 5)}},
	{path: "sub2/c.go", text: c16Head + "var c = gotext.Get(\"C2\")\nvar s = gotext.GetC(\"shared\", \"ctx\")\nvar n = gotext.GetNC(\"A\", \"As\", 1, \"ctx\")\n", msgs: ents{c16msg("C2", "", "", 5), c16msg("shared", "ctx", "", 6), c16msg("A", "ctx", "As", 7)}},
	{path: "sub/.hidden/h.go", text: c16Head + "var h = gotext.Get(\"H\")\n", msgs: ents{c16msg("H", "", "", 5)}},
	{path: "sub/_u_windows.go", text: "//go:build ignore\n\n" + c16Head + "var u = gotext.Get(\"U\")\n", msgs: ents{c16msg("U", "", "", 7)}},
	{path: "sub/vendor/.go", text: c16Head + "var v = gotext.Get(\"V\")\n", msgs: ents{c16msg("V", "", "", 5)}},
	{path: "sub2/testdata/Q.GO", text: "junk(", bad: true},
	{path: "sub2/testdata/t.go", text: c16Head + "var t = gotext.Get(\"T\")\n", msgs: ents{c16msg("T", "", "", 5)}},
	{path: "z_test.go", text: c16Head + "func f() {\n\tgotext.Get(\"Z\")\n}\n", msgs: ents{c16msg("Z", "", "", 6)}},
}

// c16Bad is a second tree whose files do not all parse.
var c16Bad = []c16File{
	{path: "bad/bad.go", text: "package x\nfunc {\n", bad: true},
	{path: "bad/good.go", text: c16Head + "var g = gotext.Get(\"G\")\n", msgs: ents{c16msg("G", "", "", 5)}},
	{path: "bad/nested/void.go", text: "", bad: true},
}

type c16World struct {
	root  string
	files []c16File
}

func (t *c16World) abs(p string) string {
	if strings.HasPrefix(p, "/") {
		return filepath.Clean(p)
	}
	return filepath.Clean(t.root + "/" + p)
}

// expand is the reference of the file selection: (path as reported, file), in order.
func (t *c16World) expand(paths, exclude []string) (names []string, files []c16File, fail bool) {
	seen := map[string]bool{}
	for _, p := range paths {
		a := t.abs(p)
		if p == "" {
			return nil, nil, true
		}
		found := false
		type hit struct {
			rel []string
			f   c16File
		}
		var hits []hit
		for _, f := range t.files {
			fa := t.root + "/" + f.path
			if fa == a {
				if strings.HasSuffix(p, "/") || strings.HasSuffix(p, "/.") {
					return nil, nil, true // a file is no directory
				}
				found = true
				hits = append(hits, hit{nil, f})
			} else if strings.HasPrefix(fa, a+"/") {
				found = true
				hits = append(hits, hit{strings.Split(fa[len(a)+1:], "/"), f})
			}
		}
		if !found {
			return nil, nil, true
		}
		sort.SliceStable(hits, func(i, j int) bool {
			x, y := hits[i].rel, hits[j].rel
			for k := 0; k < len(x) && k < len(y); k++ {
				if x[k] != y[k] {
					return x[k] < y[k]
				}
			}
			return len(x) < len(y)
		})
	next:
		for _, h := range hits {
			fa := t.root + "/" + h.f.path
			if !strings.HasSuffix(fa, ".go") || seen[fa] {
				continue
			}
			seen[fa] = true
			for _, x := range exclude {
				xa := t.abs(x)
				if fa == xa || strings.HasPrefix(fa, xa+"/") {
					continue next
				}
			}
			if h.f.bad {
				return nil, nil, true
			}
			name := p
			if h.rel != nil {
				name = filepath.Join(append([]string{p}, h.rel...)...)
			}
			names = append(names, name)
			files = append(files, h.f)
		}
	}
	return
}

type c16Opts struct {
	noHeader, dups, all bool
	header              int // 0 default, 1 configuration, 2 custom, 3 both
}

func (o c16Opts) options(ex []string) []goparse.Option {
	opts := []goparse.Option{goparse.WithNoHeader(o.noHeader), goparse.WithCleanDuplicates(!o.dups), goparse.WithExtractAll(o.all), goparse.WithExclude(ex...)}
	if o.header&1 != 0 {
		opts = append(opts, goparse.WithHeaderConfig(&po.HeaderConfig{Language: "xx", ProjectIDVersion: "p: 1"}))
	}
	if o.header&2 != 0 {
		opts = append(opts, goparse.WithCustomHeader(&po.Header{Fields: []po.HeaderField{{Key: "Custom", Value: "yes"}}}))
	}
	return opts
}

// want is the reference catalog.
func (o c16Opts) want(names []string, files []c16File) (es ents) {
	if !o.noHeader {
		var text string
		var flags []string
		switch {
		case o.header&2 != 0:
			text = "\nCustom: yes\n"
		case o.header == 1:
			text = "\nProject-Id-Version: p: 1\n\nLanguage: xx\n\nX-Generator: xgotext\n"
		default:
			for _, f := range [][2]string{{"Project-Id-Version", "PACKAGE VERSION"}, {"Report-Msgid-Bugs-To", ""}, {"PO-Revision-Date", "YEAR-MO-DA HO:MI+ZONE"}, {"Last-Translator", "FULL NAME <EMAIL@ADDRESS>"}, {"Language-Team", "LANGUAGE <LL@li.org>"}, {"Language", ""}, {"MIME-Version", "1.0"}, {"Content-Type", "text/plain; charset=CHARSET"}, {"Content-Transfer-Encoding", "8bit"}, {"X-Generator", "xgotext"}} {
				text += "\n" + f[0] + ": " + f[1] + "\n"
			}
			flags = strs("fuzzy")
		}
		es = append(es, ent{Str: text, Flags: flags})
	}
	for i, f := range files {
		msgs := f.msgs
		if o.all {
			msgs = append(clone(msgs), f.all...)
			sort.SliceStable(msgs, func(a, b int) bool { return msgs[a].Locations[0].Line < msgs[b].Locations[0].Line })
		}
		for _, m := range msgs {
			m = cloneE(m)
			m.Locations[0].File = names[i]
			if !o.dups {
				k := -1
				for j, e := range es {
					if uid(e) == uid(m) {
						k = j
					}
				}
				if k >= 0 {
					es[k].Locations = append(es[k].Locations, m.Locations...)
					continue
				}
			}
			es = append(es, m)
		}
	}
	return
}

func normHeader(es ents) ents {
	// the layout of the header text is free (C14); its fields are compared
	es = clone(es)
	if len(es) > 0 && isHeader(es[0]) {
		es[0].Str = dumpFields(refHeader(es[0].Str))
	}
	return es
}

func (t *c16World) check(w *W, paths, ex []string, o c16Opts) error {
	names, files, fail := t.expand(paths, ex)
	p, err := goparse.NewParserFromPaths(paths, o.options(ex)...)
	w.Trans(1)
	w.Trace()
	if fail {
		if err == nil {
			return failf("no-error", "paths %q, excluding %q: no error is reported", paths, ex)
		}
		if f, err := goparse.FromPaths(paths, o.options(ex)...); err == nil || f != nil {
			return failf("no-error", "paths %q, excluding %q: FromPaths returns %v, %v", paths, ex, f, err)
		}
		w.Outcome("error")
		return nil
	}
	if err != nil {
		return failf("error", "paths %q, excluding %q: %v", paths, ex, err)
	}
	want := normHeader(o.want(names, files))
	for round := 1; round <= 2; round++ {
		f := p.Parse()
		if errs := p.Errors(); len(errs) > 0 || p.Error() != nil {
			return failf("error", "paths %q: Parse reports %v", paths, errs)
		}
		if err := sameEntries("entries", fmt.Sprintf("paths %q, excluding %q, options %+v, round %d", paths, ex, o, round), normHeader(f.Entries), want); err != nil {
			return err
		}
	}
	if len(p.Files()) != len(files) {
		return failf("files", "%d files are kept, expected %q", len(p.Files()), names)
	}
	w.Outcome(fmt.Sprint(names))
	return nil
}

func runC16(r *Run) {
	root := filepath.Join(r.Scratch, "tree")
	t := &c16World{root: root, files: append(append([]c16File{}, c16Tree...), c16Bad...)}
	for _, f := range t.files {
		p := filepath.Join(root, f.path)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(f.text), 0o644)
	}
	os.MkdirAll(filepath.Join(root, "emptydir"), 0o755)
	if err := os.Chdir(root); err != nil {
		panic(err)
	}
	defer os.Chdir("/")
	// the empty directory is known to the reference through a file that is no Go file
	t.files = append(t.files, c16File{path: "emptydir/.keep", bad: true})
	os.WriteFile(filepath.Join(root, "emptydir/.keep"), nil, 0o644)

	good := []string{
		"a.go", "./a.go", "sub/../a.go", root + "/a.go", "b.go", "empty.go", "lit.go", "sub", "sub/", "./sub", root + "/sub", "sub/c.go", "sub//c.go", "./sub/deep", "sub/dir.go",
		"sub/deep/..", "sub2", "z_test.go", "notgo.txt", "noext", "go", "x.go.bak", "emptydir",
	}
	failing := []string{"missing.go", "nodir/", "bad", "bad/bad.go", ".", "", "a.go/x", "a.go/", "bad/nested", root}
	all := append(append([]string{}, good...), failing...)
	n := 2
	if r.Thorough {
		n = 3
	}
	r.Space("paths", "all lists of up to the bound over a menu of path spellings (files, directories, repeats, not Go, missing, not parsing)", seqCount(len(all), n), func(w *W, i int64) error {
		var paths []string
		for _, j := range seqAt(len(all), i) {
			paths = append(paths, all[j])
		}
		w.Desc("%q", paths)
		w.State(w.desc)
		for _, o := range []c16Opts{{}, {dups: true, noHeader: true}} {
			if err := t.check(w, paths, nil, o); err != nil {
				return err
			}
		}
		return nil
	})
	core := []string{"a.go", "./a.go", "b.go", "sub", "sub/deep", "sub/c.go", root + "/sub2", "lit.go", "z_test.go", "bad", "missing.go"}
	n = 4
	if r.Thorough {
		n = 5
	}
	r.Space("path-orders", "all lists of up to the bound over a smaller menu", seqCount(len(core), n), func(w *W, i int64) error {
		var paths []string
		for _, j := range seqAt(len(core), i) {
			paths = append(paths, core[j])
		}
		w.Desc("%q", paths)
		w.State(w.desc)
		return t.check(w, paths, nil, c16Opts{all: i%2 == 1})
	})

	excl := []string{"a.go", "./sub/c.go", root + "/sub2/c.go", "sub/deep", "sub/dir.go/", "bad/bad.go", "bad/nested", "missing", "su", "b.g", "a.go/x"}
	sets := [][]string{{"."}, {"sub", "a.go"}, {"bad"}, {"sub/c.go", "sub"}, {root}, {"a.go", "a.go", "b.go"}, {"sub2", "sub2/c.go", "sub/deep/e.go"}}
	r.Space("excludes", "all subsets of a menu of eleven excluded paths over several path lists", int64(len(sets))<<len(excl), func(w *W, i int64) error {
		d := Dec{i}
		paths := sets[d.N(len(sets))]
		var ex []string
		for k, e := range excl {
			if d.i>>k&1 != 0 {
				ex = append(ex, e)
			}
		}
		w.Desc("%q excluding %q", paths, ex)
		w.State(w.desc)
		return t.check(w, paths, ex, c16Opts{})
	})
	// Names that differ only in case, or begin like another.
	like := &c16World{root: filepath.Join(r.Scratch, "like")}
	for _, p := range []string{"a.go", "A.go", "aa.go", "a.go.go", "d/a.go", "D/a.go", "d/A.go", "da/a.go", "d/d/a.go", "d.go", "d/d.go", "..a.go", "..d/a.go", "d/..x/a.go", "*.go", "[a].go", "-a.go", "d/*/a.go"} {
		like.files = append(like.files, c16File{path: p, text: c16Head + "var x = gotext.Get(\"" + p + "\")\n", msgs: ents{c16msg(p, "", "", 5)}})
		q := filepath.Join(like.root, p)
		os.MkdirAll(filepath.Dir(q), 0o755)
		os.WriteFile(q, []byte(like.files[len(like.files)-1].text), 0o644)
	}
	alike := []string{".", "a.go", "A.go", "aa.go", "a.go.go", "d", "D", "da", "d/d", "d/a.go", "d/A.go", "D/a.go", "d.go", "d/d.go", "d/../a.go", "D/../d/A.go", "..a.go", "..d", "d/..x", "*.go", "[a].go", "-a.go", "d/*"}
	r.Space("alike", "all lists of up to three paths whose names differ only in case, begin like another or hold characters with other meanings (two dots, stars, brackets), without and with one such path excluded", seqCount(len(alike), 3)*prod(len(alike)+1), func(w *W, i int64) error {
		d := Dec{i}
		var ex, paths []string
		if k := d.N(len(alike) + 1); k > 0 {
			ex = strs(filepath.Join(like.root, alike[k-1]))
		}
		for _, j := range seqAt(len(alike), d.i) {
			paths = append(paths, filepath.Join(like.root, alike[j]))
		}
		w.Desc("%q excluding %q", paths, ex)
		w.State(w.desc)
		return like.check(w, paths, ex, c16Opts{})
	})

	whole := []string{".", "sub", "sub/", root, "./sub2", "sub/..", "*", "sub/*", "a.go", "", "../tree"}
	r.Space("excludes-dirs", "all pairs of excludes that name whole directories or nothing", prod(len(whole), len(whole), len(sets)), func(w *W, i int64) error {
		d := Dec{i}
		ex := []string{whole[d.N(len(whole))], whole[d.N(len(whole))]}
		paths := sets[d.N(len(sets))]
		w.Desc("%q excluding %q", paths, ex)
		w.State(w.desc)
		// the empty string names the working directory for filepath.Abs; not settled
		if ex[0] == "" || ex[1] == "" {
			return nil
		}
		return t.check(w, paths, ex, c16Opts{noHeader: true})
	})

	lists := [][]string{{"sub", "a.go", "b.go"}, {"a.go"}, {"empty.go"}, {}, {"lit.go", "sub/d.go", "a.go"}, {"notgo.txt"}}
	r.Space("options", "all combinations of header, duplicate and extract-all options over several path lists, through every entry point", prod(2, 2, 2, 4, len(lists), 3), func(w *W, i int64) error {
		d := Dec{i}
		o := c16Opts{noHeader: d.B(), dups: d.B(), all: d.B(), header: d.N(4)}
		paths := lists[d.N(len(lists))]
		opts := o.options(nil)
		switch d.N(3) {
		case 1:
			opts = append(opts, goparse.WithLogger(nil), goparse.WithVerbose(true))
		case 2:
			opts = append(opts, goparse.WithLogger(log.New(io.Discard, "", 0)), goparse.WithVerbose(true))
		}
		w.Desc("%q %+v", paths, o)
		w.State(w.desc)
		if err := t.check(w, paths, nil, o); err != nil {
			return err
		}
		names, files, _ := t.expand(paths, nil)
		want := normHeader(o.want(names, files))
		same := func(what string, f *po.File, err error) error {
			w.Trans(1)
			if err != nil || f == nil {
				return failf("entry-point", "%s: %v", what, err)
			}
			return sameEntries("entry-point", what, normHeader(f.Entries), want)
		}
		f, err := goparse.FromPaths(paths, opts...)
		if err := same("FromPaths", f, err); err != nil {
			return err
		}
		var handles []*os.File
		defer func() {
			for _, h := range handles {
				h.Close()
			}
		}()
		for _, n := range names {
			h, err := os.Open(n)
			if err != nil {
				return err
			}
			handles = append(handles, h)
		}
		f, err = goparse.FromFiles(handles, opts...)
		if err := same("FromFiles", f, err); err != nil {
			return err
		}
		if len(names) != 1 {
			return nil
		}
		text := files[0].text
		f, err = goparse.FromPath(names[0], opts...)
		if err := same("FromPath", f, err); err != nil {
			return err
		}
		f, err = goparse.FromString(text, names[0], opts...)
		if err := same("FromString", f, err); err != nil {
			return err
		}
		f, err = goparse.FromBytes([]byte(text), names[0], opts...)
		if err := same("FromBytes", f, err); err != nil {
			return err
		}
		f, err = goparse.FromReader(strings.NewReader(text), names[0], opts...)
		if err := same("FromReader", f, err); err != nil {
			return err
		}
		h, err := os.Open(names[0])
		if err != nil {
			return err
		}
		handles = append(handles, h)
		f, err = goparse.FromFile(h, opts...)
		return same("FromFile", f, err)
	})

	// Histories of one parser: Parse and ParseWithOptions in any order.
	type step struct {
		name string
		o    func(c16Opts) c16Opts
		opts []goparse.Option
	}
	steps := []step{
		{"Parse", func(o c16Opts) c16Opts { return o }, nil},
		{"no header", func(o c16Opts) c16Opts { o.noHeader = true; return o }, []goparse.Option{goparse.WithNoHeader(true)}},
		{"duplicates", func(o c16Opts) c16Opts { o.dups = true; return o }, []goparse.Option{goparse.WithCleanDuplicates(false)}},
		{"extract all", func(o c16Opts) c16Opts { o.all = true; return o }, []goparse.Option{goparse.WithExtractAll(true)}},
		{"not all", func(o c16Opts) c16Opts { o.all = false; return o }, []goparse.Option{goparse.WithExtractAll(false)}},
		{"custom header", func(o c16Opts) c16Opts { o.header |= 2; return o }, []goparse.Option{goparse.WithCustomHeader(&po.Header{Fields: []po.HeaderField{{Key: "Custom", Value: "yes"}}})}},
	}
	depth := 4
	if r.Thorough {
		depth = 5
	}
	r.Space("parser-histories", "all sequences of Parse and ParseWithOptions up to the bound on one parser, each result compared with the reference", prod(4)*seqCount(len(steps), depth), func(w *W, i int64) error {
		d := Dec{i}
		base := c16Opts{dups: d.B(), all: d.B()}
		paths := []string{"lit.go", "sub", "a.go"}
		names, files, _ := t.expand(paths, nil)
		p, err := goparse.NewParserFromPaths(paths, base.options(nil)...)
		if err != nil {
			return failf("error", "%v", err)
		}
		var done []string
		var first *po.File
		var firstDump string
		for _, j := range seqAt(len(steps), d.i) {
			s := steps[j]
			done = append(done, s.name)
			var f *po.File
			if s.opts == nil {
				f = p.Parse()
			} else {
				f = p.ParseWithOptions(s.opts...)
			}
			w.Trans(1)
			if err := sameEntries("history", fmt.Sprintf("after %v on %+v", done, base), normHeader(f.Entries), normHeader(s.o(base).want(names, files))); err != nil {
				w.Desc("%v", done)
				return err
			}
			if first == nil {
				first, firstDump = f, dump(f.Entries)
			}
		}
		w.Desc("%+v %v", base, done)
		w.State(w.desc)
		w.Trace()
		if first != nil && dump(first.Entries) != firstDump {
			return failf("history", "the first result changed after %v", done)
		}
		return nil
	})

	// Open files, which may have the same name.
	openTexts := []c16File{c16Tree[0], c16Tree[1], c16Tree[2], c16Tree[3], c16Bad[0]}
	for k, c := range openTexts {
		os.WriteFile(filepath.Join(r.Scratch, fmt.Sprintf("open%d", k)), []byte(c.text), 0o644)
	}
	openNames := []string{"x.go", "y.go", "x"}
	r.Space("open-files", "all lists of open files up to the bound over contents and names, the same name for different contents included, with every combination of header, duplicate and extract-all options", prod(2, 2, 2)*seqCount(len(openTexts)*len(openNames), 3), func(w *W, i int64) error {
		d := Dec{i}
		o := c16Opts{noHeader: d.B(), dups: d.B(), all: d.B()}
		var names []string
		var files []c16File
		var open []*os.File
		bad := false
		for _, j := range seqAt(len(openTexts)*len(openNames), d.i) {
			c := openTexts[j%len(openTexts)]
			fd, err := syscall.Open(filepath.Join(r.Scratch, fmt.Sprintf("open%d", j%len(openTexts))), syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
			if err != nil {
				return failf("open", "%v", err)
			}
			f := os.NewFile(uintptr(fd), openNames[j/len(openTexts)])
			defer f.Close()
			open, files, names = append(open, f), append(files, c), append(names, f.Name())
			bad = bad || c.bad
		}
		w.Desc("%+v files %q", o, names)
		w.State(fmt.Sprint(i))
		w.Trans(1)
		w.Trace()
		p, err := goparse.NewParserFromFiles(open, o.options(nil)...)
		if bad {
			if err == nil {
				return failf("no-error", "a file that does not parse is accepted")
			}
			return nil
		}
		if err != nil {
			return failf("error", "%v", err)
		}
		want := normHeader(o.want(names, files))
		for round := 1; round <= 2; round++ {
			if err := sameEntries("entries", fmt.Sprintf("open files, round %d", round), normHeader(p.Parse().Entries), want); err != nil {
				return err
			}
		}
		if len(p.Files()) != len(files) {
			return failf("files", "%d files are kept, expected %q", len(p.Files()), names)
		}
		return nil
	})

	// Histories of one file object: Reset with any content, read several times.
	texts := []c16File{c16Tree[0], c16Tree[1], c16Tree[2], c16Tree[3], c16Tree[8], c16Bad[0],
		{path: "alias.go", text: "package x\nimport g \"github.com/leonelquinteros/gotext\"\nvar a = g.Get(\"al\")\nvar b = gotext.Get(\"no\")\n", msgs: ents{c16msg("al", "", "", 3)}, all: ents{c16msg("no", "", "", 4)}},
		{path: "part.go", text: "\n\n" + c16Head + "var a = gotext.Get(\"part\")\n", msgs: ents{c16msg("part", "", "", 7)}},
		{path: "fail.go", bad: true},
	}
	r.Space("file-histories", "all sequences of contents up to the bound put into one file object, read once or twice, with and without extract-all, from several kinds of stream", prod(2, 2)*seqCount(len(texts)*3, 3), func(w *W, i int64) error {
		d := Dec{i}
		all, twice := d.B(), d.B()
		cfg := goparse.DefaultConfig(goparse.WithExtractAll(all))
		var file goparse.File
		seq := seqAt(len(texts)*3, d.i)
		w.Desc("all=%v twice=%v %v", all, twice, seq)
		w.State(w.desc)
		w.Trace()
		for k, j := range seq {
			c := texts[j%len(texts)]
			var rd io.Reader
			b := []byte(c.text)
			switch {
			case c.path == "fail.go":
				rd = &faultReader{data: []byte(c16Head), at: 5}
			case c.path == "part.go" && j/len(texts) > 0:
				br := bytes.NewReader(b)
				br.ReadByte()
				rd = br
				b = b[1:]
			case j/len(texts) == 0:
				rd = bytes.NewReader(b)
			case j/len(texts) == 1:
				rd = strings.NewReader(c.text)
			default:
				rd = bytes.NewBuffer(b)
			}
			err := file.Reset(rd, c.path, &cfg)
			w.Trans(1)
			if (err != nil) != c.bad {
				return failf("reset", "Reset with %s returns %v", c.path, err)
			}
			if c.bad {
				continue
			}
			if file.Error() != nil || len(file.Errors()) > 0 {
				return failf("reset", "errors before reading: %v", file.Errors())
			}
			want := clone(c.msgs)
			if all {
				want = append(want, clone(c.all)...)
				sort.SliceStable(want, func(a, b int) bool { return want[a].Locations[0].Line < want[b].Locations[0].Line })
			}
			for x := range want {
				want[x].Locations[0].File = c.path
				if c.path == "part.go" && len(b) < len(c.text) {
					want[x].Locations[0].Line--
				}
			}
			for round := 0; round < 2; round++ {
				if err := sameEntries("reset", fmt.Sprintf("content %d (%s) of one file object", k, c.path), file.Entries(), want); err != nil {
					return err
				}
				if file.Error() != nil || len(file.Errors()) > 0 {
					return failf("reset", "errors %v", file.Errors())
				}
				if !twice {
					break
				}
			}
		}
		return nil
	})
	c16Large(r, filepath.Join(r.Scratch, "large"))
}
