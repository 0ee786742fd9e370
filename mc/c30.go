// C30: logging, verbosity and ignoring errors never change what an operation that succeeds gives.
package main

import (
	"bytes"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C30"] = propDef{
		level: "model_checking",
		notes: []string{
			"oracle: the same call without logger, verbosity and ignored errors; a log of an operation that succeeds without verbosity is empty, and the log of one that fails has its error",
			"extraction logs the calls it skips and the files it was given twice; only its result is compared",
		},
		run: runC30,
	}
}

// c30Modes: logger, verbose, ignore errors.
var c30Modes = [][3]bool{{true, false, false}, {false, true, false}, {true, true, false}, {false, false, true}, {true, false, true}, {true, true, true}}

// c30Writer compares a write under every mode, to a writer that takes only n bytes (-1: all).
func c30Writer(w *W, n int, write func(o *badWriter, l *log.Logger, verbose, ignore bool) error) error {
	if n < 0 {
		n = 1 << 40
	}
	base := &badWriter{n: n}
	want := write(base, nil, false, false)
	w.Trans(1)
	for _, m := range c30Modes {
		var lb bytes.Buffer
		var l *log.Logger
		if m[0] {
			l = log.New(&lb, "", 0)
		}
		o := &badWriter{n: n}
		err := write(o, l, m[1], m[2])
		w.Trans(1)
		what := fmt.Sprintf("logger %v verbose %v ignore-errors %v", m[0], m[1], m[2])
		if m[2] && want != nil {
			if err != nil {
				return failf("ignored-error", "%s: error %v is reported", what, err)
			}
			continue
		}
		if o.b.String() != base.b.String() {
			return failf("output", "%s: output differs: %s", what, firstDiff(o.b.String(), base.b.String()))
		}
		if fmt.Sprint(err) != fmt.Sprint(want) {
			return failf("error", "%s: error is %v, without it is %v", what, err, want)
		}
		if err := c30Log(what, lb.String(), want, m[0], m[1]); err != nil {
			return err
		}
	}
	w.Trace()
	return nil
}

func c30Log(what, text string, err error, logger, verbose bool) error {
	switch {
	case !logger:
	case err != nil && !strings.Contains(text, err.Error()):
		return failf("log", "%s: the log lacks the error %v:\n%s", what, err, text)
	case err == nil && !verbose && text != "":
		return failf("log", "%s: the log is not empty:\n%s", what, text)
	case err == nil && strings.Contains(text, "ERROR"):
		return failf("log", "%s: the log has an error but none is reported:\n%s", what, text)
	}
	return nil
}

func fileText(f *po.File) string {
	if f == nil {
		return "none"
	}
	return dump(f.Entries)
}

func runC30(r *Run) {
	pool := append(c19Pool(), c08Defs()...)
	pool = append(pool, oddEntries()...)
	sets := c19Singles(r.Thorough)
	cuts := []int{-1, 0, 1, 40, 4096}
	r.Space("write-po", "all catalogs of up to two entries under every setting of one option (thorough: two), to writers that take all, none or some", seqCount(len(pool), 2)*prod(len(sets)+2, len(cuts)), func(w *W, i int64) error {
		d := &Dec{i}
		n, k := cuts[d.N(len(cuts))], d.N(len(sets)+2)
		o := sets[k%len(sets)]
		var high compile.CSSClassesHighlighting
		if k >= len(sets) {
			high = compile.TestHighlight
		}
		var cat ents
		for _, j := range seqAt(len(pool), d.i) {
			cat = append(cat, cloneE(pool[j]))
		}
		w.Desc("%d bytes, %v highlighted: %v\n%s", n, o, high != nil, dump(cat))
		w.State(fmt.Sprint(o, dump(cat)))
		return c30Writer(w, n, func(out *badWriter, l *log.Logger, v, ig bool) error {
			return compile.PoToWriter(cat, out, append(o.opts(), compile.PoWithHighlight(high), compile.PoWithLogger(l), compile.PoWithVerbose(v), compile.PoWithIgnoreErrors(ig))...)
		})
	})
	mp := append(moPool(), oddEntries()...)
	cfgs := moCfgs()
	r.Space("write-mo", "all catalogs of up to two entries as MO under every configuration, to writers that take all, none or some", seqCount(len(mp), 2)*prod(len(cfgs), len(cuts)), func(w *W, i int64) error {
		d := &Dec{i}
		n, c := cuts[d.N(len(cuts))], cfgs[d.N(len(cfgs))]
		var cat ents
		for _, j := range seqAt(len(mp), d.i) {
			cat = append(cat, cloneE(mp[j]))
		}
		w.Desc("%d bytes, %+v\n%s", n, c, dump(cat))
		w.State(fmt.Sprint(c, dump(cat)))
		return c30Writer(w, n, func(out *badWriter, l *log.Logger, v, ig bool) error {
			return compile.MoToWriter(cat, out, append(c.opts(), compile.MoWithLogger(l), compile.MoWithVerbose(v), compile.MoWithIgnoreErrors(ig))...)
		})
	})
	small := c19Pool()[:5]
	r.Space("files", "all catalogs of up to two entries as PO and MO to a new, an existing, a forced and an impossible file", seqCount(len(small), 2)*8, func(w *W, i int64) error {
		d := &Dec{i}
		mo, kind := d.B(), d.N(4)
		var cat ents
		for _, j := range seqAt(len(small), d.i) {
			cat = append(cat, cloneE(small[j]))
		}
		w.Desc("mo=%v kind %d\n%s", mo, kind, dump(cat))
		w.State(w.desc)
		path := filepath.Join(r.Scratch, fmt.Sprintf("c30-%d", w.ID()))
		return c30Writer(w, -1, func(out *badWriter, l *log.Logger, v, ig bool) (err error) {
			os.RemoveAll(path)
			to := path
			switch kind {
			case 1, 2:
				os.WriteFile(path, []byte(strings.Repeat("old", 2000)), 0o600)
			case 3:
				to = filepath.Join(path, "no", "such")
			}
			if mo {
				err = compile.MoToFile(cat, to, compile.MoWithForce(kind == 2), compile.MoWithLogger(l), compile.MoWithVerbose(v), compile.MoWithIgnoreErrors(ig))
			} else {
				err = compile.PoToFile(cat, to, compile.PoWithForcePo(kind == 2), compile.PoWithLogger(l), compile.PoWithVerbose(v), compile.PoWithIgnoreErrors(ig))
			}
			b, rerr := os.ReadFile(path)
			fmt.Fprintf(out, "%v %s", rerr != nil, b)
			if kind == 1 && string(b) != strings.Repeat("old", 2000) {
				return failf("overwritten", "an existing file was written to")
			}
			return err
		})
	})
	nAll := len(c03Lines)
	ll := 2
	if r.Thorough {
		ll = 3
	}
	r.Space("read-po", "all documents up to the bound of lines, well-formed or not, under every reader option", seqCount(nAll, ll)*32, func(w *W, i int64) error {
		d := &Dec{i}
		opts := []parse.PoOption{parse.PoWithIgnoreComments(d.B()), parse.PoWithIgnoreAllComments(d.B()), parse.PoWithSkipHeader(d.B()), parse.PoWithCleanDuplicates(d.B()), parse.PoWithParseObsolete(d.B())}
		doc := joinLines(seqAt(nAll, d.i), "\n", "\n")
		w.Desc("options %05b\n%q", i%32, doc)
		w.State(w.desc)
		f0, e0 := parse.PoFromString(doc, "x.po", opts...)
		want := readResult(f0, e0)
		for _, m := range c30Modes[:3] {
			var lb bytes.Buffer
			var l *log.Logger
			if m[0] {
				l = log.New(&lb, "", 0)
			}
			f, e := parse.PoFromString(doc, "x.po", append(opts, parse.PoWithLogger(l), parse.PoWithVerbose(m[1]))...)
			w.Trans(1)
			what := fmt.Sprintf("logger %v verbose %v", m[0], m[1])
			if got := readResult(f, e); got != want {
				return failf("read-po", "%s: the result differs: %s", what, firstDiff(got, want))
			}
			if err := c30Log(what, lb.String(), e, m[0], m[1]); err != nil {
				return err
			}
		}
		w.Trace()
		return nil
	})
	several := strs("#: f.go:"+c31Big, "#: f.go:1 g.go:"+c31Big, "#: f.go:"+c31Big+" g.go:"+c31Big, "#: ok.go:1", `msgid "a"`, `msgstr "t"`, `msgid "b"`, `msgctxt "c"`, `#~ msgid "o"`, `#~ junk`, `"x`, "")
	sl := 4
	if r.Thorough {
		sl = 6
	}
	r.Space("several errors", "all documents up to the bound of lines with none, one or several errors: every error reported is logged once, in order, under every mode", seqCount(len(several), sl), func(w *W, i int64) error {
		doc := ""
		for _, k := range seqAt(len(several), i) {
			doc += several[k] + "\n"
		}
		w.Desc("%q", doc)
		w.State(doc)
		base := parse.NewPoFromString(doc, "x.po")
		want := fileText(base.Parse()) + errText(base.Errors())
		for _, m := range c30Modes[:3] {
			var lb bytes.Buffer
			var l *log.Logger
			if m[0] {
				l = log.New(&lb, "", 0)
			}
			p := parse.NewPoFromString(doc, "x.po", parse.PoWithLogger(l), parse.PoWithVerbose(m[1]))
			what := fmt.Sprintf("logger %v verbose %v", m[0], m[1])
			if got := fileText(p.Parse()) + errText(p.Errors()); got != want {
				return failf("read-po", "%s: the result differs: %s", what, firstDiff(got, want))
			}
			w.Trans(1)
			rest := lb.String()
			for _, e := range p.Errors() {
				_, after, ok := strings.Cut(rest, e.Error())
				if m[0] && !ok {
					return failf("log", "%s: the log lacks the error %v:\n%s", what, e, lb.String())
				}
				rest = after
			}
			if len(p.Errors()) > 1 {
				w.Outcome("several errors")
			}
		}
		w.Trace()
		return nil
	})
	samples := c07Samples()
	var pts [][2]int
	for k, b := range samples {
		step := 1
		if len(b) > 1000 {
			step = 97
		}
		for c := 0; c <= len(b); c += step {
			pts = append(pts, [2]int{k, c})
		}
		pts = append(pts, [2]int{k, len(b)})
	}
	r.Space("read-mo", "MO files whole and cut after every byte, under every reader setting", int64(len(pts)*6), func(w *W, i int64) error {
		d := &Dec{i}
		o, sorted := []parse.Endianness{parse.NativeEndian, parse.LittleEndian, parse.BigEndian}[d.N(3)], d.B()
		data := samples[pts[d.i][0]][:pts[d.i][1]]
		w.Desc("order %v sorted %v %q", o, sorted, data)
		w.State(w.desc)
		opts := []parse.MoOption{parse.MoWithEndianness(o), parse.MoWithMustBeSorted(sorted)}
		f0, e0 := parse.MoFromBytes(data, "x.mo", opts...)
		var lb bytes.Buffer
		f, e := parse.MoFromBytes(data, "x.mo", append(opts, parse.MoWithLogger(log.New(&lb, "", 0)))...)
		w.Trans(2)
		if got, want := readResult(f, e), readResult(f0, e0); got != want {
			return failf("read-mo", "with a logger the result differs: %s", firstDiff(got, want))
		}
		w.Trace()
		return c30Log("logger", lb.String(), e, true, false)
	})
	pieces := []string{"import \"github.com/leonelquinteros/gotext\"\n", "func f() { gotext.Get(\"a\") }\n", "func f() { gotext.Get(x) }\n", "var v = \"lit %s\"\n", "func h() { gotext.Get(\"z\"); gotext.Get(\"y\", \"\") }\n", "func g() { gotext.GetN(\"a%d\", y, 2); gotext.Get() }\n", "var _ = gotext.Get(\"b\" + \"c\")\n", "syntax error\n"}
	gl := 4
	r.Space("extract", "all Go sources up to the bound of pieces, well-formed, with calls that must be skipped, or malformed, once or twice in a tree, under every option", seqCount(len(pieces), gl)*8, func(w *W, i int64) error {
		d := &Dec{i}
		all, clean, twice := d.B(), d.B(), d.B()
		src := "package p\n"
		for _, k := range seqAt(len(pieces), d.i) {
			src += pieces[k]
		}
		w.Desc("all=%v clean=%v twice=%v\n%s", all, clean, twice, src)
		w.State(src)
		dir := filepath.Join(r.Scratch, fmt.Sprintf("c30-%d-%%d", w.ID()))
		os.MkdirAll(dir, 0o700)
		p := filepath.Join(dir, "a.go")
		if err := os.WriteFile(p, []byte(src), 0o600); err != nil {
			return failf("env", "%v", err)
		}
		paths := strs(p)
		if twice {
			paths = strs(p, dir, p)
		}
		opts := []goparse.Option{goparse.WithExtractAll(all), goparse.WithCleanDuplicates(clean)}
		show := func(f *po.File, err error) string {
			if f == nil || err != nil {
				return fmt.Sprint("error ", err)
			}
			return dump(f.Entries)
		}
		want := show(goparse.FromPaths(paths, opts...))
		for _, m := range c30Modes[:3] {
			var lb bytes.Buffer
			var l *log.Logger
			if m[0] {
				l = log.New(&lb, "", 0)
			}
			got := show(goparse.FromPaths(paths, append(opts, goparse.WithLogger(l), goparse.WithVerbose(m[1]))...))
			w.Trans(1)
			if got != want {
				return failf("extract", "logger %v verbose %v: the result differs: %s", m[0], m[1], firstDiff(got, want))
			}
			if strings.HasPrefix(want, "error") && m[0] && !strings.Contains(lb.String(), "ERROR") {
				return failf("extract-log", "the log lacks the error %s:\n%s", want, lb.String())
			}
		}
		w.Trace()
		return nil
	})

	// The tools.
	ts := c29Tools()
	for _, t := range ts {
		// Several files whose messages are in no order and repeated.
		if t.tool == "msgounfmt" {
			u, _ := moText(ents{{ID: "z", Str: "z"}, {ID: "m", Str: "m"}, {ID: "a", Context: "c", Str: "other"}}, compile.BigEndian, true)
			t.files = t.files.with("u.mo", u)
			for _, in := range [][]string{{"u.mo", "a.mo"}, {"a.mo", "u.mo"}, {"a.mo", "a.mo", "u.mo"}, {"u.mo", "-"}} {
				t.ins = in
				ts = append(ts, t)
			}
		}
		if t.tool == "xgotext" {
			t.ins = strs("sub", "a.go")
			ts = append(ts, t)
		}
		if t.tool == "msgocat" {
			t.ins = strs("b.po", "a.po", "b.po")
			ts = append(ts, t)
		}
	}
	extra := [][]string{strs("--verbose"), strs("--color", "never"), strs("--color", "auto"), strs("--ignore-errors")}
	type job struct {
		t    int
		opts []int
		x    int
	}
	var jobs []job
	n := 2
	if r.Thorough {
		n = 3
	}
	has := map[string]map[string]bool{
		"msgofmt": {"--verbose": true}, "msgounfmt": {"--color": true, "--ignore-errors": true},
		"msgomerge": {"--verbose": true, "--color": true}, "msgocat": {"--color": true}, "xgotext": {"--verbose": true, "--color": true},
	}
	for t := range ts {
		k := len(ts[t].opts)
		for i := int64(0); i < seqCount(k, n); i++ {
			l := seqAt(k, i)
			ok := true
			for a, j := range l {
				o := ts[t].opts[j]
				ok = ok && o.long != "verbose" && o.long != "color" && o.long != "ignore-errors" && (a == 0 || l[a-1] < j && ts[t].opts[l[a-1]].long != o.long)
			}
			for x := range extra {
				if ok && has[ts[t].tool][extra[x][0]] {
					jobs = append(jobs, job{t, l, x})
				}
			}
		}
	}
	r.Space("command lines", "every tool under every set of up to two options (thorough: three), with and without verbosity, colour for terminals only, and ignored errors", int64(len(jobs)), func(w *W, i int64) error {
		j := jobs[i]
		t := ts[j.t]
		args := append([]string{}, t.ins...)
		for _, k := range j.opts {
			args = append(args, t.opts[k].spell(0)...)
		}
		w.Desc("%s %v %v", t.tool, args, extra[j.x])
		w.State(w.desc)
		a, err := r.cli(w, cliJob{tool: t.tool, args: args, files: t.files, stdin: t.stdin})
		if err != nil {
			return err
		}
		if a.code == 0 && a.err != "" && t.tool != "xgotext" { // which names the calls it skips
			return failf("cli-quiet", "%s succeeds and complains: %.500s", a.cmd, a.err)
		}
		b, err := r.cli(w, cliJob{tool: t.tool, args: append(args, extra[j.x]...), files: t.files, stdin: t.stdin})
		if err != nil {
			return err
		}
		if a.code != b.code || a.out != b.out {
			return failf("cli", "%s exits %d, and %d with %v; standard output: %s", a.cmd, a.code, b.code, extra[j.x], firstDiff(b.out, a.out))
		}
		if d := b.tree.diff(a.tree); d != "" {
			return failf("cli-files", "%s with %v: %s", a.cmd, extra[j.x], d)
		}
		w.Trace()
		return nil
	})
	large(r, "written under every mode, as PO and as MO", 257, 1025, 2*len(cuts), func(w *W, cat ents, k int) error {
		return c30Writer(w, cuts[k/2], func(out *badWriter, l *log.Logger, v, ig bool) error {
			if k%2 == 0 {
				return compile.PoToWriter(cat, out, compile.PoWithLogger(l), compile.PoWithVerbose(v), compile.PoWithIgnoreErrors(ig))
			}
			return compile.MoToWriter(cat, out, compile.MoWithLogger(l), compile.MoWithVerbose(v), compile.MoWithIgnoreErrors(ig))
		})
	})
}
