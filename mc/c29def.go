// C29, continued: an option given at its default is as good as none.
package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// subset picks the options of a bit set.
func subset[T any](opts []T, set int) (out []T) {
	for i, o := range opts {
		if set>>i&1 == 1 {
			out = append(out, o)
		}
	}
	return
}

func runC29Defaults(r *Run) {
	po1 := []compile.PoOption{
		compile.PoWithOmitHeader(false), compile.PoWithForcePo(false), compile.PoWithNoLocation(false), compile.PoWithAddLocation(compile.PoLocationModeFull),
		compile.PoWithMsgstrPrefix(""), compile.PoWithMsgstrSuffix(""), compile.PoWithIgnoreErrors(false), compile.PoWithVerbose(false), compile.PoWithCommentFuzzy(false),
		compile.PoWithManageHeader(false), compile.PoWithHeaderComments(false), compile.PoWithHeaderFields(false), compile.PoWithWordWrap(false),
		compile.PoWithForeignUser(false), compile.PoWithUseCustomObsoletePrefix(false), compile.PoWithTitle(""), compile.PoWithCopyrightHolder(""), compile.PoWithPackageName("PACKAGE NAME"),
	}
	mo := []compile.MoOption{compile.MoWithHashTable(true), compile.MoWithDepureEntries(true), compile.MoWithSortEntries(true), compile.MoWithEndianness(compile.NativeEndian), compile.MoWithIgnoreErrors(false), compile.MoWithVerbose(false), compile.MoWithForce(false)}
	rpo := []parse.PoOption{parse.PoWithParseObsolete(true), parse.PoWithCleanDuplicates(true), parse.PoWithIgnoreComments(false), parse.PoWithIgnoreAllComments(false), parse.PoWithSkipHeader(false), parse.PoWithUseCustomObsoletePrefix(false), parse.PoWithVerbose(false)}
	rmo := []parse.MoOption{parse.MoWithEndianness(parse.NativeEndian), parse.MoWithMustBeSorted(false)}
	gos := []goparse.Option{goparse.WithCleanDuplicates(true), goparse.WithExtractAll(false), goparse.WithNoHeader(false), goparse.WithVerbose(false), goparse.WithExclude()}
	mg := []po.MergeOption{po.MergeWithFuzzyMatch(true), po.MergeWithSort(true), po.MergeWithSortMode(po.SortByAll), po.MergeWithKeepPreviousIDs(false)}
	cat := []po.MsgcatMergeOption{po.MsgcatMergeWithUseFirst(false), po.MsgcatMergeWithLessThan(math.MaxUint), po.MsgcatMergeWithMoreThan(0)}

	pool := append(append(c19Pool(), c08Defs()...), oddEntries()...)
	pick := func(menu ents, i int64) (out ents) {
		for _, j := range seqAt(len(menu), i) {
			out = append(out, cloneE(menu[j]))
		}
		return
	}
	same := func(w *W, set int, f func(set int) string) error {
		w.Trans(2)
		w.Trace()
		if a, b := f(0), f(set); a != b {
			return failf("default", "without options and with these at their defaults the results differ: %s\nwithout:\n%.1500s\nwith:\n%.1500s", firstDiff(b, a), a, b)
		}
		return nil
	}
	r.Space("defaults: write", "all catalogs of up to two entries as PO and as MO, without options and with one (thorough: two) or all of them at the default", seqCount(len(pool), 2)*int64(len(po1)+len(mo)+2), func(w *W, i int64) error {
		d := &Dec{i}
		k := d.N(len(po1) + len(mo) + 2)
		c := pick(pool, d.i)
		w.Desc("option %d\n%s", k, dump(c))
		w.State(dump(c))
		if k <= len(po1) {
			set := 1 << k
			if k == len(po1) {
				set--
			}
			return same(w, set, func(set int) string {
				var b strings.Builder
				err := compile.PoToWriter(clone(c), &b, subset(po1, set)...)
				return fmt.Sprint(err, b.String())
			})
		}
		k -= len(po1) + 1
		set := 1 << k
		if k == len(mo) {
			set--
		}
		return same(w, set, func(set int) string {
			var b strings.Builder
			err := compile.MoToWriter(clone(c), &b, subset(mo, set)...)
			return fmt.Sprintf("%v %q", err, b.String())
		})
	})
	r.Space("defaults: read", "all documents of up to two lines, well-formed or not, without options and with every set of them at the default", seqCount(len(c03Lines), 2)<<len(rpo), func(w *W, i int64) error {
		set, doc := int(i&(1<<len(rpo)-1)), joinLines(seqAt(len(c03Lines), i>>len(rpo)), "\n", "\n")
		w.Desc("options %b\n%q", set, doc)
		w.State(doc)
		return same(w, set, func(set int) string {
			f, err := parse.PoFromString(doc, "n", subset(rpo, set)...)
			return readResult(f, err)
		})
	})
	samples := c07Samples()
	r.Space("defaults: read MO", "MO files without options and with every set of them at the default", int64(len(samples))<<len(rmo), func(w *W, i int64) error {
		set, data := int(i&(1<<len(rmo)-1)), samples[i>>len(rmo)]
		w.Desc("options %b\n%q", set, data)
		w.State(string(data))
		return same(w, set, func(set int) string {
			f, err := parse.MoFromBytes(data, "n", subset(rmo, set)...)
			return readResult(f, err)
		})
	})
	src := "package p\nimport \"github.com/leonelquinteros/gotext\"\nfunc f() { gotext.Get(\"a\"); gotext.GetN(\"b\", \"bs\", 2); gotext.Get(\"a\"); println(\"lit\") }\n"
	r.Space("defaults: extract", "every set of options at the default, of a source, of two and of a tree", 3<<len(gos), func(w *W, i int64) error {
		set, how := int(i&(1<<len(gos)-1)), int(i>>len(gos))
		w.Desc("options %b, way %d", set, how)
		w.State(w.desc)
		dir := filepath.Join(r.Scratch, fmt.Sprintf("c29d-%d", w.ID()))
		defer os.RemoveAll(dir)
		err := os.MkdirAll(dir+"/s", 0o755)
		for _, f := range strs("/a.go", "/s/b.go") {
			if err == nil {
				err = os.WriteFile(dir+f, []byte(src), 0o644)
			}
		}
		if err != nil {
			return failf("env", "%v", err)
		}
		return same(w, set, func(set int) string {
			o := subset(gos, set)
			var f *po.File
			var err error
			switch how {
			case 0:
				f, err = goparse.FromString(src, "n", o...)
			case 1:
				f, err = goparse.FromPaths([]string{dir + "/a.go", dir + "/s/b.go"}, o...)
			default:
				f, err = goparse.FromPath(dir, o...)
			}
			return readResult(f, err)
		})
	})
	dm, rm := c08Defs(), c08Refs()
	r.Space("defaults: merge", "all pairs of up to two messages, merged and concatenated without options and with every set of them at the default", seqCount(len(dm), 2)*seqCount(len(rm), 2)<<4, func(w *W, i int64) error {
		set := int(i & 15)
		i >>= 4
		a, b := pick(dm, i%seqCount(len(dm), 2)), pick(rm, i/seqCount(len(dm), 2))
		w.Desc("options %b\n%s\n--\n%s", set, dump(a), dump(b))
		w.State(dump(a) + "--" + dump(b))
		if err := same(w, set, func(set int) string { return dump(po.Merge(clone(a), clone(b), subset(mg, set)...)) }); err != nil {
			return err
		}
		return same(w, set&7, func(set int) string {
			return dump(po.MsgcatMergeFiles([]*po.File{{Name: "a", Entries: clone(a)}, {Name: "b", Entries: clone(b)}}, subset(cat, set)...))
		})
	})
	c29CLIDefaults(r)
	c29Docs(r)
}

var helpDefault = regexp.MustCompile(`\(default (?:"([^"]*)"|([0-9]+))\)`)
var helpFlag = regexp.MustCompile(`^ +(?:-.,|   ) --([a-z-]+)`)

// c29CLIDefaults: the defaults that --help shows are those that apply.
func c29CLIDefaults(r *Run) {
	ts := c29Tools()
	type job struct{ tool, opt int }
	var jobs []job
	for t := range ts {
		for o := -1; o < len(ts[t].opts); o++ {
			if o < 0 || ts[t].opts[o].long != "help" {
				jobs = append(jobs, job{t, o})
			}
		}
	}
	r.Space("defaults: command lines", "every tool with at most one option, without and with each option that --help shows a default for at that default", int64(len(jobs)), func(w *W, i int64) error {
		t := ts[jobs[i].tool]
		args := append([]string{}, t.ins...)
		given := ""
		if o := jobs[i].opt; o >= 0 {
			args = append(args, t.opts[o].spell(0)...)
			given = t.opts[o].long
		}
		w.Desc("%s %v", t.tool, args)
		w.State(w.desc)
		run := func(extra ...string) (string, error) {
			res, err := r.cli(w, cliJob{tool: t.tool, args: append(append([]string{}, args...), extra...), files: t.files, stdin: t.stdin})
			return fmt.Sprintf("exit %d\nstdout:\n%s\nstderr:\n%s\nfiles:\n%v", res.code, res.out, stampRx.ReplaceAllString(res.err, ""), res.tree), err
		}
		help, err := r.cli(w, cliJob{tool: t.tool, args: strs("--help")})
		if err != nil {
			return err
		}
		first, err := run()
		if err != nil {
			return err
		}
		name, n := "", 0
		for _, l := range strings.Split(help.out, "\n") {
			if m := helpFlag.FindStringSubmatch(l); m != nil {
				name = m[1]
			}
			m := helpDefault.FindStringSubmatch(l)
			if m == nil || name == "" || name == given {
				continue
			}
			if name == "lang" && t.tool != "xgotext" {
				continue // Sets the language of the header only when given.
			}
			n++
			got, err := run("--" + name + "=" + m[1] + m[2])
			if err != nil {
				return err
			}
			if strings.Contains(got, "none of the others can be") {
				continue // The two exclude each other.
			}
			if got != first {
				return failf("default", "%s with --%s=%s, the default, is another: %s\nwith:\n%.1500s\nwithout:\n%.1500s", w.desc, name, m[1]+m[2], firstDiff(got, first), got, first)
			}
		}
		if n == 0 {
			return failf("env", "no defaults in the help of %s", t.tool)
		}
		w.Trace()
		return nil
	})
}

// c29Docs: documentation is the same to standard output, to a file and in a tree.
func c29Docs(r *Run) {
	cmds := strs("gotext-tools", "msgofmt", "msgounfmt", "msgomerge", "msgocat", "xgotext", "docs", "doc-tree")
	outs := strs("-", "new", "old", "sub/new")
	r.Space("documentation", "the documents of every command to standard output, to new and existing files and in a tree, by long and short options", prod(len(cmds), 2, len(outs), 2), func(w *W, i int64) error {
		d := &Dec{i}
		cmd, kind, out, short := cmds[d.N(len(cmds))], strs("markdown", "man")[d.N(2)], outs[d.N(len(outs))], d.B()
		w.Desc("%s of %s to %s, short options: %v", kind, cmd, out, short)
		w.State(w.desc)
		w.Trace()
		before := tree{"old": strings.Repeat("precious\n", 9000), "sub/": ""}
		first, err := r.cli(w, cliJob{tool: "docs", wrapper: true, args: strs(kind, "--command", cmd), files: before})
		if err != nil {
			return err
		}
		if first.code != 0 || first.err != "" || len(first.out) < 100 || first.tree.diff(before.full()) != "" {
			return failf("docs", "%s exits %d with files %v: %s", first.cmd, first.code, first.tree, first.err)
		}
		for _, t := range c29Tools() {
			for _, o := range t.opts {
				if t.tool == cmd && o.long != "nonsense" && !strings.Contains(strings.ReplaceAll(first.out, "\\-", "-"), "--"+o.long) {
					return failf("docs", "the document of %s does not mention --%s", cmd, o.long)
				}
			}
		}
		args := strs(kind, "--command="+cmd, "--output="+out)
		if short {
			args = strs(kind, "-c", cmd, "-o", out)
		}
		res, err := r.cli(w, cliJob{tool: "docs", wrapper: true, args: args, files: before})
		if err != nil {
			return err
		}
		want, sout := before.clone(), first.out
		if out != "-" {
			want[out], sout = first.out, ""
		}
		if res.code != 0 || res.out != sout || res.err != "" {
			return failf("docs", "%s exits %d, standard output differs: %s, errors %q", res.cmd, res.code, firstDiff(res.out, sout), res.err)
		}
		if x := res.tree.diff(want.full()); x != "" {
			return failf("docs", "%s: %s", res.cmd, x)
		}
		if kind == "man" {
			return nil
		}
		dir := strs("sub", "x/y")[d0(short)]
		args = strs("--dir=" + dir)
		if out == "new" {
			args = strs("-D", dir)
		}
		res, err = r.cli(w, cliJob{tool: "doc-tree", wrapper: true, args: args, files: before})
		if err != nil {
			return err
		}
		name := "gotext-tools.md"
		if cmd != "gotext-tools" {
			name = "gotext-tools_" + cmd + ".md"
		}
		if g := res.tree[dir+"/"+name]; res.code != 0 || res.out != "" || res.err != "" || g != first.out {
			return failf("docs", "%s exits %d (%q, %q); %s: %s", res.cmd, res.code, res.out, res.err, name, firstDiff(g, first.out))
		}
		for f := range res.tree {
			if !strings.HasPrefix(dir+"/", f) && !strings.HasPrefix(f, dir+"/gotext-tools") && f != "old" && f != "sub/" {
				return failf("docs", "%s makes %s", res.cmd, f)
			}
		}
		if res.tree["old"] != before["old"] {
			return failf("docs", "%s changes another file", res.cmd)
		}
		return nil
	})
}

func d0(b bool) int {
	if b {
		return 1
	}
	return 0
}
