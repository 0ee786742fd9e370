// C22: concurrent use on separate data gives the same results as sequential use.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"hash/fnv"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
	"github.com/Tom5521/gotext-tools/v2/verifmc/sched"
)

func init() {
	props["C22"] = propDef{
		level: "model_checking",
		notes: []string{
			"the real code is instrumented (through a build overlay, from the working tree) with a scheduling point before every statement of every function; code of other modules runs without scheduling points",
			"interleavings within one statement are covered by the data race detection: every pair of calls runs concurrently in a fresh process under the happens-before race detector, whose verdict does not depend on the schedule that happened",
			"oracle: the result of the same call made alone in a process of its own",
		},
		run: runC22,
	}
	children["instrument"] = c22Instrument
	children["sched"] = c22SchedChild
	children["race"] = c22RaceChild
	children["count"] = c22CountChild
}

const c22Repo = "/repo"

// c22Instrument writes an overlay with a scheduling point before every statement.
func c22Instrument(args []string) error {
	out := args[0]
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	repl := map[string]string{}
	n, points := 0, 0
	for _, top := range []string{"pkg", "internal"} {
		err := filepath.WalkDir(filepath.Join(c22Repo, top), func(path string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			if d.IsDir() && (d.Name() == "testdata" || strings.HasPrefix(d.Name(), "_")) {
				return filepath.SkipDir
			}
			if d.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			fset := token.NewFileSet()
			f, err := goparser.ParseFile(fset, path, src, goparser.ParseComments)
			if err != nil {
				return err
			}
			at := map[int]bool{}
			add := func(l []ast.Stmt) {
				for _, s := range l {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
						continue
					}
					at[fset.Position(s.Pos()).Offset] = true
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					add(n.List)
				case *ast.CaseClause:
					add(n.Body)
				case *ast.CommClause:
					add(n.Body)
				}
				return true
			})
			if len(at) == 0 {
				return nil
			}
			var offs []int
			for o := range at {
				offs = append(offs, o)
			}
			sort.Ints(offs)
			var b bytes.Buffer
			last := fset.Position(f.Name.End()).Offset
			b.Write(src[:last])
			b.WriteString(`; import verifsched "github.com/Tom5521/gotext-tools/v2/verifmc/sched"`)
			for _, o := range offs {
				b.Write(src[last:o])
				b.WriteString("verifsched.Y(); ")
				last = o
			}
			b.Write(src[last:])
			points += len(offs)
			dst := filepath.Join(out, fmt.Sprintf("f%d.go", n))
			n++
			repl[path] = dst
			return os.WriteFile(dst, b.Bytes(), 0o644)
		})
		if err != nil {
			return err
		}
	}
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	fmt.Printf("%d %d\n", n, points)
	return os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
}

// c22World is the shared read-only data.
type c22World struct {
	a, b ents
	text string
	bad  string
	// prefixed holds obsolete messages of two prefixes.
	prefixed string
	mo       []byte
	src      string
	gofile   string
	header   po.Header
	hcfg     po.HeaderConfig
	cfg      compile.PoConfig
	gcfg     goparse.Config
	files    []*po.File
}

func c22NewWorld(dir string) *c22World {
	w := &c22World{
		a: ents{
			{Str: "Language: es\nPlural-Forms: nplurals=2; plural=n != 1;\n"},
			{ID: "m", Str: "t", Comments: strs("c"), Locations: locs{{Line: 9, File: "b.go"}, {Line: 2, File: "a.go"}}},
			{ID: "message one", Context: "k", Str: "v\nw", Flags: strs("fuzzy"), ExtractedComments: strs("e")},
			{ID: "p", Plural: "ps", Plurals: pes{{ID: 1, Str: "b"}, {ID: 0, Str: "a"}}},
		},
		b: ents{
			{Str: "Language: \n", Flags: strs("fuzzy")},
			{ID: "m", Locations: locs{{Line: 1, File: "a.go"}}},
			{ID: "message ones", Context: "k", Plural: "x"},
			{ID: "old", Str: "o", Obsolete: true},
		},
		text:     "# c\n#. e\n#: a.go:1 b.go:2\n#, fuzzy, c-format\n#| msgid \"o\"\nmsgctxt \"k\"\nmsgid \"a\"\nmsgstr \"b\\n\"\n\"c\"\n\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n\n#~ msgid \"o\"\n#~ msgstr \"p\"\n",
		prefixed: "msgid \"a\"\nmsgstr \"b\"\n\n#! msgid \"bang\"\n#! msgstr \"x\"\n\n#% msgid \"cent\"\n#% msgstr \"y\"\n",
		bad:      "msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"x\nmsgstr \"y\"\n",
		mo:       c22Mo,
		src:      "package x\n\nimport \"github.com/leonelquinteros/gotext\"\n\nfunc f(v string) {\n\tgotext.Get(\"a\")\n\tgotext.GetC(\"b\", \"c\")\n\tgotext.GetN(`d`, \"ds\", 2)\n\tprintln(\"other\")\n}\n",
	}
	w.gofile = filepath.Join(dir, "x.go")
	w.header = po.Header{Fields: []po.HeaderField{{Key: "Language", Value: "es"}, {Key: "X-Empty", Value: " "}, {Key: "Plural-Forms", Value: "nplurals=3; plural=n;"}}}
	w.hcfg = po.HeaderConfig{Language: "de", Nplurals: 2, Plural: "n", ExtraFields: []po.HeaderField{{Key: "B", Value: "c"}, {Key: "A", Value: "d"}}}
	w.cfg = compile.PoConfig{ManageHeader: true, HeaderComments: true, HeaderFields: true, HeaderConfig: &w.hcfg, WordWrap: true, MsgstrPrefix: "<", AddLocation: compile.PoLocationModeFile}
	w.gcfg = goparse.Config{Exclude: strs("y", filepath.Join(dir, "z")), HeaderConfig: &w.hcfg, CleanDuplicates: true}
	w.files = []*po.File{{Name: "a", Entries: w.a}, {Name: "b", Entries: w.b}, {Name: "a", Entries: w.a}}
	return w
}

// shared shows everything that is shared.
func (w *c22World) shared() string {
	s := dumpFull(w.a) + dumpFull(w.b) + fmt.Sprint(w.header, w.hcfg, w.cfg.HeaderConfig == &w.hcfg, w.gcfg.Exclude, w.gcfg.HeaderConfig == &w.hcfg)
	for _, f := range w.files {
		s += f.Name + dumpFull(f.Entries)
	}
	return s
}

// c22Mo is written with the layout of an MO file by hand, so that no code under test runs before the calls.
var c22Mo = func() []byte {
	pairs := [][2]string{{"", "Language: es\n"}, {"a", "1"}, {"k\x04b", "2"}, {"p\x00ps", "x\x00y"}}
	var head, data bytes.Buffer
	put := func(v int) {
		head.Write([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)})
	}
	n := len(pairs)
	head.Write([]byte{0xde, 0x12, 0x04, 0x95})
	put(0)
	put(n)
	put(28)
	put(28 + 8*n)
	put(0)
	put(28 + 16*n)
	for k := 0; k < 2; k++ {
		for _, p := range pairs {
			put(len(p[k]))
			put(28 + 16*n + data.Len())
			data.WriteString(p[k] + "\x00")
		}
	}
	return append(head.Bytes(), data.Bytes()...)
}()

type c22Op struct {
	name string
	f    func(w *c22World) string
}

func c22Ops() []c22Op {
	pp := func(text string, opts ...parse.PoOption) string {
		p := parse.NewPoFromString(text, "in.po", opts...)
		f := p.Parse()
		s := fmt.Sprint(p.Errors(), len(p.Warnings()))
		if f != nil {
			s += dump(f.Entries)
		}
		return s
	}
	gp := func(p *goparse.Parser, err error) string {
		if err != nil {
			return "error " + err.Error()
		}
		f := p.Parse()
		return fmt.Sprint(p.Errors()) + dump(normHeader(f.Entries))
	}
	return []c22Op{
		{"PO parse", func(w *c22World) string { return pp(w.text) }},
		{"PO parse options", func(w *c22World) string {
			return pp(w.text, parse.PoWithIgnoreComments(true), parse.PoWithUseCustomObsoletePrefix(true), parse.PoWithCustomObsoletePrefix('~'))
		}},
		{"PO parse prefix !", func(w *c22World) string {
			return pp(w.prefixed, parse.PoWithUseCustomObsoletePrefix(true), parse.PoWithCustomObsoletePrefix('!'))
		}},
		{"PO parse prefix %", func(w *c22World) string {
			return pp(w.prefixed, parse.PoWithUseCustomObsoletePrefix(true), parse.PoWithCustomObsoletePrefix('%'))
		}},
		{"PO compile prefix %", func(w *c22World) string {
			return compile.PoToString(w.b, compile.PoWithUseCustomObsoletePrefix(true), compile.PoWithCustomObsoletePrefixRune('%'), compile.PoWithMsgstrPrefix("%"))
		}},
		{"PO parse malformed", func(w *c22World) string { return pp(w.bad) }},
		{"PO compile", func(w *c22World) string { return compile.PoToString(w.a) }},
		{"PO compile options", func(w *c22World) string {
			c := compile.NewPo(&po.File{Name: "f", Entries: w.b}, compile.PoWithManageHeader(true), compile.PoWithHeaderFields(true), compile.PoWithHighlight(compile.TestHighlight))
			return c.ToString() + c.ToStringWithOptions(compile.PoWithWordWrap(true), compile.PoWithCommentFuzzy(true))
		}},
		{"MO compile", func(w *c22World) string { return string(compile.MoToBytes(w.a)) }},
		{"MO parse", func(w *c22World) string {
			p := parse.NewMoFromBytes(w.mo, "in.mo")
			f := p.Parse()
			s := fmt.Sprint(p.Errors())
			if f != nil {
				s += dump(f.Entries)
			}
			return s
		}},
		{"merge", func(w *c22World) string { return dump(po.Merge(w.a, w.b)) }},
		{"merge options", func(w *c22World) string {
			return dump(po.Merge(w.a, w.b, po.MergeWithFuzzyMatch(false), po.MergeWithKeepPreviousIDs(true)))
		}},
		{"concatenate", func(w *c22World) string {
			return dump(po.MsgcatMergeFiles([]*po.File{{Name: "a", Entries: w.a}, {Name: "b", Entries: w.b}}))
		}},
		{"extract", func(w *c22World) string { return gp(goparse.NewParserFromString(w.src, "x.go")) }},
		{"extract all", func(w *c22World) string { return gp(goparse.NewParser(w.gofile, goparse.WithExtractAll(true))) }},
		{"sort", func(w *c22World) string {
			return dump(clone(w.a).Sort()) + dump(clone(w.b).SortFunc(po.CompareEntryByID)) + fmt.Sprint(po.CompareEntry(w.a[1], w.b[1]))
		}},
		{"compare", func(w *c22World) string {
			return fmt.Sprint(w.a.Equal(w.b), w.a.Equal(w.a), w.a[1].Equal(w.b[1]), po.CompareEntryByID(w.a[1], w.a[2]))
		}},
		{"solve", func(w *c22World) string {
			l := append(clone(w.a), clone(w.b)...)
			return dump(l.Solve()) + dump(l.CleanDuplicates()) + fmt.Sprint(w.a.Index("m", ""), w.a.Header().Fields, w.a.Header().Nplurals())
		}},
		{"validate", func(w *c22World) string {
			return fmt.Sprint(w.a.Validate(), w.b.Validate(), w.a.CatchDuplicateEntries())
		}},
		{"highlight", func(w *c22World) string {
			b, err := compile.Highlight(compile.DefaultHighlight, "x", w.text)
			return fmt.Sprint(string(b), err)
		}},
		{"header", func(w *c22World) string {
			h := po.DefaultTemplateHeaderConfig().ToHeader()
			h.Set("X", "y")
			c := po.HeaderConfig{Language: "de", Nplurals: 2, Plural: "n", ProjectIDVersion: "p"}
			return dump(normHeader(ents{h.ToEntry()})) + dump(normHeader(ents{c.ToHeader().ToEntry()}))
		}},
		{"shared header", func(w *c22World) string {
			h := w.header
			c := h.ToConfig()
			return fmt.Sprint(h.Load("Language"), h.Nplurals(), c) + dump(ents{h.ToEntry()}) + gp(goparse.NewParserFromString(w.src, "x.go", goparse.WithCustomHeader(&w.header)))
		}},
		{"shared configuration", func(w *c22World) string {
			return compile.PoToString(w.a, compile.PoWithConfig(w.cfg)) + dump(ents{w.hcfg.ToHeader().ToEntry()}) + gp(goparse.NewParserFromPaths([]string{w.gofile}, goparse.WithConfig(w.gcfg)))
		}},
		{"shared files", func(w *c22World) string {
			return dump(po.MsgcatMergeFiles(w.files, po.MsgcatMergeWithUseFirst(true))) + compile.PoToString(w.files[1]) + string(compile.MoToBytes(*w.files[0])) + fmt.Sprint(w.files[0].Validate(), w.files[0].Load("m", ""), w.files[1].Equal(*w.files[0]))
		}},
		{"PO parse small", func(w *c22World) string { return pp("msgctxt \"c\"\nmsgid \"y\"\nmsgstr \"2\"\n") }},
		{"PO compile small", func(w *c22World) string {
			return compile.PoToString(ents{{ID: "y", Context: "c", Str: "2"}, {ID: "z", Str: "é"}})
		}},
		{"MO compile small", func(w *c22World) string {
			return string(compile.MoToBytes(ents{{ID: "x", Str: "1"}, {ID: "y", Str: "2"}, {ID: "z", Str: "3"}}))
		}},
		{"merge small", func(w *c22World) string {
			return dump(po.Merge(ents{{ID: "yes sir", Str: "2"}}, ents{{ID: "yes sirs"}}))
		}},
		{"best match", func(w *c22World) string {
			i, r := w.a.BestIDRatio(w.b[2])
			return fmt.Sprint(i, r)
		}},
	}
}

func c22Hash(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%x", h.Sum64())
}

// c22Safe runs an operation, a panic being part of the result.
func c22Safe(op c22Op, w *c22World, out *string) func() {
	return func() {
		defer func() {
			if e := recover(); e != nil {
				*out = fmt.Sprint("panic: ", e)
			}
		}()
		*out = op.f(w)
	}
}

// c22CountChild prints the number of scheduling points and the result of one operation alone: DIR OP.
func c22CountChild(args []string) error {
	ops := c22Ops()
	k, _ := strconv.Atoi(args[1])
	w := c22NewWorld(args[0])
	var out, again string
	res := sched.Run([]func(){c22Safe(ops[k], w, &out)}, nil)
	res2 := sched.Run([]func(){c22Safe(ops[k], w, &again)}, nil)
	if out != again {
		return fmt.Errorf("%s gives another result the second time: %s", ops[k].name, firstDiff(again, out))
	}
	n := res.Yields[0]
	if res2.Yields[0] > n {
		n = res2.Yields[0]
	}
	fmt.Printf("%d %s\n", n, c22Hash(out))
	return nil
}

// c22Sched is schedule number s of operations with the given numbers of scheduling points under at most p preemptions.
// The first two run one after the other, then one preemption, then two.
func c22Sched(s int64, n []int) []sched.Seg {
	if s < 2 {
		return []sched.Seg{{Thread: int(s), Stop: 0}}
	}
	s -= 2
	for f := 0; f < 2; f++ {
		if s < int64(n[f]) {
			return []sched.Seg{{Thread: f, Stop: int(s) + 1}, {Thread: 1 - f, Stop: 0}}
		}
		s -= int64(n[f])
	}
	for f := 0; f < 2; f++ {
		c := int64(n[f]) * int64(n[1-f])
		if s < c {
			return []sched.Seg{{Thread: f, Stop: int(s%int64(n[f])) + 1}, {Thread: 1 - f, Stop: int(s/int64(n[f])) + 1}, {Thread: f, Stop: 0}}
		}
		s -= c
	}
	return nil
}

func c22Count(n []int, p int) int64 {
	c := int64(2)
	if p >= 1 {
		c += int64(n[0] + n[1])
	}
	if p >= 2 {
		c += 2 * int64(n[0]) * int64(n[1])
	}
	return c
}

// c22SchedChild explores schedules LO..HI of two operations: DIR A B NA NB HASHA HASHB LO HI.
func c22SchedChild(args []string) error {
	ops := c22Ops()
	num := func(i int) int { n, _ := strconv.Atoi(args[i]); return n }
	a, b := num(1), num(2)
	n := []int{num(3), num(4)}
	want := []string{args[5], args[6]}
	lo, hi := int64(num(7)), int64(num(8))
	w := c22NewWorld(args[0])
	before := w.shared()
	blocked := 0
	for s := lo; s < hi; s++ {
		segs := c22Sched(s, n)
		var out [2]string
		res := sched.Run([]func(){c22Safe(ops[a], w, &out[0]), c22Safe(ops[b], w, &out[1])}, segs)
		if res.Hang {
			return fmt.Errorf("schedule %d %v of %q and %q never ends\n%s", s, segs, ops[a].name, ops[b].name, sched.Stacks())
		}
		blocked += res.Blocked
		for k, o := range []int{a, b} {
			if c22Hash(out[k]) != want[k] {
				var alone string
				c22Safe(ops[o], w, &alone)()
				return fmt.Errorf("schedule %d %v of %q and %q: the result of %q (thread %d) differs from its result alone: %s", s, segs, ops[a].name, ops[b].name, ops[o].name, k, firstDiff(out[k], alone))
			}
		}
	}
	if after := w.shared(); after != before {
		return fmt.Errorf("the shared data has changed: %s", firstDiff(after, before))
	}
	fmt.Printf("ok %d\n", blocked)
	return nil
}

// c22RaceChild runs operations at the same time: DIR REPS OP... ; the race detector watches.
func c22RaceChild(args []string) error {
	ops := c22Ops()
	w := c22NewWorld(args[0])
	reps, _ := strconv.Atoi(args[1])
	var idx []int
	for _, a := range args[2:] {
		k, _ := strconv.Atoi(a)
		idx = append(idx, k)
	}
	for rep := 0; rep < reps; rep++ {
		out := make([]string, len(idx))
		done := make(chan int, len(idx))
		for t, k := range idx {
			t, k := t, k
			f := c22Safe(ops[k], w, &out[t])
			go func() {
				f()
				done <- t
			}()
		}
		for range idx {
			select {
			case <-done:
			case <-time.After(60 * time.Second):
				return fmt.Errorf("never ends\n%s", sched.Stacks())
			}
		}
		for t := range idx {
			fmt.Printf("%d %s\n", t, c22Hash(out[t]))
		}
	}
	return nil
}

func runC22(r *Run) {
	dir := filepath.Join(r.Scratch, "c22")
	os.MkdirAll(dir, 0o755)
	world := c22NewWorld(dir)
	os.WriteFile(world.gofile, []byte(world.src), 0o644)
	self, _ := os.Executable()
	src := filepath.Join(r.Root, "mc")
	run := func(env []string, name string, args ...string) (string, error) {
		cmd := exec.Command(name, args...)
		cmd.Dir = src
		cmd.Env = append(os.Environ(), env...)
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		err := cmd.Run()
		if err != nil {
			return out.String(), fmt.Errorf("%v\n%s%s", err, out.String(), errb.String())
		}
		return out.String(), nil
	}
	fail := func(name string, err error) {
		r.Space(name, "preparation", 1, func(w *W, i int64) error { return failf("prepare", "%v", err) })
	}
	// The instrumented and the race-detecting explorer.
	schedBin, raceBin := filepath.Join(dir, "mcsched"), filepath.Join(dir, "mcrace")
	type res struct {
		out string
		err error
	}
	rc := make(chan res)
	go func() {
		out, err := run([]string{"CGO_ENABLED=1"}, "go", "build", "-race", "-o", raceBin, ".")
		rc <- res{out, err}
	}()
	pts, serr := run(nil, self, "child", "instrument", filepath.Join(dir, "ov"))
	if serr == nil {
		_, serr = run(nil, "go", "build", "-overlay", filepath.Join(dir, "ov", "overlay.json"), "-o", schedBin, ".")
	}
	race := <-rc
	if race.err != nil {
		fmt.Fprintln(os.Stderr, "race-detecting build failed:", race.err)
		r.extra["race_build"] = race.err.Error()
		r.exhaustive = false
	}
	if serr != nil {
		fmt.Fprintln(os.Stderr, "instrumented build failed:", serr)
		r.extra["instrumented_build"] = serr.Error()
		r.exhaustive = false
	}
	if race.err != nil && serr != nil {
		fail("builds", serr)
		return
	}
	r.extra["instrumented"] = "files and scheduling points: " + strings.TrimSpace(pts)

	ops := c22Ops()
	no := len(ops)
	n := make([]int, no)
	hash := make([]string, no)
	for k := range ops {
		bin := schedBin
		if serr != nil {
			bin = self
		}
		out, err := run(nil, bin, "child", "count", dir, fmt.Sprint(k))
		if err != nil {
			fail("alone", fmt.Errorf("%s: %w", ops[k].name, err))
			return
		}
		fmt.Sscan(out, &n[k], &hash[k])
	}
	counts := map[string]int{}
	for k, o := range ops {
		counts[o.name] = n[k]
	}
	r.extra["scheduling_points_per_call"] = counts

	pairs := make([][2]int, 0)
	for a := 0; a < no; a++ {
		for b := a; b < no; b++ {
			pairs = append(pairs, [2]int{a, b})
		}
	}
	if race.err == nil {
		groups := func(w *W, reps int, g ...int) error {
			args := []string{"child", "race", dir, fmt.Sprint(reps)}
			var names []string
			for _, k := range g {
				args = append(args, fmt.Sprint(k))
				names = append(names, ops[k].name)
			}
			w.Desc("at the same time in a fresh process: %s", strings.Join(names, ", "))
			w.State("race" + w.desc)
			w.Trans(len(g) * reps)
			w.Trace()
			out, err := run([]string{"GORACE=halt_on_error=1 exitcode=66"}, raceBin, args...)
			if err != nil {
				return failf("race", "%s: %v", w.desc, err)
			}
			lines := strings.Fields(out)
			for i := 0; i+1 < len(lines); i += 2 {
				t, _ := strconv.Atoi(lines[i])
				if lines[i+1] != hash[g[t]] {
					return failf("result", "%s: the result of %s differs from its result alone", w.desc, names[t])
				}
			}
			return nil
		}
		r.Space("data races, pairs", "every pair of calls at the same time in a fresh process under the race detector", int64(len(pairs)), func(w *W, i int64) error {
			return groups(w, 2, pairs[i][0], pairs[i][1])
		})
		r.Space("data races, all", "all calls at the same time, each twice, in a fresh process under the race detector", 8, func(w *W, i int64) error {
			var g []int
			for k := range ops {
				g = append(g, (k+int(i)*3)%no, (k*7+int(i))%no)
			}
			return groups(w, 10, g...)
		})
		if r.Thorough {
			r.Space("data races, triples", "every triple of calls at the same time in a fresh process under the race detector", prod(no, no, no), func(w *W, i int64) error {
				d := &Dec{i}
				a, b, c := d.N(no), d.N(no), d.N(no)
				if a > b || b > c {
					return nil
				}
				return groups(w, 1, a, b, c)
			})
		}
	}
	if serr != nil {
		return
	}
	explore := func(w *W, a, b int, lo, hi int64) error {
		w.Desc("%s and %s, schedules %d to %d", ops[a].name, ops[b].name, lo, hi)
		out, err := run(nil, schedBin, "child", "sched", dir, fmt.Sprint(a), fmt.Sprint(b), fmt.Sprint(n[a]), fmt.Sprint(n[b]), hash[a], hash[b], fmt.Sprint(lo), fmt.Sprint(hi))
		if err != nil {
			return failf("schedule", "%v", err)
		}
		if strings.TrimSpace(out) != "ok 0" {
			w.Outcome("threads waited for each other: " + out)
		}
		w.State(w.desc)
		w.r.trans.Add((hi - lo) * int64(n[a]+n[b]))
		w.r.traces.Add(hi - lo)
		return nil
	}
	type job struct {
		a, b   int
		lo, hi int64
	}
	chunked := func(l [][2]int, p int, size, limit int64) (jobs []job, skipped int) {
		for _, pr := range l {
			c := c22Count([]int{n[pr[0]], n[pr[1]]}, p)
			if limit > 0 && c > limit {
				skipped++
				continue
			}
			lo := int64(0)
			if p == 2 { // the others have been explored
				lo = c22Count([]int{n[pr[0]], n[pr[1]]}, 1)
			}
			for ; lo < c; lo += size {
				hi := lo + size
				if hi > c {
					hi = c
				}
				jobs = append(jobs, job{pr[0], pr[1], lo, hi})
			}
		}
		return
	}
	// One preemption of the very first call in a process.
	var first []job
	for k := range ops {
		for s := int64(2); s < 2+int64(n[k]); s++ {
			first = append(first, job{k, k, s, s + 1})
		}
	}
	r.Space("first calls", "every call twice as the first calls of a fresh process, the first one preempted before every statement", int64(len(first)), func(w *W, i int64) error {
		j := first[i]
		return explore(w, j.a, j.b, j.lo, j.hi)
	})
	one, _ := chunked(pairs, 1, 600, 0)
	r.Space("one preemption", "every pair of calls, both orders and every placement of one preemption", int64(len(one)), func(w *W, i int64) error {
		j := one[i]
		return explore(w, j.a, j.b, j.lo, j.hi)
	})
	limit := int64(60000)
	if r.Thorough {
		limit = 0
	}
	two, skipped := chunked(pairs, 2, 5000, limit)
	r.extra["pairs_left_out_with_two_preemptions"] = skipped
	r.Space("two preemptions", "pairs of calls (quick: those with up to 60000 schedules), every placement of two preemptions", int64(len(two)), func(w *W, i int64) error {
		j := two[i]
		return explore(w, j.a, j.b, j.lo, j.hi)
	})
}
