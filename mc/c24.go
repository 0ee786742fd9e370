// C24: a command-line run that fails says so and destroys nothing.
package main

import (
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C24"] = propDef{
		level: "fault_enumeration",
		notes: []string{
			"every case is a run of the built tool in a fresh directory; a failing run must exit non-zero, say something on standard error, not panic and leave every file it was not told to write as it was; a failure found before output begins also leaves the named output as it was",
			"which texts are malformed is decided by the library (C03, C07 decide that the library is right)",
			"write faults: missing output directory, directory as output, full device, unwritable standard output, existing output without force",
		},
		run: runC24,
	}
}

// badPo are texts no tool may accept as a PO file.
var badPo = []cliCat{
	{"unterminated", "msgid \"a\nmsgstr \"b\"\n"},
	{"no msgstr", "msgid \"a\"\n"},
	{"no msgid", cliHead + "msgstr \"b\"\n"},
	{"junk", "junk\n"},
	{"bad escape", "msgid \"a\\q\"\nmsgstr \"b\"\n"},
	{"bad index", "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[x] \"b\"\n"},
	{"late junk", cliA + "\nmsgid \"ok\"\nmsgstr \"fine\"\n\njunk \"x\"\n"},
	{"only context", "msgctxt \"c\"\n"},
	{"binary", "\x00\x01\xff\xfe"},
	{"order", "msgstr \"b\"\nmsgid \"a\"\n"},
}

// cause is one way an input is bad: what stands at its name.
type cause struct {
	name  string
	files func(path string) tree
	stdin string
	hasIn bool // can be given on standard input
}

func poCauses() (out []cause) {
	out = append(out,
		cause{name: "missing", files: func(string) tree { return tree{} }},
		cause{name: "directory", files: func(p string) tree { return tree{p + "/keep": "x"} }},
		cause{name: "below a file", files: func(p string) tree { return tree{} }},
	)
	for _, b := range badPo {
		b := b
		out = append(out, cause{name: b.name, files: func(p string) tree { return tree{p: b.text} }, stdin: b.text, hasIn: true})
	}
	return
}

func moCauses() (out []cause) {
	good, err := moText(cliMust(cliA), compile.LittleEndian, true)
	if err != nil {
		panic(err)
	}
	out = append(out,
		cause{name: "missing", files: func(string) tree { return tree{} }},
		cause{name: "directory", files: func(p string) tree { return tree{p + "/keep": "x"} }},
	)
	var dup strings.Builder
	compile.MoToWriter(ents{{ID: "b", Str: "1"}, {ID: "b", Str: "3"}}, &dup, compile.MoWithDepureEntries(false), compile.MoWithSortEntries(false))
	for _, b := range []cliCat{
		{"empty", ""}, {"short", good[:10]}, {"header only", good[:28]}, {"cut", good[:len(good)-2]}, {"half", good[:len(good)/2]},
		{"magic", "X" + good[1:]}, {"text", cliA}, {"revision", good[:4] + "\x07\x00\x09\x00" + good[8:]}, {"count", good[:8] + "\xff\xff\xff\x7f" + good[12:]},
		{"repeated", dup.String()},
	} {
		b := b
		out = append(out, cause{name: b.name, files: func(p string) tree { return tree{p: b.text} }, stdin: b.text, hasIn: true})
	}
	return
}

// outMode is a way to direct the output.
type outMode struct {
	name  string
	args  []string
	files tree
	new   string // output that may appear
}

func outModes(ext string) []outMode {
	old := strings.Repeat("# precious\n", 300)
	return []outMode{
		{"stdout", strs("-o", "-"), nil, ""},
		{"new", strs("-o", "out"+ext), nil, "out" + ext},
		{"old", strs("-o", "out"+ext), tree{"out" + ext: old}, ""},
		{"old force", strs("-f", "-o", "out"+ext), tree{"out" + ext: old}, ""},
		{"new force", strs("-f", "-o", "out"+ext), nil, "out" + ext},
		{"stdout force", strs("-f", "-o", "-"), nil, ""},
		{"old empty", strs("-o", "out"+ext), tree{"out" + ext: ""}, ""},
		{"linked", strs("-f", "-o", "out"+ext), tree{"out" + ext: "link:real", "real": old}, ""},
	}
}

// noForce keeps the modes a tool without -f understands.
func noForce(ms []outMode) (out []outMode) {
	for _, m := range ms {
		if m.args[0] == "-f" {
			m.args = m.args[1:]
			if m.name != "linked" {
				continue
			}
		}
		out = append(out, m)
	}
	return
}

func runC24(r *Run) {
	c24Inputs(r)
	c24Cuts(r)
	c24Options(r)
	c24Outputs(r)
	c24Limits(r)
	c24Xgotext(r)
	c24Docs(r)
}

func c24Inputs(r *Run) {
	// layout: arguments with BAD at the place of the bad input; files; list of bad path
	type layout struct {
		tool  string
		args  []string
		files tree
		bad   string
		in    bool // the bad input comes on standard input
		modes []outMode
	}
	good := tree{"good.po": cliA, "other.po": cliBare}
	var ls []layout
	add := func(tool string, modes []outMode, files tree, bad string, args ...string) {
		ls = append(ls, layout{tool: tool, args: args, files: files, bad: bad, modes: modes})
		for _, a := range args {
			if a == bad && tool != "msgomerge" && !strings.Contains(strings.Join(args, " "), "-D") {
				sub := append([]string{}, args...)
				for k := range sub {
					if sub[k] == bad {
						sub[k] = "-"
					}
				}
				ls = append(ls, layout{tool: tool, args: sub, files: files, bad: bad, in: true, modes: modes})
			}
		}
	}
	fm := outModes(".mo")
	add("msgofmt", fm, good, "bad.po", "bad.po")
	add("msgofmt", fm, good, "bad.po", "good.po", "bad.po")
	add("msgofmt", fm, good, "bad.po", "bad.po", "good.po")
	add("msgofmt", fm, good, "bad.po", "good.po", "bad.po", "other.po")
	inD := tree{"d/good.po": cliA, "d/out.mo": "old", "good.po": cliTriv}
	add("msgofmt", fm, inD, "d/bad.po", "-D", "d", "bad.po")
	add("msgofmt", fm, inD, "d/bad.po", "-D", "d", "good.po", "bad.po")
	// directory mode: the bad file before, between and after good ones
	dirs := tree{"d/b.po": cliA, "d/m.po": cliBare, "d/b.mo": "old", "d/z.po": cliTriv, "d/q.mo": "old q"}
	for _, n := range []string{"d/a.po", "d/c.po", "d/zz.po", "d/q.po"} {
		for _, m := range [][]string{strs("-D", "d"), strs("-D", "d", "-f"), strs("-D", "./d/", "-o", "x.mo", "-f")} {
			ls = append(ls, layout{tool: "msgofmt", args: m, files: dirs, bad: n, modes: []outMode{{name: "directory"}}})
		}
	}
	um := outModes(".po")
	goodMo, _ := moText(cliMust(cliA), compile.BigEndian, false)
	mos := tree{"good.mo": goodMo}
	add("msgounfmt", um, mos, "bad.mo", "bad.mo")
	add("msgounfmt", um, mos, "bad.mo", "good.mo", "bad.mo")
	add("msgounfmt", um, mos, "bad.mo", "bad.mo", "good.mo", "-s")
	add("msgounfmt", um, mos, "bad.mo", "bad.mo", "--no-wrap", "--color=always")
	// merge
	mm := append(noForce(outModes(".po")),
		outMode{name: "update", args: strs("-U")},
		outMode{name: "update new", args: strs("-U", "-o", "out.po"), new: "out.po"},
		outMode{name: "update old", args: strs("-U", "-o", "out.po"), files: tree{"out.po": "old"}},
		outMode{name: "over def", args: strs("-o", "def.po")},
		outMode{name: "over ref", args: strs("-o", "ref.pot")})
	pair := tree{"def.po": cliA, "ref.pot": cliPot, "comp.po": cliBare}
	add("msgomerge", mm, pair, "def.po", "def.po", "ref.pot")
	add("msgomerge", mm, pair, "ref.pot", "def.po", "ref.pot")
	add("msgomerge", mm, pair, "bad.po", "def.po", "ref.pot", "-C", "bad.po")
	add("msgomerge", mm, pair, "bad.po", "def.po", "ref.pot", "-C", "comp.po", "-C", "bad.po", "-N")
	add("msgomerge", mm, pair, "bad.po", "-C", "bad.po,comp.po", "def.po", "ref.pot")
	add("msgomerge", mm, pair, "def.po", "def.po", "ref.pot", "-C", "comp.po")
	// concatenation
	cm := append(noForce(outModes(".po")), outMode{name: "over input", args: strs("-o", "good.po")})
	add("msgocat", cm, good, "bad.po", "bad.po")
	add("msgocat", cm, good, "bad.po", "good.po", "bad.po")
	add("msgocat", cm, good, "bad.po", "bad.po", "good.po")
	add("msgocat", cm, good, "bad.po", "good.po", "bad.po", "other.po", "-s")
	add("msgocat", cm, good.with("list", "good.po\nbad.po\n"), "bad.po", "-f", "list")
	add("msgocat", cm, good.with("list", "bad.po"), "bad.po", "good.po", "--files-from=list", "--use-first")
	add("msgocat", cm, good.with("d/ok.po", cliTriv, "d/z.po", cliB), "d/bad.po", "good.po", "-D", "d")
	add("msgocat", cm, good.with("d/ok.po", cliTriv, "d/z.po", cliB), "d/zz.po", "-D", "d")

	pc, mc := poCauses(), moCauses()
	type unit struct {
		l    layout
		c    cause
		m    outMode
		wrap bool
	}
	var us []unit
	for _, l := range ls {
		cs := pc
		if l.tool == "msgounfmt" {
			cs = mc
		}
		for _, c := range cs {
			if l.in && !c.hasIn {
				continue
			}
			if c.name == "below a file" && !contains(l.args, l.bad) {
				continue
			}
			if strings.Contains(l.bad, "/") && !contains(l.args, "bad.po") && (c.name == "missing" || c.name == "directory" && l.tool == "msgofmt") {
				continue // a directory is searched for what is there
			}
			for _, m := range l.modes {
				if m.name == "over input" && !contains(l.args, "good.po") {
					continue
				}
				for _, wrap := range []bool{false, true} {
					us = append(us, unit{l, c, m, wrap})
				}
			}
		}
	}
	r.Space("inputs", "every tool, every place of a bad input, every kind of bad input, every output form, directly and through the wrapper", int64(len(us)), func(w *W, i int64) error {
		u := us[i]
		files := u.l.files.clone()
		delete(files, u.l.bad)
		args := append([]string{}, u.l.args...)
		for k, v := range u.m.files {
			files[k] = v
		}
		stdin := ""
		switch {
		case u.l.in:
			stdin = u.c.stdin
		case u.c.name == "below a file":
			files[u.l.bad] = cliTriv
			for k := range args {
				if args[k] == u.l.bad {
					args[k] += "/x"
				}
			}
		default:
			for k, v := range u.c.files(u.l.bad) {
				files[k] = v
			}
		}
		if u.l.tool == "msgomerge" && (contains(u.m.args, u.l.bad) || u.m.name == "over def" || u.m.name == "over ref") {
			if files[u.l.bad] == "" {
				// naming a missing or unusable file as output as well
				files["keep"] = "x"
			}
		}
		new := u.m.new
		if contains(strs("d"), dirOf(args)) && new != "" {
			new = "d/" + new
		}
		outs := []string{}
		if new != "" {
			if _, there := files[new]; !there {
				outs = append(outs, new)
			}
		}
		args = append(args, u.m.args...)
		w.Desc("%s %v: %s is %s (%s)", u.l.tool, args, u.l.bad, u.c.name, u.m.name)
		w.State(w.desc)
		w.Trace()
		res, err := r.cliFail(w, cliJob{tool: u.l.tool, wrapper: u.wrap, args: args, files: files, stdin: stdin}, outs...)
		w.Outcome(res.err)
		return err
	})

	// Catalogs that are well formed but not valid.
	r.Space("invalid", "repeated messages within and across inputs for the compiler, every output form", prod(len(fm), 6, 2), func(w *W, i int64) error {
		d := Dec{i}
		m := fm[d.N(len(fm))]
		kind := d.N(6)
		wrap := d.B()
		files := tree{"good.po": cliTriv, "dup.po": cliDup, "more.po": "msgid \"x\"\nmsgstr \"again\"\n", "h.po": cliHead, "d/dup.po": cliDup, "d/a.po": cliTriv, "d/out.mo": "old"}
		for k, v := range m.files {
			files[k] = v
		}
		args := [][]string{strs("dup.po"), strs("good.po", "more.po"), strs("h.po", "dup.po"), strs("good.po", "good.po"), strs("-D", "d", "dup.po"), strs("h.po", "h.po")}[kind]
		new := m.new
		if kind == 4 && new != "" {
			new = "d/" + new
		}
		args = append(args, m.args...)
		w.Desc("msgofmt %v", args)
		w.State(w.desc)
		w.Trace()
		var outs []string
		if _, there := files[new]; new != "" && !there {
			outs = append(outs, new)
		}
		_, err := r.cliFail(w, cliJob{tool: "msgofmt", wrapper: wrap, args: args, files: files}, outs...)
		return err
	})
	menu := []cliCat{{"d/a.po", cliA}, {"d/bad.po", "msgid\n"}, {"d/c.po", cliBare}, {"d/c.mo", "old c"}, {"d/dup.po", cliDup}, {"d/z.po", cliTriv}, {"d/z.mo", "old z"}, {"d/a.mo", "old a"}}
	r.Space("directories", "all subsets of directory contents with malformed and invalid files and existing outputs, with and without force", int64(2)<<len(menu), func(w *W, i int64) error {
		d := Dec{i}
		force := d.B()
		files := tree{"d/": ""}
		var fail, exists bool
		for k, c := range menu {
			if d.i>>k&1 != 0 {
				files[c.name] = c.text
				fail = fail || c.name == "d/bad.po" || c.name == "d/dup.po"
			}
		}
		after := files.clone()
		for _, n := range strs("d/a", "d/c", "d/z") {
			if t, ok := files[n+".po"]; ok {
				_, e := files[n+".mo"]
				exists = exists || e
				b, err := moText(cliMust(t), compile.NativeEndian, true)
				if err != nil {
					return failf("library", "%v", err)
				}
				after[n+".mo"] = b
			}
		}
		j := cliJob{tool: "msgofmt", args: strs("-D", "d"), files: files}
		if force {
			j.args = append(j.args, "-f")
		}
		w.Desc("%v with %v", j.args, files)
		w.State(w.desc)
		w.Trace()
		if !fail && (force || !exists) {
			return r.cliOK(w, j, "", after)
		}
		// new files may have been written before an existing one was met
		var outs []string
		for _, n := range strs("d/a.mo", "d/c.mo", "d/z.mo") {
			if _, there := files[n]; !there && !fail {
				outs = append(outs, n)
			}
		}
		_, err := r.cliFail(w, j, outs...)
		return err
	})
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func dirOf(args []string) string {
	for k, a := range args {
		if a == "-D" && k+1 < len(args) {
			return args[k+1]
		}
	}
	return ""
}

func c24Cuts(r *Run) {
	texts := []string{cliA, cliLong, cliObs}
	type cut struct{ text, tool string }
	tools := []string{"msgofmt", "msgocat", "msgomerge", "msgomerge ref", "xgotext -x", "xgotext -j"}
	total := 0
	for _, t := range texts {
		total += len(t)
	}
	r.Space("cuts", "every truncation of PO texts as input of every tool that reads PO files; the library decides which are malformed", prod(total, len(tools)), func(w *W, i int64) error {
		d := Dec{i}
		tool := tools[d.N(len(tools))]
		at := d.N(total)
		if !r.Thorough && at%2 == 0 && (tool[0] == 'x' || tool == "msgomerge ref") {
			return nil
		}
		text := ""
		for _, t := range texts {
			if at < len(t) {
				text = t[:at]
				break
			}
			at -= len(t)
		}
		old := "# precious\n"
		files := tree{"cut.po": text, "ok.po": cliBare, "a.go": "package a\n"}
		var j cliJob
		opts := []parse.PoOption{}
		out := "out.po"
		switch tool {
		case "msgofmt":
			j.args = strs("cut.po", "-f", "-o", "out.po")
			opts = append(opts, parse.PoWithCleanDuplicates(false))
		case "msgocat":
			j.args = strs("cut.po", "ok.po", "-o", "out.po")
		case "msgomerge":
			j.args = strs("cut.po", "ok.po", "-U")
			out = "cut.po"
		case "msgomerge ref":
			j.args = strs("ok.po", "cut.po", "-o", "out.po")
		case "xgotext -x":
			j.args = strs("-x", "cut.po", "a.go", "-o", "out.po")
		case "xgotext -j":
			j.args = strs("-j", "a.go", "-o", "cut.po")
			out = "cut.po"
		}
		if out == "out.po" {
			files[out] = old
		}
		j.tool = strings.Fields(tool)[0]
		j.files = files
		w.Desc("%s %v on %q", j.tool, j.args, text)
		w.State(w.desc)
		w.Trace()
		_, bad := cliParse(text, opts...)
		if bad != nil {
			w.Outcome("malformed")
			_, err := r.cliFail(w, j)
			return err
		}
		res, err := r.cli(w, j)
		if err != nil {
			return err
		}
		if res.code != 0 {
			return failf("exit", "%s exits %d on a text the library accepts: %s", res.cmd, res.code, res.err)
		}
		if dd := res.tree.kept(files, out); dd != "" {
			return failf("destroyed", "%s: %s", res.cmd, dd)
		}
		return nil
	})
	var mos []string
	for _, o := range []compile.Endianness{compile.LittleEndian, compile.BigEndian} {
		b, _ := moText(cliMust(cliA), o, true)
		mos = append(mos, b)
	}
	n := len(mos[0])
	r.Space("mo-cuts", "every truncation and every flipped byte of an MO file, in both byte orders", prod(2, 2, n), func(w *W, i int64) error {
		d := Dec{i}
		b := []byte(mos[d.N(2)])
		flip := d.B()
		at := d.N(n)
		if flip {
			b[at] ^= 0xff
		} else {
			b = b[:at]
		}
		files := tree{"x.mo": string(b), "out.po": "# precious\n"}
		j := cliJob{tool: "msgounfmt", args: strs("x.mo", "-f", "-o", "out.po"), files: files}
		w.Desc("flip=%v at %d of %d", flip, at, n)
		w.State(w.desc)
		w.Trace()
		p := parse.NewMoFromBytes(b, "x.mo")
		f := p.Parse()
		if p.Error() != nil || f == nil || len(f.Validate()) > 0 {
			w.Outcome("damaged")
			_, err := r.cliFail(w, j)
			return err
		}
		res, err := r.cli(w, j)
		if err != nil {
			return err
		}
		if dd := res.tree.kept(files, "out.po"); dd != "" {
			return failf("destroyed", "%s: %s", res.cmd, dd)
		}
		if want, werr := poText(f.Entries, compile.PoWithWordWrap(true)); werr == nil {
			if res.code != 0 || res.tree["out.po"] != want {
				return failf("exit", "%s exits %d: %s %s", res.cmd, res.code, res.err, firstDiff(res.tree["out.po"], want))
			}
		}
		return nil
	})
}

func c24Options(r *Run) {
	goodMo, _ := moText(cliMust(cliA), compile.LittleEndian, true)
	files := tree{"a.po": cliA, "b.po": cliB, "t.pot": cliPot, "a.mo": goodMo, "a.go": "package a\n", "out": strings.Repeat("# precious\n", 100), "d/x.po": cliTriv, "e/": ""}
	type bad struct {
		tool string
		args []string
	}
	var bs []bad
	base := map[string][]string{
		"msgofmt": strs("a.po", "-o", "out"), "msgounfmt": strs("a.mo", "-o", "out"), "msgomerge": strs("a.po", "t.pot", "-o", "out"),
		"msgocat": strs("a.po", "b.po", "-o", "out"), "xgotext": strs("a.go", "-o", "out"),
	}
	for _, t := range strs("msgocat", "msgofmt", "msgomerge", "msgounfmt", "xgotext") {
		for _, extra := range [][]string{strs("--no-such-option"), strs("--no-such-option=1"), strs("-Q"), strs("-o"), strs("--color"), strs("---"), strs("--=x"), strs("-f-Q")} {
			if t == "msgofmt" && extra[0] == "--color" {
				extra = strs("--endianness")
			}
			if t == "msgomerge" && extra[0] == "-o" {
				extra = strs("-C")
			}
			if extra[0] == "-f-Q" && (t == "msgocat" || t == "xgotext") {
				extra = strs("-f", "no/such/list")
			}
			bs = append(bs, bad{t, append(append([]string{}, base[t]...), extra...)}, bad{t, append(strs("--bogus"), base[t]...)})
		}
	}
	add := func(tool string, args ...string) { bs = append(bs, bad{tool, args}) }
	add("msgofmt")
	add("msgofmt", "-f")
	add("msgofmt", "-o", "out", "-f")
	add("msgofmt", "--force=maybe", "a.po", "-o", "out")
	add("msgofmt", "--no-hash=2x", "a.po", "-f", "-o", "out")
	add("msgofmt", "-D", "missing")
	add("msgofmt", "-D", "a.po")
	add("msgofmt", "-D", "missing", "a.po", "-f", "-o", "../out")
	add("msgofmt", "-D", "e", "a.po", "-f", "-o", "../out")
	add("msgounfmt")
	add("msgounfmt", "-s", "-o", "out", "-f")
	add("msgounfmt", "a.mo", "--sort-output=perhaps", "-f", "-o", "out")
	for _, args := range [][]string{{}, {"a.po"}, {"a.po", "t.pot", "b.po"}, {"-U"}, {"-U", "a.po"}, {"-U", "a.po", "t.pot", "b.po"}, {"-D", "missing", "a.po", "t.pot"}, {"-D", "e", "a.po", "t.pot", "-U"}, {"-D", "d", "x.po", "t.pot", "-U"}, {"--update=often", "a.po", "t.pot"}} {
		add("msgomerge", args...)
		add("msgomerge", append(append([]string{}, args...), "-o", "out")...)
	}
	for _, args := range [][]string{
		{"--less-than=1", "a.po"}, {"--less-than=0", "a.po"}, {"-<", "1", "a.po", "b.po"}, {"--less-than=-1", "a.po"}, {"--less-than=two", "a.po"}, {"--more-than=-1", "a.po"}, {"--more-than=x", "a.po"}, {"--less-than=99999999999999999999", "a.po"},
		{"-u", "--less-than=3", "a.po"}, {"-u", "-<2", "a.po"}, {"--no-location", "--add-location=file", "a.po"}, {"-s", "-F", "a.po"}, {"--sort-output", "--sort-by-file", "a.po", "b.po"},
		{}, {"-s"}, {"-f", "missing", "a.po"}, {"-f", "d", "a.po"}, {"-f", "e", "-D", "d"}, {"-D", "missing"}, {"-D", "missing", "a.po"}, {"-D", "a.po"}, {"-D", "e"}, {"-f", "/dev/null"}, {"-f", "/dev/null", "-D", "e"}, {"-f", "-"},
	} {
		add("msgocat", args...)
		add("msgocat", append(append([]string{}, args...), "-o", "out")...)
		add("msgocat", append(strs("--output-file=out"), args...)...)
	}
	for _, args := range [][]string{
		{"-j", "a.go"}, {"-j", "a.go", "-p", "d"}, {"--nplurals=x", "a.go"}, {"--nplurals=-1", "a.go"}, {"-f", "missing"}, {"-f", "d", "a.go"}, {"missing.go"}, {"a.go", "missing.go"}, {"-x", "missing.po", "a.go"}, {"-x", "d", "a.go"},
		{"-D", "d", "a.go"}, {"-D", "missing", "a.go"}, {"a.go/"}, {"a.go/b"}, {"-n=maybe", "a.go"},
	} {
		add("xgotext", args...)
		if args[0] != "-j" {
			add("xgotext", append(append([]string{}, args...), "-o", "out")...)
			add("xgotext", append(append([]string{}, args...), "-o", "", "-d", "out")...)
		}
	}
	add("nosuchtool", "a.po")
	add("nosuchtool")
	r.Space("options", "a list of option and argument mistakes of every tool, directly and through the wrapper", int64(len(bs))*2, func(w *W, i int64) error {
		b := bs[i/2]
		wrap := i%2 == 1
		if b.tool == "nosuchtool" {
			wrap = true
		}
		w.Desc("%s %v", b.tool, b.args)
		w.State(w.desc)
		w.Trace()
		fs := files
		if contains(b.args, "") {
			fs = files.with("out.pot", "# precious\n")
		}
		res, err := r.cliFail(w, cliJob{tool: b.tool, wrapper: wrap, args: b.args, files: fs})
		w.Outcome(res.err)
		return err
	})
}

func c24Outputs(r *Run) {
	goodMo, _ := moText(cliMust(cliA), compile.LittleEndian, true)
	base := tree{"a.po": cliA, "b.po": cliBare, "t.pot": cliPot, "a.mo": goodMo, "a.go": c16Head + "var a = gotext.Get(\"A\")\n", "dir.po/keep": "x", "dir.mo/keep": "x"}
	type inv struct {
		tool string
		args []string
		ext  string
	}
	invs := []inv{
		{"msgofmt", strs("a.po"), ".mo"}, {"msgofmt", strs("b.po", "--no-hash"), ".mo"}, {"msgofmt", strs("--verbose", "a.po", "b.po"), ".mo"},
		{"msgounfmt", strs("a.mo"), ".po"}, {"msgounfmt", strs("-s", "a.mo", "--no-wrap"), ".po"},
		{"msgomerge", strs("a.po", "t.pot"), ".po"}, {"msgomerge", strs("a.po", "t.pot", "-N", "-C", "b.po"), ".po"}, {"msgomerge", strs("-U", "b.po", "t.pot"), ".po"},
		{"msgocat", strs("a.po", "b.po"), ".po"}, {"msgocat", strs("a.po", "-s", "--lang", "xx"), ".po"},
		{"xgotext", strs("a.go"), ".pot"}, {"xgotext", strs("-a", "a.go", "--omit-header"), ".pot"},
	}
	type fault struct {
		name string
		out  string // "" standard output
		full string
		make tree
		// a failure after output has begun may have touched this file
		touched string
	}
	faults := []fault{
		{name: "missing directory", out: "no/such/out"},
		{name: "below a file", out: "a.po/out"},
		{name: "directory", out: "dir.po"},
		{name: "directory with slash", out: "newdir/"},
		{name: "full device", out: "full", make: tree{"full": "link:/dev/full"}},
		{name: "dangling into nowhere", out: "dang", make: tree{"dang": "link:no/such/place"}},
		{name: "full stdout", full: "full"},
		{name: "unwritable stdout", full: "closed"},
		{name: "exists", out: "there", make: tree{"there": strings.Repeat("# precious\n", 200)}},
		{name: "exists empty", out: "there", make: tree{"there": ""}},
		{name: "exists linked", out: "there", make: tree{"there": "link:real", "real": "# precious\n"}},
		{name: "too long", out: strings.Repeat("n", 300)},
		{name: "loop", out: "loop", make: tree{"loop": "link:loop"}},
	}
	r.Space("outputs", "every tool, every output fault, with and without force, directly and through the wrapper", prod(len(invs), len(faults), 2, 2), func(w *W, i int64) error {
		d := Dec{i}
		v := invs[d.N(len(invs))]
		f := faults[d.N(len(faults))]
		force, wrap := d.B(), d.B()
		files := base.clone()
		for k, x := range f.make {
			files[k] = x
		}
		canForce := v.tool == "msgofmt" || v.tool == "msgounfmt"
		if force && !canForce || f.name == "directory with slash" && v.tool == "xgotext" {
			return nil
		}
		args := append([]string{}, v.args...)
		out := f.out
		if out == "" {
			out = "-"
		}
		args = append(args, "-o", out)
		if force {
			args = append(args, "-f")
		}
		var outs []string
		if contains(args, "-U") && (f.name == "full stdout" || f.name == "unwritable stdout" || f.name == "full device") {
			outs = append(outs, "b.po") // named for update
		}
		w.Desc("%s %v: %s", v.tool, args, f.name)
		w.State(w.desc)
		w.Trace()
		j := cliJob{tool: v.tool, wrapper: wrap, args: args, files: files, stdout: f.full}
		if strings.HasPrefix(f.name, "exists") && (force || !canForce) {
			// allowed: the named file is replaced, nothing else
			res, err := r.cli(w, j)
			if err != nil {
				return err
			}
			named := strs("there", "real")
			if contains(args, "-U") {
				named = append(named, "b.po")
			}
			if dd := res.tree.kept(files, named...); dd != "" || res.code != 0 {
				return failf("destroyed", "%s exits %d: %s %s", res.cmd, res.code, dd, res.err)
			}
			return nil
		}
		if f.full != "" && v.tool == "xgotext" && contains(v.args, "--omit-header") {
			// still some output: the message
			w.Outcome("short")
		}
		res, err := r.cliFail(w, j, outs...)
		w.Outcome(res.err)
		return err
	})
}

func c24Limits(r *Run) {
	goodMo, _ := moText(cliMust(cliA), compile.LittleEndian, true)
	base := tree{"a.po": cliA, "b.po": cliBare, "t.pot": cliPot, "a.mo": goodMo, "a.go": c16Head + "var a = gotext.Get(\"A\")\n"}
	type inv struct {
		tool string
		args []string
		out  string
	}
	invs := []inv{
		{"msgofmt", strs("a.po", "-o", "out"), "out"}, {"msgofmt", strs("a.po", "-f", "-o", "old"), "old"}, {"msgofmt", strs("a.po", "--no-hash", "-o", "-"), "stdout"}, {"msgofmt", strs("b.po", "--endianness=big"), "messages.mo"},
		{"msgounfmt", strs("a.mo", "-o", "out"), "out"}, {"msgounfmt", strs("a.mo", "-f", "-o", "old"), "old"}, {"msgounfmt", strs("a.mo", "-s"), "stdout"},
		{"msgomerge", strs("a.po", "t.pot", "-o", "out"), "out"}, {"msgomerge", strs("a.po", "t.pot", "-U"), "a.po"}, {"msgomerge", strs("a.po", "t.pot", "-N"), "stdout"}, {"msgomerge", strs("a.po", "t.pot", "-o", "t.pot"), "t.pot"},
		{"msgocat", strs("a.po", "b.po", "-o", "out"), "out"}, {"msgocat", strs("a.po", "b.po", "-o", "b.po"), "b.po"}, {"msgocat", strs("b.po", "a.po"), "stdout"},
		{"xgotext", strs("a.go", "-o", "out"), "out"}, {"xgotext", strs("a.go", "-j", "-o", "b.po"), "b.po"}, {"xgotext", strs("a.go"), "stdout"},
	}
	// sizes of the complete outputs
	full := make([]string, len(invs))
	job := func(v inv) cliJob {
		j := cliJob{tool: v.tool, args: v.args, files: base.clone()}
		if v.out == "old" {
			j.files["old"] = "# precious\n"
		}
		if v.out == "stdout" {
			j.stdout = "file"
		}
		return j
	}
	r.Space("whole-outputs", "the complete output of every run of the next space", int64(len(invs)), func(w *W, i int64) error {
		v := invs[i]
		w.Desc("%s %v", v.tool, v.args)
		w.State(w.desc)
		res, err := r.cli(w, job(v))
		if err != nil {
			return err
		}
		if res.code != 0 || res.tree[v.out] == "" {
			return failf("exit", "%s exits %d: %s", res.cmd, res.code, res.err)
		}
		full[i] = res.tree[v.out]
		return nil
	})
	var starts []int64
	total := int64(0)
	for i, f := range full {
		if f == "" {
			var b strings.Builder
			// replaying a single case: the sizes are still needed
			w := &W{r: r}
			if res, err := r.cli(w, job(invs[i])); err == nil {
				b.WriteString(res.tree[invs[i].out])
			}
			full[i] = b.String()
		}
		starts = append(starts, total)
		total += int64(len(full[i]) + 2)
	}
	r.Space("limits", "every tool writing to a file that can hold only so many bytes, for every number of bytes", total, func(w *W, i int64) error {
		k := len(starts) - 1
		for starts[k] > i {
			k--
		}
		v, at := invs[k], int(i-starts[k])
		j := job(v)
		j.limit = at + 1
		w.Desc("%s %v: at most %d of %d bytes", v.tool, v.args, at, len(full[k]))
		w.State(w.desc)
		w.Trace()
		if at >= len(full[k]) {
			res, err := r.cli(w, j)
			if err != nil {
				return err
			}
			if res.code != 0 || res.tree[v.out] != full[k] {
				return failf("exit", "%s exits %d: %s %s", w.desc, res.code, res.err, firstDiff(res.tree[v.out], full[k]))
			}
			return nil
		}
		res, err := r.cliFail(w, j, v.out)
		if err != nil {
			return err
		}
		if got := res.tree[v.out]; !strings.HasPrefix(full[k], got) && got != j.files[v.out] {
			return failf("prefix", "%s: what was written is no prefix of the output: %s", w.desc, firstDiff(got, full[k]))
		}
		return nil
	})
}

func c24Xgotext(r *Run) {
	good := c16Head + "var a = gotext.Get(\"A\")\n"
	badGo := []cliCat{
		{"syntax", "package x\nfunc {\n"}, {"empty", ""}, {"no package", "import \"fmt\"\n"}, {"literal", c16Head + "var a = gotext.Get(\"A)\n"}, {"late", good + "func f() { return\n"}, {"po", cliA}, {"binary", "\x00\xff\xfe"}, {"missing", ""}, {"directory", ""},
	}
	layouts := [][]string{
		strs("BAD"), strs("good.go", "BAD"), strs("BAD", "good.go"), strs("-"), strs("good.go", "-"), strs("-f", "list"), strs("good.go", "-f", "list"), strs("tree"), strs("-D", "tree", "bad.go"), strs("-D", "tree", "-f", "listd"), strs("-a", "BAD"), strs("-j", "BAD"), strs("-x", "ex.po", "good.go", "BAD"),
	}
	old := cliBare
	modes := []outMode{
		{"stdout", strs("-o", "-"), nil, ""}, {"old", strs("-o", "out.pot"), tree{"out.pot": old}, ""}, {"new", strs("-o", "out.pot"), nil, "out.pot"},
		{"default old", strs("-o", ""), tree{"messages.pot": old}, ""}, {"domain old", strs("-o", "", "-d", "dom"), tree{"dom.pot": old}, ""}, {"dir old", strs("-p", "po", "-o", "out.pot"), tree{"po/out.pot": old}, ""},
		{"dir domain", strs("-p", "po", "-o", "", "--default-domain=x"), tree{"po/x.pot": old}, ""}, {"over input", strs("-o", "good.go"), nil, ""},
	}
	r.Space("xgotext-inputs", "every place of a bad Go input, every kind, every output form", prod(len(badGo), len(layouts), len(modes)), func(w *W, i int64) error {
		d := Dec{i}
		b, l, m := badGo[d.N(len(badGo))], layouts[d.N(len(layouts))], modes[d.N(len(modes))]
		if l[0] == "-j" && m.name == "stdout" {
			return nil
		}
		files := tree{"good.go": good, "ex.po": cliTriv, "list": "good.go\nbad.go\n", "tree/a.go": good, "listd": "a.go\nbad.go"}
		for k, v := range m.files {
			files[k] = v
		}
		stdin := ""
		fromIn := contains(l, "-")
		at := "bad.go"
		if strings.Contains(strings.Join(l, " "), "tree") {
			at = "tree/bad.go"
		}
		switch {
		case fromIn:
			if b.name == "missing" || b.name == "directory" {
				return nil
			}
			stdin = b.text
		case b.name == "missing":
			if l[0] == "tree" {
				return nil
			}
		case b.name == "directory":
			files[at+"/in.go"] = "package x\nfunc {\n"
		default:
			files[at] = b.text
		}
		var args []string
		for _, a := range l {
			if a == "BAD" {
				a = "bad.go"
			}
			args = append(args, a)
		}
		args = append(args, m.args...)
		var outs []string
		if m.new != "" {
			outs = append(outs, m.new)
		}
		w.Desc("xgotext %v: %s", args, b.name)
		w.State(w.desc)
		w.Trace()
		res, err := r.cliFail(w, cliJob{tool: "xgotext", args: args, files: files, stdin: stdin}, outs...)
		w.Outcome(res.err)
		return err
	})
	pc := poCauses()
	r.Space("xgotext-po", "every kind of bad exclude file and of bad existing file to join, every output form", prod(len(pc), 3, len(modes)-1), func(w *W, i int64) error {
		d := Dec{i}
		c, how, m := pc[d.N(len(pc))], d.N(3), modes[d.N(len(modes)-1)]
		files := tree{"good.go": good}
		args := strs("good.go")
		for k, v := range m.files {
			files[k] = v
		}
		var outs []string
		switch how {
		case 0, 1: // the exclude file
			p := "ex.po"
			args = append(args, "-x", p)
			if c.name == "below a file" {
				args = strs("good.go", "--exclude-file=good.go/x")
			} else {
				for k, v := range c.files(p) {
					files[k] = v
				}
			}
			if m.new != "" {
				outs = append(outs, m.new)
			}
			if how == 1 {
				if m.name == "stdout" {
					return nil
				}
				args = append(args, "-j")
			}
		case 2: // the existing file
			args = append(args, "-j")
			if c.name == "missing" || c.name == "below a file" || m.name == "stdout" || m.name == "new" {
				return nil
			}
			for k := range m.files {
				delete(files, k)
				for k2, v := range c.files(k) {
					files[k2] = v
				}
			}
		}
		args = append(args, m.args...)
		w.Desc("xgotext %v: %s", args, c.name)
		w.State(w.desc)
		w.Trace()
		res, err := r.cliFail(w, cliJob{tool: "xgotext", args: args, files: files}, outs...)
		w.Outcome(res.err)
		return err
	})
	outFaults := [][2]string{{"", "no/such/out.pot"}, {"no", "out.pot"}, {"no", ""}, {"good.go", "out.pot"}, {"", "tree"}, {"tree", "sub"}, {"tree", ""}, {"", "good.go/x"}, {"", "full"}, {"tree", "full"}}
	r.Space("xgotext-outputs", "every output fault of xgotext with output directories and domains, with and without joining", prod(len(outFaults), 2, 2), func(w *W, i int64) error {
		d := Dec{i}
		f, join, all := outFaults[d.N(len(outFaults))], d.B(), d.B()
		files := tree{"good.go": good, "tree/sub/a.go": good, "tree/messages.pot/keep": "x", "full": "link:/dev/full", "tree/full": "link:/dev/full"}
		args := strs("good.go", "-o", f[1])
		if f[0] != "" {
			args = append(args, "-p", f[0])
		}
		if join {
			if f[1] == "full" {
				return nil // reading it never ends
			}
			args = append(args, "-j")
		}
		if all {
			args = append(args, "-a")
		}
		w.Desc("xgotext %v", args)
		w.State(w.desc)
		w.Trace()
		_, err := r.cliFail(w, cliJob{tool: "xgotext", args: args, files: files})
		return err
	})
}

func c24Docs(r *Run) {
	cases := [][]string{
		strs("docs", "markdown", "-c", "nothing", "-o", "old"), strs("docs", "man", "-c", "nothing", "-o", "old"), strs("docs", "markdown", "-c", "nothing"), strs("docs", "man", "-c", "", "-o", "old"),
		strs("docs", "markdown", "-c", "msgofmt", "-o", "no/such/file"), strs("docs", "man", "-c", "msgofmt", "-o", "d"), strs("docs", "markdown", "extra", "-c", "msgofmt", "-o", "old"), strs("docs", "markdown", "-c", "msgofmt", "-o", "old", "--bogus"),
		strs("nosuch"), strs("--bogus"),
	}
	r.Space("docs", "mistakes in generating documentation", int64(len(cases)), func(w *W, i int64) error {
		w.Desc("%v", cases[i])
		w.State(w.desc)
		w.Trace()
		c := cases[i]
		_, err := r.cliFail(w, cliJob{tool: c[0], wrapper: true, args: c[1:], files: tree{"old": "precious\n", "d/keep": "x"}})
		return err
	})
}
