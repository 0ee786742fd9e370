// C23: the command-line tools preserve catalogs through merge, compile and decompile.
package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C23"] = propDef{
		level: "model_checking",
		notes: []string{
			"every case is one or more runs of the built tools in a fresh directory; standard output, exit status and the whole directory are compared",
			"oracle: the library operation on the same texts, and for compile/decompile also the independent PO and MO readers; that the library is right is decided by C01-C22",
			"with -U the merge result may also appear on standard output or in the file named with -o; a compendium adds its messages to the template",
			"msgofmt -D without files names each output after its input",
		},
		run: runC23,
	}
}

// The texts the tools run on.
const (
	cliHead = "msgid \"\"\nmsgstr \"\"\n\"Project-Id-Version: p\\n\"\n\"Language: es\\n\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n"
	cliA    = cliHead + `# translator
#. extracted
#: a.go:1 b.go:22
#, go-format
msgctxt "menu"
msgid "open file"
msgstr "abrir"

#: a.go:2
msgid "one apple"
msgid_plural "%d apples"
msgstr[0] "una manzana"
msgstr[1] "%d manzanas"

#, fuzzy
#| msgid "old"
msgid "guess work"
msgstr "tal vez"

msgid "zebra\nline two\n"
msgstr "cebra\nlinea dos\n"

msgid "untranslated"
msgstr ""

#~ msgid "gone"
#~ msgstr "ido"
`
	cliB = cliHead + `#: b.go:3
msgid "open file"
msgstr "abrir archivo"

#: b.go:1
msgctxt "menu"
msgid "open file"
msgstr "Abrir"

#: c.go:9
msgid "one apple"
msgid_plural "%d apples"
msgstr[0] "manzana"
msgstr[1] "manzanas"

msgid "ünïcode \\ \"q\" \t"
msgstr "日本語 \a"
`
	cliPot = `#, fuzzy
msgid ""
msgstr ""
"Project-Id-Version: PACKAGE\n"
"Language: \n"

#. note
#: new.go:10
msgctxt "menu"
msgid "open file"
msgstr ""

#: new.go:20
msgid "one apple"
msgid_plural "%d apples"
msgstr[0] ""
msgstr[1] ""

#: a.go:5 new.go:4
msgid "untranslated!"
msgstr ""

#: q.go:1
#, go-format
msgid "brand new %d"
msgstr ""
`
	cliBare = "msgid \"solo\"\nmsgstr \"solo es\"\n\nmsgid \"apple\"\nmsgstr \"pomme\"\n"
	cliLong = "msgid \"\"\nmsgstr \"Language: de\\n\"\n\n#: l.go:7\nmsgid \"long one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen\"\nmsgstr \"\"\n\"first\\n\"\n\"second long long long long long long long long long long long long long long long long long\\n\"\n\"third\"\n"
	cliObs  = "#~ msgid \"gone\"\n#~ msgstr \"weg\"\n\n#, fuzzy\nmsgid \"maybe\"\nmsgstr \"vielleicht\"\n"
	cliHdr  = "# Title of it\n#\n# second\n#. from the code\n#: h.go:3 i.go:4\n#, fuzzy, no-wrap\n#| msgid \"was\"\nmsgid \"\"\nmsgstr \"\"\n\"Language: qq\\n\"\n\"X-Own: a: b\\n\"\n\n# c\nmsgid \"A\"\nmsgstr \"AB\"\n\n#~ msgid \"apple\"\n#~ msgstr \"Apfel\"\n"
	cliTriv = "msgid \"x\"\nmsgstr \"y\"\n"
	cliDup  = "msgid \"x\"\nmsgstr \"y\"\n\nmsgid \"z\"\nmsgstr \"1\"\n\nmsgid \"x\"\nmsgstr \"other\"\n"
)

type cliCat struct{ name, text string }

var cliCats = []cliCat{{"a.po", cliA}, {"b.po", cliB}, {"t.pot", cliPot}, {"bare.po", cliBare}, {"long.po", cliLong}, {"obs.po", cliObs}, {"triv.po", cliTriv}, {"empty.po", ""}, {"hdr.po", cliHdr}}

func cliParse(text string, opts ...parse.PoOption) (ents, error) {
	p := parse.NewPoFromString(text, "in.po", opts...)
	f := p.Parse()
	if errs := p.Errors(); len(errs) > 0 {
		return nil, errs[0]
	}
	return f.Entries, nil
}

func cliMust(text string, opts ...parse.PoOption) ents {
	es, err := cliParse(text, opts...)
	if err != nil {
		panic(fmt.Sprint(err, text))
	}
	return es
}

// poText is the PO output of the tools.
func poText(es ents, opts ...compile.PoOption) (string, error) {
	var b strings.Builder
	err := compile.PoToWriter(es, &b, opts...)
	return b.String(), err
}

func moText(es ents, order compile.Endianness, hash bool) (string, error) {
	var b strings.Builder
	err := compile.MoToWriter(es, &b, compile.MoWithEndianness(order), compile.MoWithHashTable(hash))
	return b.String(), err
}

// locFlag is a way of choosing the location comments.
type locFlag struct {
	args []string
	opts []compile.PoOption
}

var locFlags = []locFlag{
	{nil, nil},
	{strs("--no-location"), []compile.PoOption{compile.PoWithNoLocation(true)}},
	{strs("--add-location=file"), []compile.PoOption{compile.PoWithAddLocation(compile.PoLocationModeFile)}},
	{strs("--add-location=never"), []compile.PoOption{compile.PoWithAddLocation(compile.PoLocationModeNever)}},
	{strs("--add-location", "full"), nil},
}

// inputs gives the files of a catalog list and the arguments that name them; one may be standard input.
func cliInputs(idx []int, stdin int) (files tree, args []string, in string) {
	files = tree{}
	for k, j := range idx {
		c := cliCats[j]
		if k == stdin {
			args = append(args, "-")
			in = c.text
			continue
		}
		files[c.name] = c.text
		args = append(args, c.name)
	}
	return
}

// flagSets gives all subsets of a list of flags.
func flagsOf(d *Dec, flags ...string) (on map[string]bool, args []string) {
	on = map[string]bool{}
	for _, f := range flags {
		if d.B() {
			on[f] = true
			args = append(args, f)
		}
	}
	return
}

var orders = map[string]compile.Endianness{"": compile.NativeEndian, "native": compile.NativeEndian, "little": compile.LittleEndian, "big": compile.BigEndian}

func runC23(r *Run) {
	c23Fmt(r)
	c23Unfmt(r)
	c23Merge(r)
	c23Cat(r)
	c23Large(r)
}

func c23Fmt(r *Run) {
	ends := []string{"", "native", "little", "big"}
	outs := []string{"", "out.mo", "-", "sub/out.mo", "force", "stdout-force"}
	nc := len(cliCats)
	// one input, or two, either of them standard input
	nin := nc*2 + nc*nc*3
	r.Space("msgofmt", "one or two inputs, either of them standard input, every output form, byte order, hash table, verbosity", prod(nin, len(outs), len(ends), 2, 2, 2), func(w *W, i int64) error {
		d := Dec{i}
		in := d.N(nin)
		var idx []int
		stdin := -1
		if in < nc*2 {
			idx = []int{in / 2}
			stdin = in%2 - 1
		} else {
			in -= nc * 2
			idx = []int{in / 3 / nc, in / 3 % nc}
			stdin = in%3 - 1
		}
		out := outs[d.N(len(outs))]
		end := ends[d.N(len(ends))]
		on, flags := flagsOf(&d, "--no-hash", "--verbose")
		wrap := d.B()
		if len(idx) == 2 && !r.Thorough && (on["--verbose"] || wrap != on["--no-hash"] || i%3 != 0 && out != "out.mo") {
			return nil
		}
		files, args, input := cliInputs(idx, stdin)
		if end != "" {
			flags = append(flags, "--endianness", end)
		}
		after := files.clone()
		target := out
		switch out {
		case "":
			target = "messages.mo"
		case "sub/out.mo":
			files["sub/"] = ""
			flags = append(flags, "-o", out)
		case "force":
			target = "out.mo"
			files["out.mo"] = strings.Repeat("old", 2000)
			flags = append(flags, "--output-file=out.mo", "-f")
		case "stdout-force":
			target = "-"
			flags = append(flags, "-f", "-o-")
		default:
			flags = append(flags, "-o", out)
		}
		j := cliJob{tool: "msgofmt", wrapper: wrap, args: append(flags, args...), stdin: input, files: files}
		w.Desc("%v on %v", j.args, idx)
		w.State(w.desc)
		w.Trace()
		var all ents
		for _, k := range idx {
			all = append(all, cliMust(cliCats[k].text, parse.PoWithCleanDuplicates(false))...)
		}
		if len(all.Validate()) > 0 {
			_, err := r.cliFail(w, j)
			w.Outcome("invalid")
			return err
		}
		want, err := moText(all, orders[end], !on["--no-hash"])
		if err != nil {
			return failf("library", "%v", err)
		}
		// the bytes, independently
		bo := refOrder(orders[end])
		m, err := readRefMo([]byte(want), bo)
		if err != nil {
			return err
		}
		if len(moImage(all, true, true)) != m.n || m.hashSize > 0 == on["--no-hash"] && m.n > 0 {
			return failf("library", "%d messages, hash table of %d", m.n, m.hashSize)
		}
		w.Outcome(want)
		if target == "-" {
			return r.cliOK(w, j, want, after)
		}
		if out == "sub/out.mo" {
			after["sub/"] = ""
		}
		after[target] = want
		return r.cliOK(w, j, "", after)
	})

	// Whole directories.
	menu := []cliCat{{"d/a.po", cliA}, {"d/b.po", cliB}, {"d/sub.po/in.po", cliBare}, {"d/deep/c.po", cliBare}, {"d/t.pot", cliPot}, {"d/UPPER.PO", cliTriv}, {"d/noext", "junk"}, {"d/x.po.bak", "junk"}, {"d/a.b.po", cliTriv}, {"d/old.mo", "old"}, {"d/z.po", cliObs}}
	r.Space("msgofmt-directory", "all subsets of a menu of directory contents, with force and the form of the directory name", int64(1)<<len(menu)*prod(2, 2, 3), func(w *W, i int64) error {
		d := Dec{i}
		files := tree{"d/": ""}
		after := tree{"d/": ""}
		force, slash := d.B(), d.B()
		end := []string{"", "big", "little"}[d.N(3)]
		if !r.Thorough && (slash != force || end != []string{"", "big", "little"}[d.i%3]) {
			return nil
		}
		for k, c := range menu {
			if d.i>>k&1 != 0 {
				files[c.name] = c.text
				after[c.name] = c.text
				if strings.HasSuffix(c.name, ".po") && strings.Count(c.name, "/") == 1 {
					b, err := moText(cliMust(c.text, parse.PoWithCleanDuplicates(false)), orders[end], true)
					if err != nil {
						return failf("library", "%v", err)
					}
					after[strings.TrimSuffix(c.name, ".po")+".mo"] = b
				}
			}
		}
		args := strs("-D", "d")
		if slash {
			args = strs("--directory=./d/")
		}
		if force {
			args = append(args, "--force")
			if _, ok := files["d/a.po"]; ok {
				files["d/a.mo"] = strings.Repeat("old", 3000)
			}
		}
		if end != "" {
			args = append(args, "--endianness="+end)
		}
		w.Desc("%v %v", args, files)
		w.State(w.desc)
		w.Trace()
		return r.cliOK(w, cliJob{tool: "msgofmt", args: args, files: files}, "", after)
	})
	r.Space("msgofmt-directory-args", "files named relative to a directory, standard input before, between and after them, every output form", prod(nc, 5, 4, 2), func(w *W, i int64) error {
		d := Dec{i}
		c := cliCats[d.N(nc)]
		kind, out, force := d.N(5), []string{"", "o.mo", "-", "../o.mo"}[d.N(4)], d.B()
		files := tree{"d/" + c.name: c.text, "d/extra.po": "msgid \"extra\"\nmsgstr \"e\"\n", "d/other.po": cliTriv, "extra.po": "junk\n"}
		args := strs("-D", "d", c.name)
		all := cliMust(c.text, parse.PoWithCleanDuplicates(false))
		stdin := ""
		extra := cliMust(files["d/extra.po"])
		switch kind {
		case 1:
			args = append(args, "extra.po")
			all = append(all, extra...)
		case 2:
			args = append(args, "-")
			stdin = files["d/extra.po"]
			all = append(all, extra...)
		case 3:
			args = strs("-D", "d", "-", c.name)
			stdin = files["d/extra.po"]
			all = append(extra, all...)
		case 4:
			args = strs("-D", "d", "extra.po", "-", c.name)
			stdin = "msgid \"input\"\nmsgstr \"i\"\n"
			all = append(append(extra, cliMust(stdin)...), all...)
		}
		target := "d/messages.mo"
		switch out {
		case "o.mo":
			target = "d/o.mo"
		case "../o.mo":
			target = "o.mo"
		case "-":
			target = "-"
		}
		if out != "" {
			args = append(args, "-o", out)
		}
		if force {
			args = append(args, "-f")
		}
		w.Desc("%v", args)
		w.State(w.desc)
		w.Trace()
		want, err := moText(all, compile.NativeEndian, true)
		if err != nil {
			return failf("library", "%v", err)
		}
		after := files.clone()
		if force && target != "-" {
			files[target] = "old"
		}
		j := cliJob{tool: "msgofmt", args: args, files: files, stdin: stdin}
		if target == "-" {
			return r.cliOK(w, j, want, after)
		}
		after[target] = want
		return r.cliOK(w, j, "", after)
	})
}

func c23Unfmt(r *Run) {
	nc := len(cliCats)
	var mos []string
	var cats []ents
	for _, c := range cliCats {
		es := cliMust(c.text)
		cats = append(cats, es)
		for _, o := range []compile.Endianness{compile.LittleEndian, compile.BigEndian} {
			for _, h := range []bool{true, false} {
				b, err := moText(es, o, h)
				if err != nil {
					panic(err)
				}
				mos = append(mos, b)
			}
		}
	}
	outs := []string{"", "-", "out.po", "force", "sub/out.po"}
	nin := nc*4*2 + nc*nc*3
	r.Space("msgounfmt", "one or two inputs in every byte order, either of them standard input, every output form and flag", prod(nin, len(outs), 2, 2, 3, 2), func(w *W, i int64) error {
		d := Dec{i}
		in := d.N(nin)
		var bin []string
		var src []int
		stdin := -1
		if in < nc*8 {
			bin = []string{mos[in/2]}
			src = []int{in / 8}
			stdin = in%2 - 1
		} else {
			in -= nc * 8
			src = []int{in / 3 / nc, in / 3 % nc}
			bin = []string{mos[4*src[0]+in%4], mos[4*src[1]+(in/3)%4]}
			stdin = in%3 - 1
		}
		out := outs[d.N(len(outs))]
		on, flags := flagsOf(&d, "-s", "--no-wrap")
		color := []string{"", "always", "never"}[d.N(3)]
		wrap := d.B()
		if len(bin) == 2 && !r.Thorough && (wrap || color != "" || i%2 != 0) {
			return nil
		}
		files := tree{}
		var args []string
		input := ""
		var all ents
		for k, b := range bin {
			if k == stdin {
				args = append(args, "-")
				input = b
			} else {
				n := fmt.Sprintf("f%d.mo", k)
				files[n] = b
				args = append(args, n)
			}
			p := parse.NewMoFromBytes([]byte(b), "in.mo")
			f := p.Parse()
			if p.Error() != nil {
				return failf("library", "%v", p.Error())
			}
			all = append(all, f.Entries...)
			_ = src
		}
		if color != "" {
			flags = append(flags, "--color="+color)
		}
		if on["-s"] {
			all = all.SortFunc(po.CompareEntryByID)
		}
		after := files.clone()
		opts := []compile.PoOption{compile.PoWithWordWrap(!on["--no-wrap"])}
		target := ""
		switch out {
		case "":
		case "-":
			flags = append(flags, "-o", "-")
		case "force":
			target = "out.po"
			files[target] = strings.Repeat("old\n", 5000)
			flags = append(flags, "-f", "-o", target)
		case "sub/out.po":
			files["sub/"], after["sub/"] = "", ""
			target = out
			flags = append(flags, "--output="+out)
		default:
			target = out
			flags = append(flags, "-o", out)
		}
		j := cliJob{tool: "msgounfmt", wrapper: wrap, args: append(flags, args...), files: files, stdin: input}
		w.Desc("%v on %v", j.args, src)
		w.State(w.desc)
		w.Trace()
		want, err := poText(all, opts...)
		if err != nil {
			_, err := r.cliFail(w, j)
			w.Outcome("error")
			return err
		}
		w.Outcome(want)
		if len(bin) == 1 {
			// the text says what the catalog's live messages say
			doc := refParse(want, "~")
			if doc.malformed != "" {
				return failf("library", "output is malformed: %s", doc.malformed)
			}
			img := moImage(cats[src[0]], true, true)
			if on["-s"] {
				got := append(ents{}, doc.entries...)
				sort.SliceStable(got, func(a, b int) bool { return refUID(got[a]) < refUID(got[b]) })
				doc.entries = got
			}
			if err := sameEntries("chain", "messages of the decompiled text", doc.entries, img); err != nil {
				return err
			}
		}
		if target == "" {
			return r.cliOK(w, j, want, after)
		}
		after[target] = want
		return r.cliOK(w, j, "", after)
	})
	// Errors of the data that may be skipped.
	r.Space("msgounfmt-ignore-errors", "MO files with repeated and unsorted messages, with and without ignoring errors", 8, func(w *W, i int64) error {
		d := Dec{i}
		ignore, dup, file := d.B(), d.B(), d.B()
		es := ents{{ID: "b", Str: "1"}, {ID: "a", Str: "2"}}
		if dup {
			es = append(es, ent{ID: "b", Str: "3"})
		}
		var b strings.Builder
		if err := compile.MoToWriter(es, &b, compile.MoWithDepureEntries(false), compile.MoWithSortEntries(false), compile.MoWithEndianness(compile.LittleEndian)); err != nil {
			return failf("library", "%v", err)
		}
		m, err := readRefMo([]byte(b.String()), binary.LittleEndian)
		if err != nil || m.n != len(es) {
			return failf("library", "%v", err)
		}
		files := tree{"x.mo": b.String()}
		args := strs("x.mo")
		if ignore {
			args = append(args, "--ignore-errors")
		}
		if file {
			args = append(args, "-o", "x.po")
		}
		w.Desc("%v dup=%v", args, dup)
		w.State(w.desc)
		w.Trace()
		j := cliJob{tool: "msgounfmt", args: args, files: files}
		if dup && !ignore {
			_, err := r.cliFail(w, j)
			return err
		}
		want, err := poText(es)
		if err != nil {
			return nil // the PO compiler refuses repeated messages
		}
		if file {
			return r.cliOK(w, j, "", files.with("x.po", want))
		}
		return r.cliOK(w, j, want, files)
	})
}

func c23Merge(r *Run) {
	nc := len(cliCats)
	modes := []string{"stdout", "-o -", "-o new", "-o old", "-U", "-U -o new", "-D", "-D -U", "-o def", "-o ref"}
	comps := [][]int{nil, {1}, {3, 5}, {6, 6}, {0, 4}}
	r.Space("msgomerge", "all pairs of catalogs, output modes, compendia, locations and flags", prod(nc, nc, len(modes), len(comps), len(locFlags), 2, 2, 2, 2), func(w *W, i int64) error {
		d := Dec{i}
		di, ri := d.N(nc), d.N(nc)
		mode := modes[d.N(len(modes))]
		ci := d.N(len(comps))
		li := d.N(len(locFlags))
		on, flags := flagsOf(&d, "-N", "--no-wrap")
		always, wrap := d.B(), d.B()
		if !r.Thorough {
			// every pair of settings with the plain ones of the others
			odd := 0
			for _, b := range []bool{ci > 0, li > 0, on["--no-wrap"] || always || wrap} {
				if b {
					odd++
				}
			}
			if odd > 1 || always != wrap || odd == 1 && on["-N"] || ci > 0 && mode[0] == '-' && mode[1] == 'o' {
				return nil
			}
		}
		def, ref := cliCats[di], cliCats[ri]
		files := tree{"def.po": def.text, "ref.pot": ref.text, "bystander.po": "junk"}
		tmpl := cliMust(ref.text)
		for k, c := range comps[ci] {
			n := fmt.Sprintf([]string{"comp%d.po", "sub/comp%d.po", "sub/deep/comp%d.po"}[(di+k)%3], k)
			files[n] = cliCats[c].text
			if k == 0 {
				flags = append(flags, "-C", n)
			} else {
				flags = append(flags, "--compendium="+n)
			}
			tmpl = append(tmpl, cliMust(cliCats[c].text)...)
		}
		if len(comps[ci]) > 0 {
			tmpl = tmpl.Solve()
		}
		res := po.Merge(cliMust(def.text), tmpl, po.MergeWithFuzzyMatch(!on["-N"]), po.MergeWithSort(true))
		flags = append(flags, locFlags[li].args...)
		if always {
			flags = append(flags, "--color", "always", "--force-po")
		}
		opts := append([]compile.PoOption{compile.PoWithWordWrap(!on["--no-wrap"])}, locFlags[li].opts...)
		want, err := poText(res, opts...)
		if err != nil {
			return failf("library", "%v", err)
		}
		args := append(flags, "def.po", "ref.pot")
		if strings.HasPrefix(mode, "-D") {
			moved := tree{}
			for k, v := range files {
				moved["d/"+k] = v
			}
			files = moved
			args = append(args, "-D", "d")
		}
		after := files.clone()
		out := want
		switch mode {
		case "-o -":
			args = append(args, "-o", "-")
		case "-o new", "-U -o new":
			args = append(args, "-o", "new.po")
			after["new.po"] = want
			out = ""
		case "-o old":
			files["new.po"] = strings.Repeat("x", 50000)
			args = append(args, "--output-file=new.po")
			after["new.po"] = want
			out = ""
		case "-o def":
			args = append(args, "-o", "def.po")
			after["def.po"] = want
			out = ""
		case "-o ref":
			args = append(args, "-o", "./ref.pot")
			after["ref.pot"] = want
			out = ""
		}
		if strings.Contains(mode, "-U") {
			args = append(args, "-U")
			if strings.Contains(mode, "-D") {
				after["d/def.po"] = want
			} else {
				after["def.po"] = want
			}
			out = "\x00"
		}
		w.Desc("msgomerge %v on %s %s", args, def.name, ref.name)
		w.State(w.desc)
		w.Outcome(want)
		w.Trace()
		j := cliJob{tool: "msgomerge", wrapper: wrap, args: args, files: files}
		if err := r.cliOK(w, j, out, after); err != nil {
			return err
		}
		if strings.Contains(mode, "-U") && !strings.Contains(mode, "new") {
			// updating again changes nothing more than the library does
			j.files = after
			again, err := poText(po.Merge(cliMust(want), tmpl, po.MergeWithFuzzyMatch(!on["-N"]), po.MergeWithSort(true)), opts...)
			if err != nil {
				return failf("library", "%v", err)
			}
			name := "def.po"
			if strings.Contains(mode, "-D") {
				name = "d/def.po"
			}
			return r.cliOK(w, j, "\x00", after.with(name, again))
		}
		return nil
	})
}

func c23Cat(r *Run) {
	nc := len(cliCats)
	sel := [][]string{nil, strs("-u"), strs("--less-than=2"), strs("--less-than", "3"), strs("--more-than=1"), strs("->", "1", "-<", "3"), strs("->1"), strs("--unique", "--more-than=0")}
	selOf := func(k int) (less, more uint) {
		less = math.MaxUint
		switch k {
		case 1, 2, 7:
			less = 2
		case 3:
			less = 3
		case 4, 6:
			more = 1
		case 5:
			more, less = 1, 3
		}
		return
	}
	sorts := []string{"", "-s", "-F", "--sort-output", "--sort-by-file"}
	langs := []string{"", "xx", "de_DE.UTF-8@euro"}
	run := func(w *W, files tree, list []string, texts map[string]string, j cliJob, si, so, li, lf int, first, nowrap bool, target string) error {
		j.files = files
		args := append([]string{}, j.args...)
		args = append(args, sel[si]...)
		if sorts[so] != "" {
			args = append(args, sorts[so])
		}
		if langs[li] != "" {
			args = append(args, "--lang", langs[li])
		}
		args = append(args, locFlags[lf].args...)
		if first {
			args = append(args, "--use-first")
		}
		if nowrap {
			args = append(args, "--no-wrap")
		}
		after := files.clone()
		switch target {
		case "new":
			args = append(args, "-o", "out.po")
		case "old":
			files["out.po"] = strings.Repeat("junk", 9999)
			args = append(args, "--output-file=out.po")
		case "-":
			args = append(args, "-o", "-")
		}
		j.args = args
		w.Desc("msgocat %v: %v", args, list)
		w.State(w.desc)
		w.Trace()
		var fs []*po.File
		for _, n := range list {
			// a list item is "name as given=catalog"
			name, cat, _ := strings.Cut(n, "=")
			es := cliMust(texts[cat])
			n = name
			fs = append(fs, &po.File{Name: n, Entries: es})
		}
		less, more := selOf(si)
		res := po.MsgcatMergeFiles(fs, po.MsgcatMergeWithLessThan(less), po.MsgcatMergeWithMoreThan(more), po.MsgcatMergeWithUseFirst(first))
		if langs[li] != "" {
			for k := range res {
				if isHeader(res[k]) {
					h := res.HeaderFromIndex(k)
					h.Set("Language", langs[li])
					res[k].Str = h.ToEntry().Str
				}
			}
		}
		switch sorts[so] {
		case "-s", "--sort-output":
			res = res.Sort()
		case "-F", "--sort-by-file":
			res = res.SortFunc(po.CompareEntryByFile)
		}
		opts := append([]compile.PoOption{compile.PoWithWordWrap(!nowrap)}, locFlags[lf].opts...)
		want, err := poText(res, opts...)
		if err != nil {
			return failf("library", "%v", err)
		}
		w.Outcome(want)
		switch target {
		case "new", "old":
			return r.cliOK(w, j, "", after.with("out.po", want))
		}
		return r.cliOK(w, j, want, after)
	}
	texts := map[string]string{}
	for _, c := range cliCats {
		texts[c.name] = c.text
	}
	targets := []string{"", "-", "new", "old"}
	// One to three inputs, plain settings.
	n := 3
	r.Space("msgocat-inputs", "all lists of one to three inputs, any of them standard input, every output form", seqCount(nc, n)*prod(n+1, len(targets), 2), func(w *W, i int64) error {
		d := Dec{i}
		stdin := d.N(n+1) - 1
		target := targets[d.N(len(targets))]
		wrap := d.B()
		idx := seqAt(nc, d.i)
		if len(idx) == 0 || stdin >= len(idx) || wrap && len(idx) != 2 || len(idx) == 3 && !r.Thorough && (target != targets[(idx[0]+idx[1]+idx[2])%4] || idx[2]%2 == 0) {
			return nil
		}
		files := tree{}
		j := cliJob{tool: "msgocat", wrapper: wrap}
		var list []string
		for k, x := range idx {
			if k == stdin {
				j.args = append(j.args, "-")
				j.stdin = cliCats[x].text
				list = append(list, "-="+cliCats[x].name)
			} else {
				files[cliCats[x].name] = cliCats[x].text
				j.args = append(j.args, cliCats[x].name)
				list = append(list, cliCats[x].name+"="+cliCats[x].name)
			}
		}
		return run(w, files, list, texts, j, 0, 0, 0, 0, false, false, target)
	})
	lists := [][]int{{0, 1}, {0, 2, 1}, {1, 4}, {3, 5, 6}, {4}, {0, 0}, {2, 0, 0}, {8}, {8, 0}, {3, 8}}
	r.Space("msgocat-options", "all combinations of selection, sorting, language, location, use-first and wrapping over lists of catalogs", prod(len(sel), len(sorts), len(langs), len(locFlags), 2, 2, len(lists)), func(w *W, i int64) error {
		d := Dec{i}
		si, so, li, lf, first, nowrap := d.N(len(sel)), d.N(len(sorts)), d.N(len(langs)), d.N(len(locFlags)), d.B(), d.B()
		li_ := d.N(len(lists))
		if !r.Thorough && (li_*7+si+so+li+lf)%3 != 0 && si*lf*so > 0 {
			return nil
		}
		files := tree{}
		j := cliJob{tool: "msgocat"}
		var list []string
		for _, x := range lists[li_] {
			files[cliCats[x].name] = cliCats[x].text
			j.args = append(j.args, cliCats[x].name)
			list = append(list, cliCats[x].name+"="+cliCats[x].name)
		}
		return run(w, files, list, texts, j, si, so, li, lf, first, nowrap, "")
	})
	nm := 40
	r.Space("msgocat-many", "up to 40 inputs as arguments, in a list, in a directory or divided among them, each with a message of its own and one that all have", prod(nm, 4, 2), func(w *W, i int64) error {
		d := Dec{i}
		n, how, sorted := d.N(nm)+1, d.N(4), d.B()
		files, many := tree{}, map[string]string{}
		j := cliJob{tool: "msgocat"}
		var args, lines, dir []string
		for k := 0; k < n; k++ {
			name := fmt.Sprintf("f%02d.po", k)
			many[name] = fmt.Sprintf("#: s.go:%d\nmsgid \"shared\"\nmsgstr \"all\"\n\nmsgid \"own %d\"\nmsgstr \"T%d\"\n", k, k, k)
			at := how
			if how == 3 {
				at = k % 3
			}
			switch at {
			case 0:
				files[name] = many[name]
				args = append(args, name)
			case 1:
				files[name] = many[name]
				lines = append(lines, name)
			case 2:
				files["d/"+name] = many[name]
				dir = append(dir, name)
			}
		}
		var list []string
		for _, a := range append(append([]string{}, args...), lines...) {
			list = append(list, a+"="+a)
		}
		for _, a := range dir {
			list = append(list, "d/"+a+"="+a)
		}
		j.args = args
		if len(lines) > 0 {
			files["list"] = strings.Join(lines, "\n")
			j.args = append(j.args, "-f", "list")
		}
		if len(dir) > 0 {
			files["d/"] = ""
			j.args = append(j.args, "-D", "d")
		}
		so := 0
		if sorted {
			so = 1
		}
		return run(w, files, list, many, j, 0, so, 0, 0, false, false, "")
	})
	r.Space("msgocat-lists", "inputs from arguments, a list file or standard input, and a directory, in all combinations", prod(3, 4, 5, 5, 2), func(w *W, i int64) error {
		d := Dec{i}
		na, from, kind, dir := d.N(3), d.N(4), d.N(5), d.N(5)
		stdinArg := d.B()
		files := tree{}
		j := cliJob{tool: "msgocat"}
		var list []string
		for k := 0; k < na; k++ {
			files[cliCats[k].name] = cliCats[k].text
			if k == 1 && stdinArg {
				j.stdin = cliCats[k].text
				j.args = append(j.args, "-")
				list = append(list, "-="+cliCats[k].name)
			} else {
				j.args = append(j.args, cliCats[k].name)
				list = append(list, cliCats[k].name+"="+cliCats[k].name)
			}
		}
		// the list
		var lines []string
		switch kind {
		case 1:
			lines = strs("in/long.po")
		case 2:
			lines = strs("in/long.po", "", "in/triv.po", "in/long.po")
		case 3:
			lines = strs("", "")
		case 4:
			lines = strs("in/#triv.po", "-triv.po", "in/ triv.po", "#long.po")
		}
		for _, l := range lines {
			if l != "" {
				n := strings.TrimLeft(strings.TrimPrefix(l, "in/"), "#- ")
				files[l] = texts[n]
				list = append(list, l+"="+n)
			}
		}
		text := strings.Join(lines, "\n")
		switch from {
		case 0:
			if kind != 0 {
				return nil
			}
		case 1:
			files["list"] = text
			j.args = append(j.args, "-f", "list")
		case 2:
			files["list"] = text + "\n"
			j.args = append(j.args, "--files-from=list")
		case 3:
			if stdinArg && na > 1 {
				return nil
			}
			j.stdin = text
			j.args = append(j.args, "--files-from", "-")
		}
		add := func(names ...string) {
			for _, n := range names {
				files["d/"+n] = texts[n]
				list = append(list, "d/"+n+"="+n)
			}
		}
		if dir > 0 {
			files["d/"] = ""
			j.args = append(j.args, "-D", []string{"", "d", "d/", "./d", "d"}[dir])
			switch dir {
			case 1:
				add("bare.po")
			case 2:
				add("bare.po", "obs.po", "t.pot")
			case 3:
				add("empty.po")
			}
		}
		if len(list) == 0 {
			j.files = files
			w.Desc("msgocat %v", j.args)
			w.State(w.desc)
			_, err := r.cliFail(w, j)
			return err
		}
		return run(w, files, list, texts, j, 0, 0, 0, 0, false, false, "")
	})
}

// c23Large runs every tool on large catalogs.
func c23Large(r *Run) {
	large(r, "msgofmt, msgounfmt, msgomerge and msgocat", 257, 1025, 4, func(w *W, cat ents, k int) error {
		text, err := poText(cat)
		if err != nil {
			return failf("library", "%v", err)
		}
		cat = cliMust(text)
		w.Trace()
		must := func(s string, err error) string {
			if err != nil {
				panic(err)
			}
			return s
		}
		switch k {
		case 0:
			mo := must(moText(cat, compile.NativeEndian, true))
			files := tree{"a.po": text}
			return r.cliOK(w, cliJob{tool: "msgofmt", args: strs("a.po", "-o", "a.mo"), files: files}, "", files.with("a.mo", mo))
		case 1:
			files := tree{"a.mo": must(moText(cat, compile.LittleEndian, true))}
			f, err := parse.MoFromBytes([]byte(files["a.mo"]), "a.mo")
			if err != nil {
				return failf("library", "%v", err)
			}
			return r.cliOK(w, cliJob{tool: "msgounfmt", args: strs("a.mo", "-o", "b.po"), files: files}, "", files.with("b.po", must(poText(f.Entries, compile.PoWithWordWrap(true)))))
		case 2:
			pot := must(poText(bigTemplate(cat)))
			files := tree{"a.po": text, "a.pot": pot}
			want := must(poText(po.Merge(cliMust(text), cliMust(pot), po.MergeWithSort(true)), compile.PoWithWordWrap(true)))
			return r.cliOK(w, cliJob{tool: "msgomerge", args: strs("a.po", "a.pot", "-o", "o.po"), files: files}, "", files.with("o.po", want))
		default:
			a, b := bigParts(cat)
			files := tree{"a.po": must(poText(a)), "b.po": must(poText(b))}
			res := po.MsgcatMergeFiles([]*po.File{{Name: "a.po", Entries: cliMust(files["a.po"])}, {Name: "b.po", Entries: cliMust(files["b.po"])}})
			return r.cliOK(w, cliJob{tool: "msgocat", args: strs("a.po", "b.po", "-o", "o.po"), files: files}, "", files.with("o.po", must(poText(res, compile.PoWithWordWrap(true)))))
		}
	})
}
