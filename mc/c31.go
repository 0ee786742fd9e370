// C31: what rejects an input names it and the place in it.
package main

import (
	"bytes"
	"fmt"
	"go/scanner"
	"io"
	"log"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"

	goast "go/parser"
	"go/token"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C31"] = propDef{
		level: "model_checking",
		notes: []string{
			"oracle: an automaton of the PO grammar over tokens with places, for the live and the obsolete entries of a document apart; a place is right if it is that of the first token with which one of the two cannot go on (or of the plural form it is in), of the first text that is no token, or, for a document that only ends too early, behind its last token",
			"Go sources: the place go/parser gives",
			"the message is free otherwise",
		},
		run: runC31,
	}
}

type placeTok struct {
	kind      string
	line, col int
	num       string
}

// placeLex gives the tokens of the live and the obsolete entries, and where text is no token (line 0: nowhere).
func placeLex(doc string) (toks, bad [2][]placeTok) {
	for n, line := range strings.Split(doc, "\n") {
		v, t := 0, line
		tok := func(kind string, size int) {
			p := placeTok{kind: kind, line: n + 1, col: 1 + utf8.RuneCountInString(line) - utf8.RuneCountInString(t), num: t[:size]}
			if kind == "bad" {
				bad[v] = append(bad[v], p)
				size = len(t)
			} else {
				toks[v] = append(toks[v], p)
			}
			t = t[size:]
		}
		for {
			t = strings.TrimLeft(t, " \t\r\f\v")
			if t == "" {
				break
			}
			if strings.HasPrefix(t, "#~") && v == 0 {
				v, t = 1, strings.TrimLeft(t[2:], " ")
				if strings.HasPrefix(t, "|") {
					break
				}
				continue
			}
			if t[0] == '#' {
				break
			}
			digits := 0
			for digits < len(t) && t[digits] >= '0' && t[digits] <= '9' {
				digits++
			}
			switch {
			case strings.HasPrefix(t, "msgid_plural"):
				tok("msgid_plural", 12)
			case strings.HasPrefix(t, "msgid"):
				tok("msgid", 5)
			case strings.HasPrefix(t, "msgstr"):
				tok("msgstr", 6)
			case strings.HasPrefix(t, "msgctxt"):
				tok("msgctxt", 7)
			case t[0] == '[' || t[0] == ']':
				tok(t[:1], 1)
			case digits > 0:
				tok("num", digits)
			case t[0] == '"':
				if _, rest, ok := refString(t); ok {
					tok("str", len(t)-len(rest))
				} else {
					tok("bad", 0)
				}
			default:
				tok("bad", 0)
			}
		}
	}
	return
}

// placeNext is the grammar: states by what came last.
var placeNext = map[string]map[string]string{
	"":   {"msgctxt": "c", "msgid": "i"},
	"c":  {"str": "c1"},
	"c1": {"str": "c1", "msgid": "i"},
	"i":  {"str": "i1"},
	"i1": {"str": "i1", "msgstr": "s", "msgid_plural": "p"},
	"s":  {"str": "s1"},
	"s1": {"str": "s1", "msgctxt": "c", "msgid": "i"},
	"p":  {"str": "p1"},
	"p1": {"str": "p1", "msgstr": "f"},
	"f":  {"[": "f["},
	"f[": {"num": "f0"},
	"f0": {"]": "f]"},
	"f]": {"str": "f1"},
	"f1": {"str": "f1", "msgstr": "f", "msgctxt": "c", "msgid": "i"},
}

func inForm(st string) bool { return st != "" && st[0] == 'f' && st != "f1" }

// placeDead is the first token that cannot follow, and where its plural form begins; early: none, but the end comes too early.
func placeDead(toks []placeTok) (dead, begin *placeTok, early bool) {
	st := ""
	for i, t := range toks {
		to, ok := placeNext[st][t.kind]
		if ok && t.kind == "num" {
			_, err := strconv.Atoi(t.num)
			ok = err == nil
		}
		if st == "p1" && t.kind == "msgstr" || st == "f1" && t.kind == "msgstr" {
			begin = &toks[i]
		}
		if !ok {
			if !inForm(st) {
				begin = nil
			}
			return &toks[i], begin, false
		}
		st = to
	}
	if !inForm(st) {
		begin = nil
	}
	return nil, begin, st != "" && st != "s1" && st != "f1"
}

// places are the places an error of the document may name, and the line behind which it ends early (-1: it does not).
func places(doc string) (at map[[2]int]bool, end int) {
	at, end = map[[2]int]bool{}, -1
	toks, bad := placeLex(doc)
	for v := range toks {
		if len(bad[v]) > 0 {
			at[[2]int{bad[v][0].line, bad[v][0].col}] = true
		}
		dead, begin, early := placeDead(toks[v])
		if begin != nil {
			at[[2]int{begin.line, begin.col}] = true
		}
		if dead != nil {
			at[[2]int{dead.line, dead.col}] = true
		} else if early {
			if l := toks[v][len(toks[v])-1].line; end < 0 || l < end {
				end = l
			}
		}
	}
	for n, l := range strings.Split(doc, "\n") {
		if i := strings.Index(l, "#:"); i >= 0 && strings.Contains(l, c31Big) {
			at[[2]int{n + 1, i + 1}] = true
		}
	}
	return
}

const c31Go = "package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nvar x = gotext.Get(\"ok\")\n"

const c31Big = "99999999999999999999"

var c31Place = regexp.MustCompile(`^:(\d+)(?::(\d+))?:`)

// placed checks that a message names the document and a right place in it.
func placed(msg, name, doc string) error {
	at, end := places(doc)
	_, rest, ok := strings.Cut(msg, name)
	if !ok {
		return failf("no-name", "the error does not name %q: %s\n%s", name, msg, doc)
	}
	m := c31Place.FindStringSubmatch(rest)
	if m == nil {
		if end >= 0 && strings.Contains(rest, "end of the file") {
			return nil
		}
		return failf("no-place", "the error names no place: %s\n%s", msg, doc)
	}
	line, _ := strconv.Atoi(m[1])
	col, _ := strconv.Atoi(m[2])
	if at[[2]int{line, col}] {
		return nil
	}
	if end >= 0 && line > end && line <= strings.Count(doc, "\n")+3 {
		return nil
	}
	var right []string
	for p := range at {
		right = append(right, fmt.Sprintf("%d:%d", p[0], p[1]))
	}
	return failf("place", "the error is at %d:%d, right is %v, or after line %d if not -1: %s\n%s", line, col, right, end, msg, doc)
}

func c31Doc(w *W, name, doc string) error {
	p := parse.NewPoFromString(doc, name)
	p.Parse()
	w.Trans(1)
	w.Trace()
	if len(p.Errors()) == 0 {
		w.Outcome("accepted")
		return nil
	}
	w.Outcome("rejected")
	for _, err := range p.Errors() {
		if err := placed(err.Error(), name, doc); err != nil {
			return err
		}
	}
	return nil
}

type namedReader struct {
	io.Reader
	name string
}

func (n namedReader) Name() string { return n.name }

func runC31(r *Run) {
	lines := append(append([]string{}, c03Lines...), "#: f.go:"+c31Big, `msgstr[`+c31Big+`] "x"`, `#~ foo`, `#~ "\q"`, `é`, ` #~  msgstr`, `# c msgid`, "\t#~ msgid \"ä\" x", `#~ "cut`)
	names := strs("in.po", "some dir/cät.po", "a%sb%d%!.po", "C:\\x.po")
	nl := 3
	if r.Thorough {
		nl = 4
	}
	seps := strs("\n", "\r\n", "\n\n", "\n \t")
	if r.Thorough {
		seps = seps[:2]
	}
	r.Space("lines", "all documents of up to the bound of lines over an alphabet of well-formed, cut, stray and obsolete lines, several line ends and indentations", prod(len(seps))*seqCount(len(lines), nl), func(w *W, i int64) error {
		d := &Dec{i}
		sep := seps[d.N(len(seps))]
		name := names[int(d.i)%len(names)]
		var ls []string
		for _, k := range seqAt(len(lines), d.i) {
			ls = append(ls, lines[k])
		}
		doc := strings.Join(ls, sep)
		w.Desc("%q", doc)
		w.State(doc)
		return c31Doc(w, name, doc)
	})
	cl := 5
	if r.Thorough {
		cl = 6
	}
	r.Space("core lines", "all documents of up to the bound of lines over the core line alphabet", seqCount(c03Core, cl), func(w *W, i int64) error {
		doc := joinLines(seqAt(c03Core, i), "\n", "\n")
		w.Desc("%q", doc)
		w.State(doc)
		return c31Doc(w, "b.po", doc)
	})

	// One or two faults anywhere in a catalog with everything.
	full := strings.Split(strings.TrimSuffix(c03Style{eol: "\n", final: true, blanks: 1, joinLoc: true, joinFlag: true}.doc(ents{
		{Str: "Language: es\n", Comments: strs("title")},
		{ID: "one", Str: "uno", Locations: locs{{Line: 1, File: "a.go"}}, Flags: strs("fuzzy")},
		{ID: "two", Context: "ctx", Plural: "twos", Plurals: pes{{ID: 0, Str: "dos"}, {ID: 1, Str: "dosés"}}, ExtractedComments: strs("note")},
		{ID: "gone", Str: "ido", Obsolete: true, Comments: strs("old")},
		{ID: "gone2", Context: "c", Plural: "gones", Plurals: pes{{ID: 0, Str: "ido2"}, {ID: 1, Str: "idos"}}, Obsolete: true},
	}), "\n"), "\n")
	text := strings.Join(full, "\n")
	ins := strs(`"`, "x", "\\", "\n", "é", "#", "~", "]", "msgid", " ", "[", "7")
	n := len(text)
	edit := func(t string, at, kind int) string {
		if at >= len(t) {
			return t
		}
		switch {
		case kind == 0:
			return t[:at] + t[at+1:]
		case kind == 1:
			return t[:at]
		default:
			return t[:at] + ins[kind-2] + t[at:]
		}
	}
	kinds := 2 + len(ins)
	r.Space("edits", "every deletion and insertion at every byte of a complete catalog, and every cut", prod(n, kinds), func(w *W, i int64) error {
		d := &Dec{i}
		at, k := d.N(n), d.N(kinds)
		doc := edit(text, at, k)
		w.Desc("edit %d at byte %d", k, at)
		w.State(doc)
		return c31Doc(w, "x/full.po", doc)
	})
	lk := 2 + len(lines)
	ledit := func(ls []string, at, k int) []string {
		if at >= len(ls) {
			return ls
		}
		out := append([]string{}, ls[:at]...)
		switch {
		case k == 0:
			return append(out, ls[at+1:]...)
		case k == 1:
			return append(append(out, ls[at], ls[at]), ls[at+1:]...)
		default:
			return append(append(out, lines[k-2]), ls[at:]...)
		}
	}
	r.Space("two line edits", "every pair of line deletions, repetitions and insertions in a complete catalog", prod(len(full), lk, len(full), lk), func(w *W, i int64) error {
		d := &Dec{i}
		a, ka, b, kb := d.N(len(full)), d.N(lk), d.N(len(full)), d.N(lk)
		doc := strings.Join(ledit(ledit(full, a, ka), b, kb), "\n")
		w.Desc("edits %d at line %d, %d at line %d", ka, a+1, kb, b+1)
		w.State(doc)
		return c31Doc(w, "full.po", doc)
	})

	// MO data have no lines: the file must be named.
	mo, err := moText(richPool(), compile.LittleEndian, true)
	if err != nil {
		panic(err)
	}
	r.Space("MO", "every cut and every byte of a catalog set to one of four values", prod(len(mo), 5), func(w *W, i int64) error {
		d := &Dec{i}
		k, at := d.N(5), d.N(len(mo))
		b := []byte(mo)
		if k == 0 {
			b = b[:at]
		} else {
			b[at] = [...]byte{0, 0, 1, 0x7f, 0xff}[k]
		}
		name := names[at%len(names)]
		w.Desc("byte %d, change %d", at, k)
		w.State(w.desc)
		p := parse.NewMoFromBytes(b, name)
		p.Parse()
		w.Trans(1)
		w.Trace()
		for _, err := range p.Errors() {
			if !strings.Contains(err.Error(), name) {
				return failf("no-name", "the error does not name %q: %v", name, err)
			}
		}
		return nil
	})

	// Streams that have a name of their own.
	badDocs := []string{"msgid \"a\"\n", "msgid \"a\"\nmsgstr \"b\n", "junk", "#~ msgid \"a\"\n", "\xde\x12\x04\x95", "package x\nfunc {\n"}
	own := filepath.Join(r.Scratch, "own-name")
	for k, t := range badDocs {
		os.WriteFile(fmt.Sprintf("%s%d", own, k), []byte(t), 0o644)
	}
	r.Space("streams", "every kind of malformed input, from every kind of stream, under every name, by every reader", prod(len(badDocs), 4, 5, len(names)), func(w *W, i int64) error {
		d := &Dec{i}
		k, how, reader := d.N(len(badDocs)), d.N(4), d.N(5)
		name := names[d.i]
		ownName := fmt.Sprintf("%s%d", own, k)
		fd, err := syscall.Open(ownName, syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
		if err != nil {
			return failf("open", "%v", err)
		}
		fname := ownName
		if reader > 2 {
			fname = name // given as a file
		}
		f := os.NewFile(uintptr(fd), fname)
		defer f.Close()
		var in io.Reader = f
		switch how {
		case 1:
			in = strings.NewReader(badDocs[k])
		case 2:
			in = namedReader{strings.NewReader(badDocs[k]), ownName}
		case 3:
			in = io.LimitReader(f, 1000)
		}
		w.Desc("%q as %q, stream %d, reader %d", badDocs[k], name, how, reader)
		w.State(w.desc)
		w.Trans(1)
		w.Trace()
		var got error
		switch reader {
		case 0:
			_, got = parse.PoFromReader(in, name)
		case 1:
			_, got = parse.MoFromReader(in, name)
		case 2:
			_, got = goparse.FromReader(in, name)
		case 3:
			_, got = parse.PoFromFile(f)
		case 4:
			_, got = goparse.FromFile(f)
		}
		if got == nil {
			return failf("accepted", "no error")
		}
		if !strings.Contains(got.Error(), name) {
			return failf("no-name", "the error does not name %q: %v", name, got)
		}
		if strings.Contains(got.Error(), ownName) {
			return failf("other-name", "the error names %q, which was not given: %v", ownName, got)
		}
		return nil
	})

	// Files by every spelling of their path.
	if err := os.MkdirAll(filepath.Join(r.Scratch, "p", "sub dir"), 0o755); err != nil {
		panic(err)
	}
	for k, t := range badDocs {
		os.WriteFile(filepath.Join(r.Scratch, "p", fmt.Sprintf("b%d.go", k)), []byte(t), 0o644)
	}
	rel, _ := filepath.Rel(func() string { d, _ := os.Getwd(); return d }(), r.Scratch)
	spell := strs(r.Scratch+"/p/", rel+"/p/", "./"+rel+"/p/", r.Scratch+"/p//", r.Scratch+"/./p/./", r.Scratch+"/p/sub dir/../", r.Scratch+"//p/")
	r.Space("paths", "every kind of malformed file, by every spelling of its path, by every reader of files", prod(len(badDocs), len(spell), 6), func(w *W, i int64) error {
		d := &Dec{i}
		k, p, reader := d.N(len(badDocs)), spell[d.N(len(spell))], d.N(6)
		path := fmt.Sprintf("%sb%d.go", p, k)
		w.Desc("%q reader %d", path, reader)
		w.State(w.desc)
		w.Trans(1)
		w.Trace()
		var got error
		switch reader {
		case 0:
			_, got = parse.Po(path)
		case 1:
			_, got = parse.Mo(path)
		case 2:
			_, got = goparse.FromPath(path)
		case 3, 4, 5:
			f, err := os.Open(path)
			if err != nil {
				return failf("open", "%v", err)
			}
			defer f.Close()
			switch reader {
			case 3:
				_, got = parse.PoFromFile(f)
			case 4:
				_, got = parse.MoFromFile(f)
			default:
				_, got = goparse.FromFile(f)
			}
		}
		if got == nil {
			return failf("accepted", "no error")
		}
		if !strings.Contains(got.Error(), path) {
			return failf("no-name", "the error does not name %q: %v", path, got)
		}
		return nil
	})

	// Catalogs that are read but not valid.
	r.Space("validation", "all sequences of up to four messages, three of which are not valid by themselves", seqCount(6, 4), func(w *W, i int64) error {
		pool := ents{{ID: "a", Str: "x"}, {ID: "b", Str: "y"}, {ID: "a", Context: "c"}, {ID: "a", Plural: "as", Str: "s"}, {ID: "b", Str: "s", Plurals: pes{{ID: 0, Str: "z"}}}, {ID: "a", Str: "x2"}}
		var es ents
		for _, k := range seqAt(6, i) {
			es = append(es, pool[k])
		}
		name := names[int(i)%len(names)]
		f := po.NewFile(name, es...)
		w.Desc("%v", es)
		w.State(w.desc)
		w.Trans(2)
		w.Trace()
		seen := map[[2]string]bool{}
		invalid := false
		for _, e := range es {
			invalid = invalid || seen[uid(e)]
			seen[uid(e)] = true
		}
		for k, errs := range [][]error{f.CatchDuplicateEntries(), f.Validate()} {
			if invalid && len(errs) == 0 {
				return failf("unnoticed", "repeated messages are not reported")
			}
			for _, err := range errs {
				if s := err.Error(); !strings.Contains(s, strconv.Quote(name)) || k == 1 && !strings.Contains(s, `a" is`) && !strings.Contains(s, `b" is`) {
					return failf("no-name", "the error does not name the file %q and the message: %v", name, err)
				}
			}
		}
		return nil
	})

	// Go sources: alone and behind others.
	src := "package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\n// é\nfunc f(n int) string {\n\tif n > 1 {\n\t\treturn gotext.GetN(\"a\", `as\n`, n)\n\t}\n\treturn gotext.Get(\"b\")\n}\n"
	gins := strs("", "(", "}", "\"", "é", "\n", "`", "func", "'")
	r.Space("Go sources", "every insertion and cut at every byte of a source, alone, before and after another one", prod(len(src), len(gins)+1, 3), func(w *W, i int64) error {
		d := &Dec{i}
		at, k, pos := d.N(len(src)), d.N(len(gins)+1), d.N(3)
		text := src[:at]
		if k > 0 {
			text = src[:at] + gins[k-1] + src[at:]
		}
		name := names[at%len(names)]
		name = strings.TrimSuffix(name, ".po") + ".go"
		w.Desc("insertion %d at byte %d, place %d", k, at, pos)
		w.State(w.desc)
		w.Trans(1)
		w.Trace()
		_, perr := goast.ParseFile(token.NewFileSet(), name, text, 0)
		p, err := goparse.NewParserFromBytes([]byte(text), name)
		if err == nil && p.Error() == nil {
			if perr != nil {
				return failf("unnoticed", "source with error %v is accepted", perr)
			}
			return nil
		}
		if perr == nil {
			return failf("rejected", "well-formed source is rejected: %v", err)
		}
		if err == nil {
			err = p.Error()
		}
		place := perr.(scanner.ErrorList)[0].Pos.String()
		if !strings.Contains(err.Error(), place+":") {
			return failf("place", "the error does not name %s: %v", place, err)
		}
		return nil
	})
	// Calls extraction skips.
	calls := strs(`gotext.Get(1)`, `gotext.Get()`, `gotext.GetN("a")`, `gotext.GetC("a", 'c')`, `gotext.GetN("a", 2, n)`, `gotext.Get("fine")`, "gotext.Get(`fi\nne`)", `f("é")`, `gotext.GetNDC("d", "a", "as",
		n, 1.5)`, ``)
	r.Space("skipped calls", "all sequences of up to four calls, half of which cannot be extracted, on one line or several", prod(2, 2)*seqCount(len(calls), 4), func(w *W, i int64) error {
		d := &Dec{i}
		all, oneLine := d.B(), d.B()
		sep := "\n\t"
		if oneLine {
			sep = "; "
		}
		src, want := "package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nfunc g(n int) {\n\t", map[string]bool{}
		name := names[int(d.i)%3]
		for _, k := range seqAt(len(calls), d.i) {
			line := 1 + strings.Count(src, "\n")
			switch k {
			case 0, 1, 2, 3, 4:
				want[fmt.Sprintf("%s:%d:", name, line)] = true
			case 8: // the call, or the argument
				want[fmt.Sprintf("%s:%d:", name, line+1)] = true
			}
			src += calls[k] + sep
		}
		src += "\n}\n"
		w.Desc("extract all %v:\n%s", all, src)
		w.State(w.desc)
		w.Trans(1)
		w.Trace()
		var lb bytes.Buffer
		p, err := goparse.NewParserFromString(src, name, goparse.WithLogger(log.New(&lb, "", 0)), goparse.WithExtractAll(all))
		if err != nil {
			return failf("source", "%v", err)
		}
		p.Parse()
		got := map[string]bool{}
		for _, l := range strings.Split(strings.TrimSpace(lb.String()), "\n") {
			if !strings.Contains(l, "ERROR") {
				continue
			}
			found := false
			for pl := range want {
				if strings.Contains(l, pl) {
					got[pl], found = true, true
				}
			}
			if !found {
				return failf("place", "the log names none of the places %v of calls that cannot be extracted: %s", want, l)
			}
		}
		if len(got) != len(want) {
			return failf("silent", "the log names %v of %v:\n%s", got, want, lb.String())
		}
		return nil
	})
	c31Tools(r)
	large(r, "with a line that does not belong there at the beginning, in the middle and at the end", 257, 1025, 3*len(seps), func(w *W, cat ents, k int) error {
		text, err := writePo(cat)
		if err != nil {
			return err
		}
		ls := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
		at := []int{0, len(ls) / 2, len(ls)}[k%3]
		ls = append(append(append([]string{}, ls[:at]...), `msgfoo "bar"`), ls[at:]...)
		return c31Doc(w, "big.po", strings.Join(ls, seps[k/3]))
	})
}

// c31Tools runs every tool with a bad input at every place.
func c31Tools(r *Run) {
	type bad struct {
		name string
		text string // "-" missing, "/" a directory
		at   string // expected behind the name
	}
	pos := []bad{
		{"missing", "-", ""}, {"directory", "/", ""},
		{"junk", cliA + "\njunk\n", fmt.Sprintf(":%d:1", strings.Count(cliA, "\n")+2)},
		{"order", "msgid \"a\"\nmsgstr \"b\"\n\n# c\nmsgstr \"d\"\n", ":5:1"},
		{"escape", "msgid \"a\"\nmsgstr \"\\q\"\n", ":2:8"},
		{"obsolete", "msgid \"a\"\nmsgstr \"b\"\n\n# c\n#~ msgid \"o\"\n#~ junk\n", ":6:4"},
		{"obsolete order", "#~ msgid \"o\"\n\nmsgid \"a\"\nmsgstr \"b\"\n#~ msgid \"p\"\n", ":5:4"},
		{"end", "msgid \"a\"\n", ":"},
		{"context at the end", "msgid \"a\"\nmsgstr \"b\"\nmsgctxt \"c\"", ": msgctxt"},
		{"reference", "#. x\n#: f.go:" + c31Big + "\nmsgid \"a\"\nmsgstr \"b\"\n", ":2:1"},
		{"form", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[x] \"c\"\n", ":3:8"},
	}
	good, err := moText(cliMust(cliA), compile.BigEndian, false)
	if err != nil {
		panic(err)
	}
	var dup strings.Builder
	compile.MoToWriter(ents{{ID: "b", Str: "1"}, {ID: "b", Str: "3"}}, &dup, compile.MoWithDepureEntries(false), compile.MoWithSortEntries(false))
	mos := []bad{{"missing", "-", ""}, {"directory", "/", ""}, {"empty", "", ""}, {"cut", good[:len(good)-2], ""}, {"text", cliA, ""}, {"version", good[:4] + "\x07\x00\x09\x00" + good[8:], ""}, {"repeated", dup.String(), ""}}
	gos := []bad{{"missing", "-", ""}, {"junk", "package p\n\njunk\n", ":3:1"}, {"cut", "package p\nfunc f() {\n", ":2:"}, {"empty", "", ":1:1"}, {"string", "package p\n\nvar x = \"a\n", ":3:9"}}
	type layout struct {
		tool  string
		args  string // BAD is the bad input, NAME its name as given where that is in a list
		kinds []bad
		list  string
		stdin bool
		dir   string
	}
	var ls []layout
	add := func(tool string, kinds []bad, args ...string) {
		for _, a := range args {
			ls = append(ls, layout{tool: tool, kinds: kinds, args: a})
		}
	}
	add("msgofmt", append(append([]bad{}, pos...), bad{"repeated", cliDup, ""}), "BAD -o out.mo", "good.po BAD -o out.mo", "BAD good.po -o -", "good.po BAD other.po -o out.mo -f")
	add("msgocat", pos, "BAD", "good.po BAD", "BAD good.po", "good.po BAD other.po -o out.po", "good.po -f LIST", "-f LIST")
	add("msgomerge", pos, "BAD ref.pot", "good.po BAD", "good.po ref.pot -C BAD", "good.po ref.pot -C other.po -C BAD", "-U BAD ref.pot", "-U good.po BAD", "-N good.po ref.pot --compendium=BAD,other.po")
	add("msgounfmt", mos, "BAD", "good.mo BAD", "BAD good.mo", "good.mo BAD -o out.po")
	add("xgotext", gos, "BAD", "good.go BAD", "BAD good.go -o out.pot", "-a good.go BAD other.go")
	add("xgotext", pos, "good.go -x BAD -o -")
	add("xgotext", pos[1:], "good.go -j -o BAD") // a missing file to join with is none
	for _, l := range [...]layout{
		{tool: "msgofmt", args: "-D d bad.po -o x.mo", kinds: pos}, {tool: "msgofmt", args: "-D d", kinds: append(append([]bad{}, pos[2:]...), bad{"repeated", cliDup, ""})},
		{tool: "msgocat", args: "good.po -D d", kinds: pos[2:]}, {tool: "xgotext", args: "d", kinds: gos[1:]}, {tool: "xgotext", args: "-D d bad.go", kinds: gos}, {tool: "xgotext", args: "-D d -x d/bad.po good.go -o -", kinds: pos[1:]},
	} {
		l.dir = "d"
		ls = append(ls, l)
	}
	for _, l := range [...]layout{
		{tool: "msgofmt", args: "- -o x.mo", kinds: pos[2:]}, {tool: "msgofmt", args: "good.po - -o x.mo", kinds: pos[2:]}, {tool: "msgocat", args: "good.po -", kinds: pos[2:]},
		{tool: "msgounfmt", args: "-", kinds: mos[2:]}, {tool: "msgounfmt", args: "good.mo -", kinds: mos[2:]}, {tool: "xgotext", args: "-", kinds: gos[1:]},
	} {
		l.stdin = true
		ls = append(ls, l)
	}
	forms := strs("bad", "./bad", "sub/bad", "sub/../bad", "my bad", "b%sd%d", "ABS", "bäd,x")
	type unit struct {
		l    layout
		b    bad
		form string
		wrap bool
	}
	var us []unit
	for _, l := range ls {
		fs := forms
		if l.stdin || l.dir != "" {
			fs = fs[:1]
		}
		for _, b := range l.kinds {
			for _, f := range fs {
				if strings.Contains(l.args, "-C") && strings.Contains(f, ",") || strings.Contains(l.args, "compendium") && strings.Contains(f, ",") {
					continue // names in a list
				}
				for _, wrap := range []bool{false, true} {
					us = append(us, unit{l, b, f, wrap})
				}
			}
		}
	}
	r.Space("tools", "every tool with a bad input at every place, named in several ways, every kind of bad input, directly and through the wrapper", int64(len(us)), func(w *W, i int64) error {
		u := us[i]
		ext := ".po"
		switch {
		case u.l.tool == "msgounfmt":
			ext = ".mo"
		case u.l.tool == "xgotext" && !strings.Contains(u.l.args, "-x") && !strings.Contains(u.l.args, "-j"):
			ext = ".go"
		}
		file, name := u.form+ext, u.form+ext
		if u.form == "ABS" {
			file = "bad" + ext
			name = filepath.Join(r.Scratch, fmt.Sprintf("cli%d", w.ID()), file)
		}
		j := cliJob{tool: u.l.tool, wrapper: u.wrap, files: tree{"good.po": cliA, "other.po": cliBare, "ref.pot": cliPot, "good.mo": good, "good.go": c31Go, "other.go": "package p\n", "sub/": ""}}
		switch {
		case u.l.stdin:
			name, j.stdin = "stdin", u.b.text
		default:
			if u.l.dir != "" {
				file, name = "d/bad"+ext, "d/bad"+ext
				j.files["d/"] = ""
				if ext == ".go" {
					j.files["d/a.go"], j.files["d/z.go"] = c31Go, "package p\n"
				} else {
					j.files["d/a.po"], j.files["d/z.po"] = cliA, cliB
				}
				j.files["d/good.go"] = c31Go
			}
			file = filepath.Clean(file)
			switch u.b.text {
			case "-":
			case "/":
				j.files[file+"/"] = ""
			default:
				j.files[file] = u.b.text
			}
		}
		if strings.Contains(u.l.args, "LIST") {
			j.files["list"] = "other.po\n" + name + "\n"
		}
		for _, a := range strings.Fields(u.l.args) {
			a = strings.ReplaceAll(a, "LIST", "list")
			j.args = append(j.args, strings.ReplaceAll(a, "BAD", name))
		}
		w.Desc("%s %v, %s", u.l.tool, j.args, u.b.name)
		w.State(w.desc)
		w.Trace()
		res, err := r.cli(w, j)
		if err != nil {
			return err
		}
		if res.code == 0 {
			return failf("exit", "%s exits 0 with a bad input (%s)", res.cmd, u.b.name)
		}
		line := ""
		for _, l := range strings.Split(res.err, "\n") {
			if strings.HasPrefix(l, "Error: ") {
				line = l
			}
		}
		w.Outcome(u.b.name)
		clean := strings.TrimPrefix(name, "./")
		if u.form == "sub/../bad" {
			clean = "bad" + ext
		}
		if !strings.Contains(line, name+u.b.at) && !strings.Contains(line, clean+u.b.at) && !strings.Contains(line, strconv.Quote(name)+u.b.at) && !(u.l.stdin && strings.Contains(line, " -"+u.b.at)) {
			return failf("name", "%s (%s): the message does not name %s%s: %q", res.cmd, u.b.name, name, u.b.at, line)
		}
		for _, o := range strs("good.po", "other.po", "ref.pot", "good.mo", "good.go", "other.go", "d/a.", "d/z.") {
			if strings.Contains(line, o) {
				return failf("other-name", "%s (%s): the message names %s, which is as it should be: %q", res.cmd, u.b.name, o, line)
			}
		}
		return nil
	})
}
