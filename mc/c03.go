// C03: the PO reader accepts exactly the PO dialect and reads it correctly.
package main

import (
	"fmt"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C03"] = propDef{
		level: "model_checking",
		notes: []string{
			"oracle: a hand-written reference reader of the PO format (refpo.go); documents the format does not settle (comments inside an entry, plural forms out of order, entries that are partly obsolete) are skipped and counted",
			"line alphabet and edit bound as listed per space",
		},
		run: runC03,
	}
}

var c03Lines = []string{
	`msgid "a"`, `msgstr "t"`, `msgid_plural "p"`, `msgstr[0] "x"`, `msgstr[1] "y"`, `msgctxt "c"`, `"cont\n"`,
	`# com`, `#: f.go:1 g.go:2`, `#, fuzzy, c-format`, `#. ext`, `#| msgid "old"`,
	`#~ msgid "o"`, `#~ msgstr "ot"`, ``,
	// The rest only in the shorter full enumeration and as edits.
	`msgid "b"`, `msgid ""`, `#~ "oc"`, `#~| msgid "oo"`, `#~ msgctxt "k"`, `foo`, `msgid "a`, `"\q"`, `msgstr ""`, `msgid "\"\\\\"`, `#~ msgid_plural "op"`, `#~ msgstr[0] "o0"`, `#`, `#~`, `msgid"z"msgstr"z"`, `msgstr[`, `  msgid "ind"`, `"x" "y"`,
}

const c03Core = 15

func c03Check(w *W, doc string, unspec *int64Counter) error {
	d := refParse(doc, "~")
	p := parse.NewPoFromString(doc, "in.po")
	f := p.Parse()
	errs := p.Errors()
	w.Trans(1)
	if d.unspecified != "" {
		unspec.add()
		return nil
	}
	w.Trace()
	if d.malformed != "" {
		w.Outcome("malformed: " + d.malformed)
		if len(errs) == 0 && p.Error() == nil {
			return failf("accepts-malformed", "malformed (%s) but no error reported:\n%s", d.malformed, doc)
		}
		return nil
	}
	if d.unordered {
		// May be refused; if not, the forms keep the numbers written.
		if len(errs) > 0 || f == nil {
			unspec.add()
			return nil
		}
		for _, e := range d.entries {
			seen := map[int]bool{}
			for _, pl := range e.Plurals {
				if seen[pl.ID] {
					unspec.add()
					return nil
				}
				seen[pl.ID] = true
			}
		}
	}
	w.Outcome("well-formed")
	if len(errs) > 0 {
		return failf("rejects-wellformed", "well-formed but error %v:\n%s", errs[0], doc)
	}
	if f == nil {
		return failf("nil", "no error and no result:\n%s", doc)
	}
	return sameEntries("entries", "read wrongly:\n"+doc, f.Entries, refDedupe(d.entries))
}

func joinLines(ls []int, sep, end string) string {
	parts := make([]string, len(ls))
	for i, l := range ls {
		parts[i] = c03Lines[l]
	}
	return strings.Join(parts, sep) + end
}

// c03Render writes entries as a document in one of many equivalent spellings.
type c03Style struct {
	eol      string
	final    bool // final line end
	split    int  // 0: one line, 1: "" plus pieces, 2: two pieces, 3: pieces on the same line
	blanks   int
	indent   string
	joinLoc  bool
	joinFlag bool
	esc      string // every byte as an escape of this format
}

func (s c03Style) str(t string) string {
	q := func(x string) string {
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(x); i++ {
			switch c := x[i]; {
			case s.esc != "":
				fmt.Fprintf(&b, s.esc, c)
			case c == '"' || c == '\\':
				b.WriteByte('\\')
				b.WriteByte(c)
			case c == '\n':
				b.WriteString(`\n`)
			case c == '\t':
				b.WriteString(`\t`)
			case c == '\r':
				b.WriteString(`\r`)
			default:
				b.WriteByte(c)
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	h := len(t) / 2
	for h > 0 && h < len(t) && t[h]&0xC0 == 0x80 {
		h--
	}
	switch s.split {
	case 1:
		return q("") + "\n" + q(t[:h]) + "\n" + q(t[h:])
	case 2:
		return q(t[:h]) + "\n\n" + q(t[h:])
	case 3:
		return q(t[:h]) + " " + q(t[h:])
	}
	return q(t)
}

func (s c03Style) entry(e ent) string {
	var c, b strings.Builder
	for _, x := range e.Comments {
		c.WriteString("# " + x + "\n")
	}
	for _, x := range e.ExtractedComments {
		c.WriteString("#. " + x + "\n")
	}
	if s.joinLoc && len(e.Locations) > 0 {
		c.WriteString("#:")
		for _, l := range e.Locations {
			fmt.Fprintf(&c, " %s:%d", l.File, l.Line)
		}
		c.WriteString("\n")
	} else {
		for _, l := range e.Locations {
			fmt.Fprintf(&c, "#: %s:%d\n", l.File, l.Line)
		}
	}
	if s.joinFlag && len(e.Flags) > 0 {
		c.WriteString("#, " + strings.Join(e.Flags, ", ") + "\n")
	} else {
		for _, x := range e.Flags {
			c.WriteString("#," + x + "\n")
		}
	}
	prev := "#| "
	if e.Obsolete {
		prev = "#~| "
	}
	for _, x := range e.Previous {
		c.WriteString(prev + x + "\n")
	}
	if e.Context != "" {
		b.WriteString(s.indent + "msgctxt " + s.str(e.Context) + "\n")
	}
	b.WriteString(s.indent + "msgid " + s.str(e.ID) + "\n")
	if isPlural(e) {
		b.WriteString(s.indent + "msgid_plural " + s.str(e.Plural) + "\n")
		for _, p := range e.Plurals {
			fmt.Fprintf(&b, "%smsgstr[%d] %s\n", s.indent, p.ID, s.str(p.Str))
		}
	} else {
		b.WriteString(s.indent + "msgstr " + s.str(e.Str) + "\n")
	}
	body := b.String()
	if e.Obsolete {
		var o strings.Builder
		for _, l := range strings.Split(strings.TrimSuffix(body, "\n"), "\n") {
			if l == "" {
				o.WriteString("\n")
			} else {
				o.WriteString("#~ " + l + "\n")
			}
		}
		body = o.String()
	}
	return c.String() + body
}

func (s c03Style) doc(es ents) string {
	var b strings.Builder
	for i, e := range es {
		if i > 0 {
			b.WriteString(strings.Repeat("\n", s.blanks))
		}
		b.WriteString(s.entry(e))
	}
	t := b.String()
	if !s.final {
		t = strings.TrimSuffix(t, "\n")
	}
	return strings.ReplaceAll(t, "\n", s.eol)
}

func c03Pool() ents {
	return ents{
		{ID: "p", Str: "t"},
		{ID: "p", Str: "tab\tquote\"back\\slash\nnl"},
		{ID: "p", Str: "é😀", Comments: strs("c1", "  c2")},
		{ID: "p", Str: "", Flags: strs("fuzzy", "c-format"), Locations: locs{{Line: 4, File: "f.go"}, {Line: 5, File: "dir/g.go"}}},
		{ID: "p", Str: "t", Previous: strs(`msgid "o"`), ExtractedComments: strs("x", "y")},
		{ID: "p", Context: "k", Plural: "ps", Plurals: pes{{ID: 0, Str: "a"}, {ID: 1, Str: "b"}}},
		{ID: "p", Plural: "ps", Plurals: pes{{ID: 0, Str: ""}, {ID: 1, Str: ""}, {ID: 2, Str: "z"}}, Comments: strs("#~ odd")},
	}
}

func runC03(r *Run) {
	unspec := &int64Counter{}
	defer func() { r.extra["unspecified_documents_skipped"] = unspec.n.Load() }()

	nAll := len(c03Lines)
	l := 3
	if r.Thorough {
		l = 4
	}
	r.Space("lines", "all documents of up to the bound of lines over the full line alphabet, with and without final line end, LF and CRLF", 2*seqCount(nAll, l), func(w *W, i int64) error {
		d := &Dec{i}
		crlf := d.B()
		eol := "\n"
		if crlf {
			eol = "\r\n"
		}
		ls := seqAt(nAll, d.i)
		end := ""
		if len(ls)%2 == 0 {
			end = eol
		}
		doc := joinLines(ls, eol, end)
		w.Desc("%q", doc)
		w.State(doc)
		return c03Check(w, doc, unspec)
	})

	cl := 5
	if r.Thorough {
		cl = 6
	}
	core := c03Core
	r.Space("core-lines", "all documents of up to the bound of lines over the core line alphabet", seqCount(core, cl), func(w *W, i int64) error {
		doc := joinLines(seqAt(core, i), "\n", "\n")
		w.Desc("%q", doc)
		w.State(doc)
		return c03Check(w, doc, unspec)
	})

	// Equivalent spellings of known catalogs.
	pool := c03Pool()
	np := len(pool) * 2
	var styles []c03Style
	for _, eol := range []string{"\n", "\r\n"} {
		for _, final := range []bool{true, false} {
			for split := 0; split < 4; split++ {
				for blanks := 0; blanks < 3; blanks++ {
					for v := 0; v < 5; v++ {
						styles = append(styles, c03Style{eol, final, split, blanks, []string{"", "  "}[v&1], v&1 == 0, v&2 == 0, [...]string{"", "", "", `\x%02X`, `\%03o`}[v]})
					}
				}
			}
		}
	}
	sl := 2
	if r.Thorough {
		sl = 3
	}
	r.Space("spellings", "all sequences of pool entries, live and obsolete, in every combination of line end, string splitting, blank lines, indentation, joined references and flags, every byte as hexadecimal or octal escape", int64(len(styles))*seqCount(np, sl), func(w *W, i int64) error {
		d := &Dec{i}
		st := styles[d.N(len(styles))]
		var cat ents
		for k, j := range seqAt(np, d.i) {
			e := cloneE(pool[j/2])
			e.Obsolete = j%2 == 1
			e.ID = "id" + string(rune('a'+k))
			cat = append(cat, e)
		}
		doc := st.doc(cat)
		w.Desc("%q", doc)
		w.State(doc)
		got, err := readPo(doc)
		if err != nil {
			return err
		}
		w.Trans(1)
		w.Trace()
		return sameEntries("spelling", "read wrongly:\n"+doc, got, poImage(cat))
	})

	// Edits of complete documents.
	base := strings.Split(strings.TrimSuffix(c03Style{eol: "\n", final: true, blanks: 1, joinLoc: true, joinFlag: true, split: 0}.doc(ents{
		{Str: "Language: es\n", Comments: strs("title")},
		{ID: "one", Str: "uno", Locations: locs{{Line: 1, File: "a.go"}}, Flags: strs("fuzzy")},
		{ID: "two", Context: "ctx", Plural: "twos", Plurals: pes{{ID: 0, Str: "dos"}, {ID: 1, Str: "doses"}}, ExtractedComments: strs("note")},
		{ID: "gone", Str: "ido", Obsolete: true, Comments: strs("old")},
		{ID: "gone2", Context: "c", Str: "ido2", Obsolete: true},
	}), "\n"), "\n")
	nb := len(base)
	// edit kinds: delete line, duplicate, swap with next, insert alphabet line, replace by alphabet line, cut at column
	nEdit := nb*3 + (nb+1)*nAll + nb*nAll
	apply := func(b []string, e int) []string {
		n := len(b)
		out := append([]string{}, b...)
		if e < nb*3 {
			at := e / 3
			if at >= n {
				return out
			}
			switch e % 3 {
			case 0:
				return append(out[:at], out[at+1:]...)
			case 1:
				return append(out[:at+1], append([]string{out[at]}, out[at+1:]...)...)
			default:
				if at+1 < n {
					out[at], out[at+1] = out[at+1], out[at]
				}
				return out
			}
		}
		e -= nb * 3
		if e < (nb+1)*nAll {
			at := e / nAll
			if at > n {
				at = n
			}
			return append(out[:at], append([]string{c03Lines[e%nAll]}, out[at:]...)...)
		}
		e -= (nb + 1) * nAll
		if at := e / nAll; at < n {
			out[at] = c03Lines[e%nAll]
		}
		return out
	}
	r.Space("single-edits", "every single-line deletion, duplication, swap, insertion and replacement in a complete document", int64(nEdit), func(w *W, i int64) error {
		doc := strings.Join(apply(base, int(i)), "\n") + "\n"
		w.Desc("%q", doc)
		w.State(doc)
		return c03Check(w, doc, unspec)
	})
	small := nb * 3
	second := int64(nEdit)
	if !r.Thorough {
		second = int64(small)
	}
	r.Space("double-edits", "every deletion, duplication or swap followed by another edit", int64(small)*second, func(w *W, i int64) error {
		d := &Dec{i}
		b := apply(base, d.N(small))
		doc := strings.Join(apply(b, int(d.i)), "\n") + "\n"
		w.Desc("%q", doc)
		w.State(doc)
		return c03Check(w, doc, unspec)
	})

	// Every byte-level cut, and every single byte removed.
	full := strings.Join(base, "\n") + "\n"
	r.Space("cuts", "the document cut after every byte, and with every single byte removed", int64(2*len(full)), func(w *W, i int64) error {
		k := int(i / 2)
		doc := full[:k]
		if i%2 == 1 {
			doc = full[:k] + full[k+1:]
		}
		w.Desc("%q", doc)
		w.State(doc)
		return c03Check(w, doc, unspec)
	})

	// Single bytes and short token sequences.
	chars := "[]\"\\#~:,0m |\nxn1\r\t\xe9"
	r.Space("byte-edits", "every byte of the document replaced by, and every position preceded by, every byte of the syntax alphabet", prod(len(full)+1, 2, len(chars)), func(w *W, i int64) error {
		d := &Dec{i}
		at, ins, c := d.N(len(full)+1), d.B(), chars[d.i]
		doc := full[:at] + string(c)
		if ins || at == len(full) {
			doc += full[at:]
		} else {
			doc += full[at+1:]
		}
		w.Desc("%q", doc)
		w.State(doc)
		return c03Check(w, doc, unspec)
	})
	tiny := "#, f\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\\n\"\n#~ msgid \"o\"\n#~ msgstr \"\"\n"
	tc := chars[:9]
	if r.Thorough {
		tc = chars
	}
	r.Space("byte-edit-pairs", "every pair of replaced or inserted bytes in a small document", prod(len(tiny), 2, len(tc), len(tiny), 2, len(tc)), func(w *W, i int64) error {
		d := &Dec{i}
		doc := tiny
		var last int
		for k := 0; k < 2; k++ {
			at, ins, c := d.N(len(tiny)), d.B(), tc[d.N(len(tc))]
			if k == 1 && at >= last {
				return nil // each pair once
			}
			last = at
			if ins {
				doc = doc[:at] + string(c) + doc[at:]
			} else {
				doc = doc[:at] + string(c) + doc[at+1:]
			}
		}
		w.Desc("%q", doc)
		w.State(doc)
		return c03Check(w, doc, unspec)
	})
	toks := []string{"msgid", "msgstr", "\"a\"", "[", "]", "0", "msgid_plural", "msgctxt", "#c\n", "\n#~ "}
	tl := 6
	if r.Thorough {
		tl = 7
	}
	r.Space("tokens", "every token sequence up to the bound, alone and after the start of a plural entry", 2*seqCount(len(toks), tl), func(w *W, i int64) error {
		d := &Dec{i}
		doc := ""
		if d.B() {
			doc = "msgid \"p\" msgid_plural \"q\" msgstr[0] \"x\" "
		}
		for _, k := range seqAt(len(toks), d.i) {
			doc += toks[k] + " "
		}
		w.Desc("%q", doc)
		w.State(doc)
		return c03Check(w, doc, unspec)
	})

	// Escapes: every escape sequence, alone and next to others.
	var escs []string
	for c := 0; c < 256; c++ {
		escs = append(escs, fmt.Sprintf(`\x%02x`, c), fmt.Sprintf(`\%03o`, c), `\`+string(rune(c)))
	}
	escs = append(escs, `\x4G`, `\8`, `\400`, `\x`, `\`, "x", "é", `\n`, `\"`, "\xe9", "\xff", "\xc3", "\\\xe9")
	for c := 0; c < 256; c++ {
		if c != '"' && c != '\\' && c != '\n' && c != '\r' {
			escs = append(escs, string([]byte{byte(c)}), string(rune(c)))
		}
	}
	near := []string{"", "0", "a", `\n`, `\\`, `\x41`, `\101`, "é", "\xa9", "\xe2"}
	r.Space("escapes", "every hexadecimal, octal and one-character escape, every byte and every character up to U+00FF as it is, between every pair of neighbours", prod(len(escs), len(near), len(near)), func(w *W, i int64) error {
		d := &Dec{i}
		t := escs[d.N(len(escs))]
		t = near[d.N(len(near))] + t + near[d.i]
		doc := "msgid \"a\"\nmsgstr \"" + t + "\"\n"
		w.Desc("%q", doc)
		w.State(doc)
		return c03Check(w, doc, unspec)
	})

	// Spellings of numbers.
	nums := []string{"0", "00", "1", "01", "2", "02", "7", "07", "8", "08", "09", "9", "10", "010", "011", "10", "100", "0100", "0000000000000000000000000001", "0x1", "0b1", "0o1", "1_0", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "1.0", "1e1", ""}
	numDocs := []string{
		"msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[%s] \"x\"\n",
		"msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[ %s ] \"y\"\n",
		"#~ msgid \"a\"\n#~ msgid_plural \"b\"\n#~ msgstr[%s] \"x\"\n",
		"#: f.go:%s\nmsgid \"a\"\nmsgstr \"b\"\n",
		"#: f.go:%s g.go:1\nmsgid \"a\"\nmsgstr \"b\"\n",
		"#: f.go:3 g.go:%s\n#~ msgid \"a\"\n#~ msgstr \"b\"\n",
		"#: f.go:%s:12\nmsgid \"a\"\nmsgstr \"b\"\n",
		"#, range: %s..9\nmsgid \"a\"\nmsgstr \"b\"\n",
	}
	r.Space("numbers", "every spelling of a number as a plural index and as a line number", prod(len(nums), len(numDocs)), func(w *W, i int64) error {
		d := &Dec{i}
		doc := fmt.Sprintf(numDocs[d.N(len(numDocs))], nums[d.i])
		w.Desc("%q", doc)
		w.State(doc)
		return c03Check(w, doc, unspec)
	})

	// Comment spellings: what each comment line says.
	marks := []string{"#", "# ", "#  ", "#\t", "#\u3000", "#.", "#. ", "#,", "#, ", "#|", "#| ", "#:", "#: ", "#:  "}
	bodies := []string{"", "x", "a.go:1", "a.go:1 b.go:22", "fuzzy", "fuzzy,c-format", " fuzzy ,  no-wrap ", "x #: y", "~ z", "a.go:1 #, fuzzy", "#~ q", "dir/a.go:007", "a.go:010 b.go:08", "a.go:0x10", `msgid "x"`, "ü", "\xe9 \xff"}
	r.Space("comments", "all pairs of comment lines from every marker and body, in front of a live and an obsolete entry", prod(len(marks), len(bodies), len(marks), len(bodies), 2), func(w *W, i int64) error {
		d := &Dec{i}
		c1 := marks[d.N(len(marks))] + bodies[d.N(len(bodies))]
		c2 := marks[d.N(len(marks))] + bodies[d.N(len(bodies))]
		for _, c := range []string{c1, c2} {
			if strings.HasPrefix(c, "#:") && (strings.Contains(c, "#") && strings.LastIndexByte(c, '#') > 0 || strings.ContainsAny(c, `"~,`)) {
				return nil // a reference comment that is not a list of references
			}
			if strings.HasPrefix(c, "#~") {
				return nil
			}
		}
		doc := c1 + "\n" + c2 + "\nmsgid \"a\"\nmsgstr \"b\"\n\n# last\nmsgid \"c\"\nmsgstr \"d\"\n"
		if d.B() {
			doc = "msgid \"c\"\nmsgstr \"d\"\n\n" + c1 + "\n" + c2 + "\n#~ msgid \"a\"\n#~ msgstr \"b\"\n"
		}
		w.Desc("%q", doc)
		w.State(doc)
		return c03Check(w, doc, unspec)
	})

	// Reader options.
	docs := []ents{
		{{Str: "H: 1\n", Comments: strs("hc")}, {ID: "a", Str: "1", Comments: strs("c"), ExtractedComments: strs("x"), Flags: strs("fuzzy"), Previous: strs("p"), Locations: locs{{Line: 1, File: "f"}}}, {ID: "o", Str: "2", Obsolete: true, Comments: strs("oc"), Flags: strs("fuzzy")}},
		{{ID: "a", Str: "1", Locations: locs{{Line: 1, File: "f"}}}, {ID: "a", Str: "2", Locations: locs{{Line: 2, File: "f"}}}, {ID: "a", Context: "c", Str: "3"}, {ID: "a", Str: "4", Obsolete: true, Locations: locs{{Line: 9, File: "g"}}}},
		{{ID: "z", Str: "1"}, {Str: "late: header\n"}, {ID: "o", Str: "2", Obsolete: true}, {ID: "o", Str: "3", Obsolete: true}},
		{},
	}
	r.Space("options", "every combination of the five reader options on catalogs with comments, header, duplicates and obsolete entries", prod(len(docs), 32), func(w *W, i int64) error {
		d := &Dec{i}
		cat := docs[d.N(len(docs))]
		ic, ia, sh, cd, ob := d.B(), d.B(), d.B(), d.B(), d.B()
		text := c03Style{eol: "\n", final: true, blanks: 1}.doc(cat)
		w.Desc("ignore-comments=%v ignore-all=%v skip-header=%v clean-duplicates=%v obsoletes=%v\n%s", ic, ia, sh, cd, ob, text)
		w.State(w.desc)
		got, err := readPo(text, parse.PoWithIgnoreComments(ic), parse.PoWithIgnoreAllComments(ia), parse.PoWithSkipHeader(sh), parse.PoWithCleanDuplicates(cd), parse.PoWithParseObsolete(ob))
		if err != nil {
			return err
		}
		w.Trans(1)
		w.Trace()
		var want ents
		header := false
		for _, e := range poImage(cat) {
			if e.Obsolete && (!ob || ia) {
				continue
			}
			if sh && isHeader(e) && !header {
				header = true
				continue
			}
			if ic || ia {
				e.Comments, e.ExtractedComments, e.Previous = nil, nil, nil
			}
			if ia {
				e.Flags, e.Locations = nil, nil
			}
			want = append(want, e)
		}
		if cd {
			want = refDedupe(want)
		}
		return sameEntries("options", "read wrongly:\n"+text, got, want)
	})
	large(r, "in several spellings", 257, 1025, 4, func(w *W, cat ents, k int) error {
		s := c03Style{eol: []string{"\n", "\r\n"}[k%2], final: k%2 == 0, blanks: k, joinLoc: k%2 == 1, joinFlag: k > 1}
		return c03Check(w, s.doc(cat), unspec)
	})
}
