// C14: header fields are parsed, edited and written without loss.
package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C14"] = propDef{
		level: "model_checking",
		notes: []string{
			"header values have no leading white space and no line break; keys are without colon and not empty; the value consisting of one space is the library's mark for an empty field and is not a value",
			"a configuration represents: Plural-Forms only outside templates and with a plural expression and a number, POT-Creation-Date only in templates, supported character sets, transfer encoding 8bit",
			"oracle: line-wise reference reader; ordered map in lockstep with every operation; field-by-field expectation for configurations",
		},
		run: runC14,
	}
}

type hf = po.HeaderField

func dumpFields(fs []hf) string {
	var b strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&b, "%q: %q\n", f.Key, f.Value)
	}
	return b.String()
}

// refHeader reads the fields of a header text.
func refHeader(text string) (fs []hf) {
	for _, line := range strings.Split(text, "\n") {
		k, v, ok := strings.Cut(line, ":")
		if !ok {
			continue
		}
		fs = append(fs, hf{Key: strings.TrimRight(k, " \t\r\f"), Value: strings.TrimLeft(v, " \t\r\f")})
	}
	return
}

func refLoad(fs []hf, k string) string {
	for _, f := range fs {
		if f.Key == k {
			return f.Value
		}
	}
	return ""
}

// refNplurals is the nplurals value of a Plural-Forms field: assignments separated by semicolons.
func refNplurals(v string) uint64 {
	for _, part := range strings.Split(v, ";") {
		k, val, ok := strings.Cut(part, "=")
		if ok && strings.TrimSpace(k) == "nplurals" {
			if n, err := strconv.ParseUint(strings.TrimSpace(val), 10, 64); err == nil {
				return n
			}
			return 2
		}
	}
	return 2
}

var c14Lines = []string{
	"Language: es", "Language:de", "Project-Id-Version: demo 1.0", "POT-Creation-Date: 2024-01-02 03:04+0500",
	"Report-Msgid-Bugs-To: https://x.org:80/a?b=c;d", "X-Time: a: b: c", "Empty:", "Empty2: ", "no field",
	"", "Plural-Forms: nplurals=3; plural=(n==1 ? 0 : n>1 ? 1 : 2);", "Plural-Forms: nplurals=1; plural=0;",
	"Content-Type: text/plain; charset=UTF-8", "Key : spaced", "X-Ünï: ñ — 日本", "Language: second", "X-Quote: \"q\" \\n \\",
	"X-Tab:\tt", "X-End: blanks  ", "MIME-Version: 1.0", "a:b",
}

var c14Keys = []string{"Language", "Plural-Forms", "X-A", "X-a", "Content-Type", "Ünï", "X A", "-", "MIME-Version", "X-Generator"}

var c14Vals = []string{
	"", "es", "a: b", "https://x.org/?q=1;r=2", "2024-01-02 03:04+0500", "nplurals=3; plural=n>1;", "text/plain; charset=UTF-8",
	"\"q\" \\ \\n", "é — 日本", "trailing ", ":", ";", "=", "a\tb", "#, fuzzy", "%s", "~", "a\fb", "a\vb: c", "a\u0085b", "a\u2028b: c", "a\u2029b", "\u00a0nbsp\u00a0", "a\rb: c", "a\x1bb\x7f",
}

var c14Plural = []string{
	"nplurals=%s; plural=(n != 1);", "nplurals=%s;plural=n>1;", "nplurals = %s ; plural = n ;", "plural=(n==1 ? 0 : 1); nplurals=%s;",
	"nplurals=%s", "nplurals=%s;", "  nplurals=%s; plural=0", "plural=n; nplurals=%s", "nplurals=%s; nplurals2=9; plural=n;", "xnplurals=9; nplurals=%s; plural=0;",
	"plural=n!=1; x=y;", "", "junk", "nplurals", "nplurals=", "=;", "plural=(n%%10==1 && n%%100!=11 ? 0 : n != 0 ? 1 : 2); nplurals=%s;",
}

var c14Numbers = []string{"0", "1", "2", "3", "4", "6", "10", "99", "255", "4294967296", "INTEGER", "-1", "x", "1.5", "18446744073709551615", "18446744073709551616", "03", "010", "08", "0x10", "1_0", "+3"}

func c14CheckHeader(h po.Header, want []hf, tmpl bool, what string) error {
	if g, w := dumpFields(h.Fields), dumpFields(want); g != w {
		return failf("fields", "%s: fields\n%sexpected\n%s", what, g, w)
	}
	if h.Template != tmpl {
		return failf("template", "%s: template mark %v, expected %v", what, h.Template, tmpl)
	}
	keys := append([]string{"absent", ""}, c14Keys...)
	for _, f := range want {
		keys = append(keys, f.Key)
	}
	for _, k := range keys {
		if g, w := h.Load(k), refLoad(want, k); g != w {
			return failf("load", "%s: Load(%q)=%q, expected %q", what, k, g, w)
		}
	}
	if g, w := uint64(h.Nplurals()), refNplurals(refLoad(want, "Plural-Forms")); g != w {
		return failf("nplurals", "%s: Nplurals()=%d, expected %d for %q", what, g, w, refLoad(want, "Plural-Forms"))
	}
	return nil
}

// model of the operations on a header
type c14Op struct {
	name string
	run  func(h *po.Header)
	want func(fs []hf) []hf
}

func c14Ops() (ops []c14Op) {
	keys := []string{"A", "B", "a"}
	vals := []string{"1", "", "2:3"}
	find := func(fs []hf, k string) int {
		for i, f := range fs {
			if f.Key == k {
				return i
			}
		}
		return -1
	}
	for _, k := range keys {
		for _, v := range vals {
			ops = append(ops, c14Op{fmt.Sprintf("Set(%q,%q)", k, v), func(h *po.Header) { h.Set(k, v) }, func(fs []hf) []hf {
				fs = append([]hf{}, fs...)
				if i := find(fs, k); i >= 0 {
					fs[i].Value = v
					return fs
				}
				return append(fs, hf{Key: k, Value: v})
			}})
		}
		for _, vs := range [][]string{{}, {"r"}, {"x", "y"}} {
			ops = append(ops, c14Op{fmt.Sprintf("Register(%q,%q)", k, vs), func(h *po.Header) { h.Register(k, vs...) }, func(fs []hf) []hf {
				if find(fs, k) >= 0 {
					return fs
				}
				return append(append([]hf{}, fs...), hf{Key: k, Value: strings.Join(vs, "")})
			}})
		}
	}
	return
}

// configurations

type c14Field struct {
	name string
	opt  func(v string) po.HeaderOption
	set  func(c *po.HeaderConfig, v string)
	key  string
}

var c14Config = []c14Field{
	{"ProjectIDVersion", func(v string) po.HeaderOption { return po.HeaderWithProjectIDVersion(v) }, func(c *po.HeaderConfig, v string) { c.ProjectIDVersion = v }, "Project-Id-Version"},
	{"ReportMsgidBugsTo", func(v string) po.HeaderOption { return po.HeaderWithReportMsgidBugsTo(v) }, func(c *po.HeaderConfig, v string) { c.ReportMsgidBugsTo = v }, "Report-Msgid-Bugs-To"},
	{"POTCreationDate", func(v string) po.HeaderOption { return po.HeaderWithPOTCreationDate(v) }, func(c *po.HeaderConfig, v string) { c.POTCreationDate = v }, "POT-Creation-Date"},
	{"PORevisionDate", func(v string) po.HeaderOption { return po.HeaderWithPORevisionDate(v) }, func(c *po.HeaderConfig, v string) { c.PORevisionDate = v }, "PO-Revision-Date"},
	{"LastTranslator", func(v string) po.HeaderOption { return po.HeaderWithLastTranslator(v) }, func(c *po.HeaderConfig, v string) { c.LastTranslator = v }, "Last-Translator"},
	{"LanguageTeam", func(v string) po.HeaderOption { return po.HeaderWithLanguageTeam(v) }, func(c *po.HeaderConfig, v string) { c.LanguageTeam = v }, "Language-Team"},
	{"Language", func(v string) po.HeaderOption { return po.HeaderWithLanguage(v) }, func(c *po.HeaderConfig, v string) { c.Language = v }, "Language"},
	{"MimeVersion", func(v string) po.HeaderOption { return po.HeaderWithMimeVersion(v) }, func(c *po.HeaderConfig, v string) { c.MimeVersion = v }, "MIME-Version"},
	{"ContentTransferEncoding", func(v string) po.HeaderOption { return po.HeaderWtihContentTransferEncoding(v) }, func(c *po.HeaderConfig, v string) { c.ContentTransferEncoding = v }, "Content-Transfer-Encoding"},
	{"XGenerator", func(v string) po.HeaderOption { return po.HeaderWithXGenerator(v) }, func(c *po.HeaderConfig, v string) { c.XGenerator = v }, "X-Generator"},
}

// c14Want are the fields a configuration stands for, in any order.
func c14Want(c po.HeaderConfig) map[string]string {
	m := map[string]string{}
	put := func(k, v string) {
		if v != "" && k != "" {
			m[k] = v
		}
	}
	put("Project-Id-Version", c.ProjectIDVersion)
	put("Report-Msgid-Bugs-To", c.ReportMsgidBugsTo)
	if c.Template {
		put("POT-Creation-Date", c.POTCreationDate)
	}
	put("PO-Revision-Date", c.PORevisionDate)
	put("Last-Translator", c.LastTranslator)
	put("Language-Team", c.LanguageTeam)
	put("Language", c.Language)
	put("MIME-Version", c.MimeVersion)
	if c.MediaType != "" && c.Charset != "" {
		put("Content-Type", c.MediaType+"; charset="+c.Charset)
	}
	put("Content-Transfer-Encoding", c.ContentTransferEncoding)
	if !c.Template && c.Nplurals != 0 && c.Plural != "" {
		put("Plural-Forms", fmt.Sprintf("nplurals=%d; plural=%s;", c.Nplurals, c.Plural))
	}
	put("X-Generator", c.XGenerator)
	for _, f := range c.ExtraFields {
		put(f.Key, f.Value)
	}
	return m
}

func c14SameConfig(what string, got, want po.HeaderConfig) error {
	if len(got.ExtraFields) == 0 {
		got.ExtraFields = nil
	}
	if len(want.ExtraFields) == 0 {
		want.ExtraFields = nil
	}
	if !reflect.DeepEqual(got, want) {
		return failf("config", "%s: configuration\n%+v\nexpected\n%+v", what, got, want)
	}
	return nil
}

// c14CheckConfig checks configuration -> header -> entry -> header -> configuration.
func c14CheckConfig(w *W, c po.HeaderConfig) error {
	h := c.ToHeader()
	w.Trans(3)
	w.Trace()
	m := c14Want(c)
	for _, f := range h.Fields {
		v, ok := m[f.Key]
		if !ok || v != f.Value {
			return failf("to-header", "field %q is %q, expected %q (present: %v)", f.Key, f.Value, v, ok)
		}
		delete(m, f.Key)
	}
	for k, v := range m {
		return failf("to-header", "field %q=%q is missing", k, v)
	}
	if h.Template != c.Template {
		return failf("to-header", "template mark %v, expected %v", h.Template, c.Template)
	}
	h2 := po.EntryToHeader(h.ToEntry())
	if err := c14CheckHeader(h2, h.Fields, c.Template, "written and read"); err != nil {
		return err
	}
	want := c
	if want.MimeVersion == "" {
		want.MimeVersion = "1.0"
	}
	if want.MediaType == "" || want.Charset == "" {
		want.MediaType, want.Charset = "text/plain", "UTF-8"
	}
	want.ContentTransferEncoding = "8bit"
	if c.Template || c.Plural == "" || c.Nplurals == 0 {
		want.Plural, want.Nplurals = "", 2
	}
	if !c.Template {
		want.POTCreationDate = ""
	}
	for _, x := range []po.Header{h, h2} {
		if err := c14SameConfig("back from header", x.ToConfig(), want); err != nil {
			return err
		}
	}
	// a second round changes nothing
	return c14SameConfig("second round", h2.ToConfig().ToHeader().ToConfig(), want)
}

func runC14(r *Run) {
	n := 3
	if r.Thorough {
		n = 4
	}
	k := len(c14Lines)
	flagSets := [][]string{nil, {"fuzzy"}, {"no-wrap"}, {"c-format", "fuzzy"}, {"fuzzy", "x"}, {"Fuzzy"}, {"not-fuzzy", ""}}
	r.Space("texts", "all header texts of up to the bound of lines over a menu of line forms, template or not (among other flags), with and without final newline", 2*int64(len(flagSets))*seqCount(k, n), func(w *W, i int64) error {
		d := Dec{i}
		nl, flags := d.B(), flagSets[d.N(len(flagSets))]
		tmpl := isFuzzy(ent{Flags: flags})
		var lines []string
		for _, j := range seqAt(k, d.i) {
			lines = append(lines, c14Lines[j])
		}
		text := strings.Join(lines, "\n")
		if nl {
			text += "\n"
		}
		w.Desc("%q flags=%q", text, flags)
		w.State(w.desc)
		w.Trans(2)
		w.Trace()
		want := refHeader(text)
		h := po.EntryToHeader(ent{Str: text, Flags: cloneStrs(flags), Comments: strs("fuzzy")})
		if err := c14CheckHeader(h, want, tmpl, "EntryToHeader"); err != nil {
			return err
		}
		return c14CheckHeader(po.EntryToHeader(h.ToEntry()), want, tmpl, "written and read again")
	})

	n = 2
	nk, nv := len(c14Keys), len(c14Vals)
	if r.Thorough {
		n = 3
	}
	r.Space("fields", "all field lists of up to the bound over menus of keys and values: entry, PO file and MO file and back", 2*seqCount(nk*nv, n), func(w *W, i int64) error {
		d := Dec{i}
		h := po.Header{Template: d.B()}
		for _, j := range seqAt(nk*nv, d.i) {
			h.Fields = append(h.Fields, hf{Key: c14Keys[j%nk], Value: c14Vals[j/nk]})
		}
		want := append([]hf{}, h.Fields...)
		w.Desc("template=%v %s", h.Template, dumpFields(h.Fields))
		w.State(w.desc)
		w.Trans(2)
		w.Trace()
		e := h.ToEntry()
		if e.ID != "" || e.Context != "" || e.Obsolete || isFuzzy(e) != h.Template || isPlural(e) {
			return failf("to-entry", "ToEntry gives %s", dumpE(e))
		}
		if err := c14CheckHeader(po.EntryToHeader(e), want, h.Template, "entry and back"); err != nil {
			return err
		}
		if i%16 > 1 && !r.Thorough { // files: a slice of the space in the quick tier, all of it in the thorough one
			return nil
		}
		for at := 0; at < 3; at++ {
			cat := ents{{ID: "a", Str: "b"}, {ID: "", Context: "c", Str: "X-Not: header\n"}}
			cat = append(cat[:at:at], append(ents{e}, cat[at:]...)...)
			if g := cat.HasHeader(); !g {
				return failf("has-header", "HasHeader()=false with the header at %d", at)
			}
			if err := c14CheckHeader(cat.Header(), want, h.Template, "Entries.Header"); err != nil {
				return err
			}
			if err := c14CheckHeader(cat.HeaderFromIndex(at), want, h.Template, "HeaderFromIndex"); err != nil {
				return err
			}
			text, err := writePo(cat)
			if err != nil {
				return err
			}
			back, err := readPo(text)
			if err != nil {
				return err
			}
			if err := c14CheckHeader(back.Header(), want, h.Template, "through a PO file"); err != nil {
				return err
			}
			f, err := parse.MoFromBytes(compile.MoToBytes(cat), "x.mo")
			if err != nil || f == nil {
				return failf("mo", "MO file of the catalog is not readable: %v", err)
			}
			w.Trans(4)
			if err := c14CheckHeader(f.Header(), want, false, "through an MO file"); err != nil {
				return err
			}
		}
		none := ents{{ID: "a"}, {Context: "c", Str: "X-Not: header\n"}}
		if none.HasHeader() || len(none.Header().Fields) != 0 {
			return failf("has-header", "a catalog without header has one")
		}
		return nil
	})

	ops := c14Ops()
	starts := [][]hf{nil, {{Key: "B", Value: "b"}}, {{Key: "A", Value: "1"}, {Key: "C", Value: "c"}, {Key: "A", Value: "2"}}}
	depth := 4
	if r.Thorough {
		depth = 5
	}
	r.Space("operations", "all sequences of Set and Register over three keys up to the bound, ordered map in lockstep, Load of every key after each step", prod(len(starts))*seqCount(len(ops), depth), func(w *W, i int64) error {
		d := Dec{i}
		model := starts[d.N(len(starts))]
		h := po.Header{Fields: append([]hf{}, model...)}
		if len(model) == 0 {
			h.Fields = nil
		}
		var names []string
		for _, j := range seqAt(len(ops), d.i) {
			op := ops[j]
			names = append(names, op.name)
			op.run(&h)
			model = op.want(model)
			w.Trans(1)
			if g, x := dumpFields(h.Fields), dumpFields(model); g != x {
				w.Desc("%v", names)
				return failf("ordered-map", "after %v: fields\n%sexpected\n%s", names, g, x)
			}
			for _, key := range []string{"A", "B", "C", "a", "", "x"} {
				if g, x := h.Load(key), refLoad(model, key); g != x {
					w.Desc("%v", names)
					return failf("load", "after %v: Load(%q)=%q, expected %q", names, key, g, x)
				}
			}
		}
		w.State(dumpFields(model))
		w.Trace()
		return nil
	})

	r.Space("plural-forms", "all Plural-Forms layouts and numbers, alone, among other fields and given twice", prod(len(c14Plural), len(c14Numbers), 3), func(w *W, i int64) error {
		d := Dec{i}
		v := c14Plural[d.N(len(c14Plural))]
		num := c14Numbers[d.N(len(c14Numbers))]
		if strings.Contains(v, "%s") {
			v = fmt.Sprintf(v, num)
		}
		v = strings.TrimLeft(strings.ReplaceAll(v, "%%", "%"), " ")
		h := po.Header{Fields: []hf{{Key: "Plural-Forms", Value: v}}}
		switch d.N(3) {
		case 1:
			h.Fields = append([]hf{{Key: "X-Plural-Forms", Value: "nplurals=7;"}, {Key: "Content-Type", Value: "text/plain; nplurals=9"}}, h.Fields...)
		case 2:
			h.Fields = append(h.Fields, hf{Key: "Plural-Forms", Value: "nplurals=7; plural=1;"})
		}
		w.Desc("%s", dumpFields(h.Fields))
		w.State(w.desc)
		w.Trans(3)
		w.Trace()
		want := refNplurals(v)
		if err := c14CheckHeader(h, h.Fields, false, "header"); err != nil {
			return err
		}
		if err := c14CheckHeader(po.EntryToHeader(h.ToEntry()), h.Fields, false, "written and read"); err != nil {
			return err
		}
		if g := uint64(h.ToConfig().Nplurals); g != want {
			return failf("nplurals", "configuration has %d plurals, expected %d for %q", g, want, v)
		}
		return nil
	})

	charsets := []string{"UTF-8", "utf-8", "iso-8859-1", "KOI8-R", "CP1252", "ASCII", ""}
	media := []string{"text/plain", "", "text/html"}
	plurals := []string{"", "(n != 1)", "n==1 ? 0 : n==2 ? 1 : 2", "0", "n%10==1 && n%100!=11"}
	nums := []uint{0, 1, 2, 3, 6}
	extras := [][]hf{nil, {{Key: "X-A", Value: "1"}}, {{Key: "X-B", Value: "b: c"}, {Key: "X-A", Value: "https://x/;"}}, {{Key: "x-generator", Value: "lower"}}}
	r.Space("configs-coded", "full product of template mark, media type, character set, plural expression, number of plurals, extra fields, with all other fields set or not", prod(2, len(media), len(charsets), len(plurals), len(nums), len(extras), 2), func(w *W, i int64) error {
		d := Dec{i}
		c := po.HeaderConfig{Template: d.B(), MediaType: media[d.N(len(media))], Charset: charsets[d.N(len(charsets))], Plural: plurals[d.N(len(plurals))], Nplurals: nums[d.N(len(nums))], ExtraFields: extras[d.N(len(extras))]}
		if d.B() {
			for _, f := range c14Config {
				f.set(&c, "v-"+f.name)
			}
		}
		w.Desc("%+v", c)
		w.State(w.desc)
		return c14CheckConfig(w, c)
	})

	known := strings.Fields("Project-Id-Version Report-Msgid-Bugs-To POT-Creation-Date PO-Revision-Date Last-Translator Language-Team Language MIME-Version Content-Type Content-Transfer-Encoding Plural-Forms X-Generator")
	alike := []func(string) string{
		strings.ToLower, strings.ToUpper,
		func(s string) string { return strings.ReplaceAll(s, "-", "_") },
		func(s string) string { return strings.ReplaceAll(s, "-", " ") },
		func(s string) string { return strings.ReplaceAll(s, "-", "") },
		func(s string) string { return strings.ReplaceAll(s, "-", "--") },
		func(s string) string { return "X-" + s },
		func(s string) string { return s + "-" },
		func(s string) string { return s + "s" },
		func(s string) string { return s + "-2" },
		func(s string) string { return s[:len(s)-1] },
		func(s string) string { return s[1:] },
		func(s string) string { return s + "." },
		func(s string) string { return "\u200b" + s },
		func(s string) string { return strings.Replace(s, "e", "é", 1) + "É" },
	}
	r.Space("extras-alike", "every pair of extra fields whose keys are like those of known fields (other case, other marks, shorter, longer), all other fields set or not, template or not", prod(len(known)*len(alike), len(known), 2, 2), func(w *W, i int64) error {
		d := Dec{i}
		a := d.N(len(known) * len(alike))
		k1 := alike[a/len(known)](known[a%len(known)])
		k2 := alike[(a/len(known)+1)%len(alike)](known[d.N(len(known))])
		for _, k := range known {
			if k1 == k || k2 == k || k1 == k2 {
				return nil
			}
		}
		c := po.HeaderConfig{Template: d.B(), Charset: "UTF-8", MediaType: "text/plain", Plural: "(n != 1)", Nplurals: 2, ExtraFields: []hf{{Key: k1, Value: "one"}, {Key: k2, Value: "two: 2"}}}
		if d.B() {
			for _, f := range c14Config {
				f.set(&c, "v-"+f.name)
			}
		}
		w.Desc("%+v", c)
		w.State(w.desc)
		return c14CheckConfig(w, c)
	})

	gettext := strings.Fields("ASCII ISO-8859-1 ISO-8859-2 ISO-8859-3 ISO-8859-4 ISO-8859-5 ISO-8859-6 ISO-8859-7 ISO-8859-8 ISO-8859-9 ISO-8859-13 ISO-8859-14 ISO-8859-15 KOI8-R KOI8-U KOI8-T CP850 CP866 CP874 CP932 CP949 CP950 CP1250 CP1251 CP1252 CP1253 CP1254 CP1255 CP1256 CP1257 GB2312 EUC-JP EUC-KR EUC-TW BIG5 BIG5-HKSCS GBK GB18030 SHIFT_JIS JOHAB TIS-620 VISCII GEORGIAN-PS UTF-8")
	r.Space("charsets", "every character set that gettext supports, in capitals, small and mixed letters", prod(len(gettext), 3, 2, 2), func(w *W, i int64) error {
		d := Dec{i}
		c := po.HeaderConfig{Template: d.B(), MediaType: "text/plain", Plural: "0", Nplurals: 1}
		c.Charset = gettext[d.N(len(gettext))]
		switch d.N(3) { // Names of character sets have no case.
		case 1:
			c.Charset = strings.ToLower(c.Charset)
		case 2:
			c.Charset = c.Charset[:1] + strings.ToLower(c.Charset[1:])
		}
		w.Desc("%+v", c)
		w.State(w.desc)
		if errs := c.Validate(); len(errs) > 0 {
			return failf("validate", "reported: %v", errs)
		}
		if d.B() {
			c.Charset += "x"
			if errs := c.Validate(); len(errs) != 1 {
				return failf("validate", "character set %s reported as %v", c.Charset, errs)
			}
			return nil
		}
		return c14CheckConfig(w, c)
	})

	texts := []string{"", "v", "a: b; c=d", "https://x.org:1/", "2024-01-02 03:04+0500", "é \"q\" \\"}
	per := len(c14Config) * len(texts)
	pairs := prod(per, per, 2)
	r.Space("configs-text", "all pairs of text fields with all pairs of values, template or not, set directly and by options", pairs, func(w *W, i int64) error {
		d := Dec{i}
		a, b := d.N(per), d.N(per)
		tmpl := d.B()
		c := po.HeaderConfig{Template: tmpl}
		opts := []po.HeaderOption{po.HeaderWithTemplate(tmpl)}
		for _, x := range []int{a, b} {
			f, v := c14Config[x%len(c14Config)], texts[x/len(c14Config)]
			f.set(&c, v)
			opts = append(opts, f.opt(v))
		}
		w.Desc("%+v", c)
		w.State(w.desc)
		if err := c14SameConfig("HeaderConfigFromOptions", po.HeaderConfigFromOptions(opts...), c); err != nil {
			return err
		}
		if g, x := dumpFields(po.NewHeader(opts...).Fields), dumpFields(c.ToHeader().Fields); g != x {
			return failf("new-header", "NewHeader gives\n%sexpected\n%s", g, x)
		}
		// defaults are starting points for the options and stay as they are
		for _, tm := range []bool{false, true} {
			def := po.DefaultHeaderConfig
			if tm {
				def = po.DefaultTemplateHeaderConfig
			}
			base := def()
			x := base
			for _, j := range []int{a, b} {
				c14Config[j%len(c14Config)].set(&x, texts[j/len(c14Config)])
			}
			x.Template = tmpl
			if err := c14SameConfig("default with options", def(opts...), x); err != nil {
				return err
			}
			if err := c14SameConfig("default after options", def(), base); err != nil {
				return err
			}
			if err := c14SameConfig("whole configuration", po.HeaderConfigFromOptions(opts[1], po.HeaderWithConfig(x)), x); err != nil {
				return err
			}
		}
		return c14CheckConfig(w, c)
	})
	r.Space("options-coded", "the media type, character set, plural options in all orders over a default and an empty configuration", prod(len(media), len(charsets), len(plurals), len(nums), int(fact(4))), func(w *W, i int64) error {
		d := Dec{i}
		c := po.HeaderConfig{MediaType: media[d.N(len(media))], Charset: charsets[d.N(len(charsets))], Plural: plurals[d.N(len(plurals))], Nplurals: nums[d.N(len(nums))]}
		all := []po.HeaderOption{po.HeaderWithMediaType(c.MediaType), po.HeaderWithCharset(c.Charset), po.HeaderWithPlural(c.Plural), po.HeaderWithNplurals(c.Nplurals)}
		var opts []po.HeaderOption
		for _, j := range permAt(4, d.i) {
			opts = append(opts, all[j])
		}
		w.Desc("%+v", c)
		w.State(w.desc)
		w.Trace()
		if err := c14SameConfig("options", po.HeaderConfigFromOptions(opts...), c); err != nil {
			return err
		}
		x := po.DefaultHeaderConfig()
		x.MediaType, x.Charset, x.Plural, x.Nplurals = c.MediaType, c.Charset, c.Plural, c.Nplurals
		if err := c14SameConfig("options", po.DefaultHeaderConfig(opts...), x); err != nil {
			return err
		}
		// validation names exactly what is wrong
		bad := 0
		if (c.Plural == "") != (c.Nplurals == 0) {
			bad++
		}
		if c.MediaType == "text/html" {
			bad++
		}
		if g := len(c.Validate()); g != bad {
			return failf("validate", "%d problems reported, expected %d: %v", g, bad, c.Validate())
		}
		return nil
	})
}
