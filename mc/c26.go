// C26: catalog files are interchangeable with GNU gettext.
package main

import (
	"bytes"
	_ "embed"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C26"] = propDef{
		level: "model_checking",
		notes: []string{
			"plural forms are numbered from 0; texts have no NUL, CR or contexts with EOT",
			"character sets: UTF-8, the one-byte ones and the EUC ones (not CP1255, which makes msgcat crash); in the others (SHIFT_JIS, BIG5, ...) a byte of a character may be a backslash, which this library, other than GNU gettext, takes for an escape",
			"what GNU gettext itself normalises is not compared: flags it does not know, the fuzzy mark of untranslated messages, obsolete messages without translation, repeated references, ./ in references",
			"oracle: GNU gettext 0.21's msgcat, msgfmt and msgunfmt, and the C library's gettext, run on files written by the code under test, and the other way round",
		},
		run: runC26,
	}
}

//go:embed gnulookup.c.txt
var gnuLookupSource string

const c26Header = "Content-Type: text/plain; charset=UTF-8\nPlural-Forms: nplurals=3; plural=n;\n"

// gnu runs a GNU tool on an input and returns its standard output.
func (r *Run) gnu(w *W, files map[string]string, stdin, tool string, args ...string) (string, error) {
	dir := filepath.Join(r.Scratch, fmt.Sprintf("gnu%d", w.ID()))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", failf("env", "%v", err)
	}
	for n, t := range files {
		if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0o755); err != nil {
			return "", failf("env", "%v", err)
		}
		if err := os.WriteFile(filepath.Join(dir, n), []byte(t), 0o644); err != nil {
			return "", failf("env", "%v", err)
		}
	}
	c := exec.Command(tool, args...)
	c.Dir = dir
	c.Env = strs("PATH=/usr/bin:/bin", "HOME="+dir, "LC_ALL=C.UTF-8", "LOCPATH="+filepath.Join(r.Scratch, "locale"))
	if !strings.HasPrefix(tool, r.Scratch) {
		c.Env = c.Env[:len(c.Env)-1]
	}
	c.Stdin = strings.NewReader(stdin)
	var out, eb bytes.Buffer
	c.Stdout, c.Stderr = &out, &eb
	msg := ""
	err := c.Run()
	w.Trans(1)
	if err != nil {
		for _, l := range strings.SplitAfter(eb.String(), "\n") {
			if !strings.Contains(l, "warning: ") {
				msg += l
			}
		}
		return "", failf("gnu", "GNU %s %s does not take what was written: %v\n%.1500s", filepath.Base(tool), strings.Join(args, " "), err, msg)
	}
	return out.String(), nil
}

var c26Known = map[string]bool{"c-format": true, "no-wrap": true, "no-c-format": true, "range: 0..9": true, "java-format": true, "python-format": true}

// gnuImage is what GNU gettext keeps of a catalog: live entries, then the obsolete translated ones.
func gnuImage(cat ents) ents {
	var out ents
	for _, e := range poImage(cat) {
		done := e.Str != "" || len(e.Plurals) > 0 && e.Plurals[0].Str != ""
		if e.Obsolete && !done {
			continue
		}
		var fl []string
		for _, f := range e.Flags {
			if c26Known[f] || f == "fuzzy" && done {
				fl = append(fl, f)
			}
		}
		sort.Strings(fl)
		for i := len(fl) - 1; i > 0; i-- {
			if fl[i] == fl[i-1] {
				fl = append(fl[:i], fl[i+1:]...)
			}
		}
		e.Flags = fl
		var ls locs
		seen := map[loc]bool{}
		for _, l := range e.Locations {
			l.File = strings.TrimPrefix(l.File, "./")
			if !seen[l] {
				ls = append(ls, l)
			}
			seen[l] = true
		}
		e.Locations = ls
		for i, p := range e.Previous { // --indent
			if f := strings.Fields(p); len(f) > 1 && strings.HasPrefix(f[0], "msg") {
				e.Previous[i] = f[0] + " " + strings.TrimLeft(p[len(f[0]):], " \t")
			}
		}
		out = append(out, e)
	}
	return out
}

// c26Menu are the rich entries GNU gettext can represent, each also next to any other.
func c26Menu() ents {
	var out ents
next:
	for _, e := range richMenu() {
		if isHeader(e) {
			continue
		}
		for i, p := range e.Plurals {
			if p.ID != i {
				continue next
			}
		}
		for _, f := range e.Flags {
			if f != "fuzzy" && strings.Contains(strings.ToLower(f), "fuzzy") {
				continue next
			}
		}
		for _, p := range e.Previous {
			if p == "" || p == "%" {
				continue next
			}
		}
		if strings.Contains(e.Str+e.ID, "\r") {
			continue
		}
		out = append(out, e)
	}
	return out
}

// c26Batch puts a next to every entry of the menu, each with an identity of its own.
func c26Batch(menu ents, a int) ents {
	cat := ents{{Str: c26Header}}
	add := func(e ent, n string) {
		e = cloneE(e)
		e.ID = n + e.ID
		if e.Plural != "" {
			e.Plural = n + e.Plural
		}
		cat = append(cat, e)
	}
	for i := range menu {
		add(menu[a], fmt.Sprintf("%da", i))
		add(menu[i], fmt.Sprintf("%db", i))
	}
	return cat
}

// c26Texts are entries with the texts in every position.
func c26Texts(ts []string) ents {
	cat := ents{{Str: c26Header}}
	for i, t := range ts {
		n := fmt.Sprint(i)
		cat = append(cat,
			ent{ID: n + "i" + t, Str: t},
			ent{Context: n + t, ID: t + n, Str: t + t},
			ent{ID: n + "p" + t, Plural: "p" + t, Plurals: pes{{ID: 0, Str: t}, {ID: 1, Str: "q" + t}, {ID: 2, Str: t + "r"}}},
			ent{ID: n + "o" + t, Context: t, Str: "o" + t, Obsolete: true},
		)
	}
	return cat
}

var c26Writers = []struct {
	name string
	opts []compile.PoOption
}{
	{"default", nil},
	{"wrap", []compile.PoOption{compile.PoWithWordWrap(true)}},
}

var c26Rewrites = [][]string{
	{"--no-wrap"}, {}, {"--width=20"}, {"--width=41"}, {"--escape"}, {"--indent"}, {"--escape", "--width=33"},
}

// c26Po has GNU gettext read what the code under test writes, and reads what GNU gettext writes.
func (r *Run) c26Po(w *W, cat ents, all bool) error {
	want := gnuImage(cat)
	for k, wr := range c26Writers {
		text, err := writePo(cat, wr.opts...)
		if err != nil {
			return err
		}
		for j, args := range c26Rewrites {
			if !all && (j > 0 || k > 0) && j != 1+k {
				continue
			}
			out, err := r.gnu(w, nil, text, "/usr/bin/msgcat", append(args, "-")...)
			if err != nil {
				return err
			}
			got, err := readPo(out)
			if err != nil {
				return err
			}
			w.Trans(2)
			w.Trace()
			if err := sameList("msgcat", fmt.Sprintf("writer %s, msgcat %v", wr.name, args), gnuImage(got), want); err != nil {
				return err
			}
		}
	}
	return nil
}

// sameList compares entry by entry and shows the first difference.
func sameList(key, what string, got, want ents) error {
	for i := range want {
		if i >= len(got) {
			return failf(key, "%s: %d entries instead of %d; the first one missing at the end is\n%s", what, len(got), len(want), dumpE(want[i]))
		}
		if g, x := dumpE(got[i]), dumpE(want[i]); g != x {
			return failf(key, "%s: entry %d is\n%s\ninstead of\n%s", what, i, g, x)
		}
	}
	if len(got) > len(want) {
		return failf(key, "%s: %d entries instead of %d; the first extra one is\n%s", what, len(got), len(want), dumpE(got[len(want)]))
	}
	return nil
}

// c26Mo does the same with MO files, and looks every message up with the C library.
func (r *Run) c26Mo(w *W, cat ents, lookup string, all bool) error {
	want := moImage(cat, true, true)
	for k, o := range byteOrders[:2] {
		for _, hash := range []bool{true, false} {
			if !all && k > 0 && !hash {
				continue
			}
			what := fmt.Sprintf("%v, hash table %v", o, hash)
			mo := compile.MoToBytes(cat, compile.MoWithEndianness(o), compile.MoWithHashTable(hash))
			out, err := r.gnu(w, nil, string(mo), "/usr/bin/msgunfmt", "--no-wrap", "-")
			if err != nil {
				return err
			}
			got, err := readPo(out)
			if err != nil {
				return err
			}
			w.Trans(2)
			w.Trace()
			if err := sameList("msgunfmt", what+": msgunfmt", c26Untranslated(got), c26Untranslated(want)); err != nil {
				return err
			}
			if lookup == "" {
				continue
			}
			var q strings.Builder
			var exp []string
			ask := func(ctx, id, plural string, n int, t string) {
				fmt.Fprintf(&q, "%s\x00%s\x00%s\x00%d\x00", ctx, id, plural, n)
				exp = append(exp, t)
			}
			for _, e := range want {
				if isHeader(e) {
					continue
				}
				if e.Plural == "" {
					ask(e.Context, e.ID, "", 0, e.Str)
				} else {
					for i, p := range e.Plurals {
						ask(e.Context, e.ID, e.Plural, i, p.Str)
					}
				}
				ask(e.Context, e.ID+" absent", "", 0, "\x01none")
				ask("absent "+e.Context, e.ID, "", 0, "\x01none")
			}
			out, err = r.gnu(w, map[string]string{"xx/LC_MESSAGES/d.mo": string(mo)}, q.String(), lookup, ".")
			if err != nil {
				return err
			}
			ans := strings.Split(out, "\x00")
			if len(ans) != len(exp)+1 {
				return failf("lookup", "%s: %d answers to %d lookups", what, len(ans)-1, len(exp))
			}
			for i, t := range exp {
				if ans[i] != t {
					return failf("lookup", "%s: lookup %q finds %q instead of %q", what, strings.Split(q.String(), "\x00")[4*i:4*i+4], ans[i], t)
				}
			}
		}
	}
	// GNU's MO file of the same catalog, without the messages that msgfmt refuses.
	cat = c26Newlines(cat)
	want = moImage(cat, true, true)
	text, err := writePo(cat)
	if err != nil {
		return err
	}
	for j, args := range [][]string{{}, {"--endianness=big"}, {"--no-hash"}, {"--alignment=16"}, {"--endianness=big", "--no-hash", "--alignment=64"}} {
		if !all && j > 1 {
			continue
		}
		mo, err := r.gnu(w, nil, text, "/usr/bin/msgfmt", append(args, "-o", "-", "-")...)
		if err != nil {
			return err
		}
		p := parse.NewMoFromBytes([]byte(mo), "x.mo")
		f := p.Parse()
		if err := p.Error(); err != nil {
			return failf("mo-read", "msgfmt %v: the MO parser reports %v", args, err)
		}
		w.Trans(1)
		w.Trace()
		if err := sameList("msgfmt", fmt.Sprintf("msgfmt %v", args), f.Entries, c26Translated(want)); err != nil {
			return err
		}
	}
	return nil
}

// c26Newlines leaves out messages whose texts do not all begin and end with line breaks, or all not.
func c26Newlines(es ents) (out ents) {
next:
	for _, e := range es {
		ts := strs(e.Str)
		if e.Plural != "" {
			ts = strs(e.Plural)
			for _, p := range e.Plurals {
				ts = append(ts, p.Str)
			}
		}
		for _, t := range ts {
			if !isHeader(e) && t != "" && (strings.HasPrefix(t, "\n") != strings.HasPrefix(e.ID, "\n") || strings.HasSuffix(t, "\n") != strings.HasSuffix(e.ID, "\n")) {
				continue next
			}
		}
		out = append(out, e)
	}
	return
}

// c26Untranslated leaves out how many empty forms an untranslated plural message has.
func c26Untranslated(es ents) (out ents) {
	for _, e := range clone(es) {
		e.Flags, e.Comments, e.ExtractedComments, e.Previous, e.Locations = nil, nil, nil, nil, nil
		out = append(out, e)
	}
	return
}

// c26Translated are the messages GNU msgfmt writes: the translated ones.
func c26Translated(es ents) (out ents) {
	for _, e := range es {
		if e.Str != "" || len(e.Plurals) > 0 && e.Plurals[0].Str != "" {
			out = append(out, e)
		}
	}
	return
}

// charsetRow is a group of characters of a character set.
type charsetRow struct {
	set   string
	chars []string
}

// c26Charsets are the character sets of which no character has an ASCII byte, except the ASCII ones.
func c26Charsets() []string {
	return strings.Fields("ISO-8859-1 ISO-8859-2 ISO-8859-3 ISO-8859-4 ISO-8859-5 ISO-8859-6 ISO-8859-7 ISO-8859-8 ISO-8859-9 ISO-8859-13 ISO-8859-14 ISO-8859-15 KOI8-R KOI8-U KOI8-T CP850 CP866 CP874 CP1250 CP1251 CP1252 CP1253 CP1254 CP1256 CP1257 TIS-620 GB2312 EUC-JP EUC-KR EUC-TW")
}

// c26Rows are the characters of a set, one row for each leading byte, as iconv knows them.
func c26Rows(set string) (rows []charsetRow) {
	var groups [][]string
	if strings.HasPrefix(set, "EUC") || set == "GB2312" {
		for a := 0xa1; a < 0xff; a++ {
			var g []string
			for b := 0xa1; b < 0xff; b++ {
				g = append(g, string([]byte{byte(a), byte(b)}))
			}
			groups = append(groups, g)
		}
	} else {
		var g []string
		for a := 0xa0; a < 0x100; a++ {
			g = append(g, string([]byte{byte(a)}))
		}
		groups = append(groups, g)
		if strings.HasPrefix(set, "CP") || strings.HasPrefix(set, "KOI") {
			g = nil
			for a := 0x80; a < 0xa0; a++ {
				g = append(g, string([]byte{byte(a)}))
			}
			groups = append(groups, g)
		}
	}
	for _, g := range groups {
		c := exec.Command("/usr/bin/iconv", "-c", "-f", set, "-t", "UTF-8")
		c.Stdin = strings.NewReader(strings.Join(g, "\n") + "\n")
		out, _ := c.Output() // it fails when something is left out
		lines := strings.Split(string(out), "\n")
		if len(lines) != len(g)+1 {
			continue
		}
		row := charsetRow{set: set}
		for i, l := range lines[:len(g)] {
			if l != "" {
				row.chars = append(row.chars, g[i])
			}
		}
		if len(row.chars) > 0 {
			rows = append(rows, row)
		}
	}
	return rows
}

func runC26(r *Run) {
	for _, t := range strs("msgcat", "msgfmt", "msgunfmt") {
		if _, err := os.Stat("/usr/bin/" + t); err != nil {
			fmt.Printf("C26: GNU %s is not installed, nothing is explored\n", t)
			r.exhaustive = false
			return
		}
	}
	lookup := filepath.Join(r.Scratch, "gnulookup")
	var once sync.Once
	build := func() string {
		once.Do(func() {
			// The C library does not look for translations in the C.UTF-8 locale, but does in a copy of it.
			src := filepath.Join(r.Scratch, "gnulookup.c")
			os.WriteFile(src, []byte(gnuLookupSource), 0o644)
			os.Mkdir(filepath.Join(r.Scratch, "locale"), 0o755)
			out, err := exec.Command("cp", "-r", "/usr/lib/locale/C.utf8", filepath.Join(r.Scratch, "locale", "xx")).CombinedOutput()
			if err == nil {
				out, err = exec.Command("gcc", "-O1", "-o", lookup, src).CombinedOutput()
			}
			if err != nil {
				fmt.Printf("C26: no lookups by the C library: %v %s\n", err, out)
				lookup = ""
				r.exhaustive = false
			}
		})
		return lookup
	}
	menu := c26Menu()
	r.Space("po", fmt.Sprintf("every entry of the rich menu next to every entry of it (%d catalogs of %d messages): written as PO, rewritten by msgcat in several layouts, read back", len(menu), 2*len(menu)), int64(len(menu)), func(w *W, i int64) error {
		cat := c26Batch(menu, int(i))
		w.Desc("every entry next to %s", dumpE(menu[i]))
		for _, e := range menu {
			w.State(dumpE(menu[i]) + dumpE(e))
		}
		return r.c26Po(w, cat, r.Thorough || i%8 == 0)
	})
	r.Space("mo", "the same catalogs compiled to MO: decompiled by msgunfmt, every message and absent ones looked up by the C library, and msgfmt's MO file of them read", int64(len(menu)), func(w *W, i int64) error {
		cat := c26Batch(menu, int(i))
		w.Desc("every entry next to %s", dumpE(menu[i]))
		return r.c26Mo(w, cat, build(), r.Thorough || i%8 == 0)
	})
	r.Space("merge", "every entry of the rich menu merged with every template entry (and with messages only one side has), without guessing: the library's merge and GNU msgmerge keep the same", int64(len(menu)), func(w *W, i int64) error {
		a := menu[i]
		w.Desc("existing entries %s", dumpE(a))
		def, ref := ents{{Str: c26Header, Comments: strs("title")}}, ents{{Str: c26Header}}
		for k, b := range menu {
			w.State(dumpE(a) + dumpE(b) + "merge")
			a, b := cloneE(a), cloneE(b)
			if (a.Plural == "") != (b.Plural == "") || b.Obsolete || len(a.Flags) == 1 && strings.HasPrefix(a.Flags[0], "range") { // GNU has other rules
				continue
			}
			a.ID = fmt.Sprintf("%d%s", k, a.ID)
			b.ID, b.Context, b.Plural, b.Flags, b.Previous = a.ID, a.Context, a.Plural, nil, nil
			def, ref = append(def, a), append(ref, b)
			a.ID, b.ID = "old"+a.ID, "new"+a.ID
			def, ref = append(def, a), append(ref, b)
		}
		if len(def) == 1 {
			return nil
		}
		td, err := writePo(def)
		if err != nil {
			return err
		}
		tr, err := writePo(ref)
		if err != nil {
			return err
		}
		out, err := r.gnu(w, map[string]string{"a.po": td, "b.pot": tr}, "", "/usr/bin/msgmerge", "-q", "-N", "--no-wrap", "a.po", "b.pot")
		if err != nil {
			return err
		}
		got, err := readPo(out)
		if err != nil {
			return err
		}
		w.Trans(2)
		w.Trace()
		ours := po.Merge(def, ref, po.MergeWithFuzzyMatch(false))
		byID := func(es ents) ents {
			es = gnuImage(es)
			for i, e := range es { // msgmerge gives a new plural message nplurals empty forms.
				for len(es[i].Plurals) > 0 && e.Plurals[len(es[i].Plurals)-1].Str == "" {
					es[i].Plurals = e.Plurals[:len(es[i].Plurals)-1]
				}
				if e.Obsolete { // msgmerge drops what came from the sources.
					es[i].ExtractedComments, es[i].Locations = nil, nil
				}
				es[i].Previous = nil
				es[i].Flags = nil // msgmerge takes format flags from the template.
				if isFuzzy(e) {
					es[i].Flags = strs("fuzzy")
				}
			}
			sort.SliceStable(es, func(i, j int) bool { return refUID(es[i]) < refUID(es[j]) })
			return es
		}
		return sameList("msgmerge", "library and msgmerge", byID(ours), byID(got))
	})
	r.Space("cat", "every live entry of the rich menu concatenated with every other one that GNU gettext treats alike: the library and GNU msgcat give the same texts", int64(len(menu)), func(w *W, i int64) error {
		a := menu[i]
		w.Desc("first entries %s", dumpE(a))
		one, two := ents{{Str: c26Header}}, ents{{Str: c26Header}}
		for k, b := range menu {
			a, b := cloneE(a), cloneE(b)
			if (a.Plural == "") != (b.Plural == "") || len(a.Plurals) != len(b.Plurals) || a.Obsolete || b.Obsolete || isFuzzy(a) || isFuzzy(b) {
				continue
			}
			if strings.HasSuffix(a.Str, "\n") || strings.HasSuffix(b.Str, "\n") {
				continue
			}
			if a.Plural != "" && len(a.Plurals) == 0 {
				continue
			}
			if a.Plural != "" && (strings.HasSuffix(a.Plurals[len(a.Plurals)-1].Str, "\n") || a.Plurals[0].Str == "" || b.Plurals[0].Str == "" || a.Plurals[len(a.Plurals)-1].Str == "" || b.Plurals[len(b.Plurals)-1].Str == "") {
				continue
			}
			same := 0
			for j := range a.Plurals {
				if a.Plurals[j].Str == b.Plurals[j].Str {
					same++
				}
			}
			if same > 0 && same < len(a.Plurals) { // GNU marks all forms then
				continue
			}
			w.State(dumpE(a) + dumpE(b) + "cat")
			a.ID = fmt.Sprintf("%d%s", k, a.ID)
			b.ID, b.Context, b.Plural = a.ID, a.Context, a.Plural
			one, two = append(one, a), append(two, b)
			a.ID, b.ID = "one"+a.ID, "two"+a.ID
			one, two = append(one, a), append(two, b)
		}
		if len(one) == 1 {
			return nil
		}
		t1, err := writePo(one)
		if err != nil {
			return err
		}
		t2, err := writePo(two)
		if err != nil {
			return err
		}
		for _, first := range []bool{false, true} {
			if first && a.Plural == "" && a.Str == "" { // GNU has the first translated one
				continue
			}
			args := strs("--no-wrap", "a.po", "b.po")
			if first {
				args = append(args, "--use-first")
			}
			out, err := r.gnu(w, map[string]string{"a.po": t1, "b.po": t2}, "", "/usr/bin/msgcat", args...)
			if err != nil {
				return err
			}
			got, err := readPo(out)
			if err != nil {
				return err
			}
			w.Trans(2)
			w.Trace()
			ours := po.MsgcatMergeFiles([]*po.File{{Name: "a.po", Entries: clone(one)}, {Name: "b.po", Entries: clone(two)}}, po.MsgcatMergeWithUseFirst(first))
			texts := func(es ents) (out ents) {
				for _, e := range gnuImage(es) {
					x := ent{ID: e.ID, Context: e.Context, Plural: e.Plural, Str: e.Str, Plurals: e.Plurals}
					if isFuzzy(e) {
						x.Flags = strs("fuzzy")
					}
					out = append(out, x)
				}
				return
			}
			if err := sameList("cat", fmt.Sprintf("library and msgcat, use-first %v", first), texts(ours), texts(got)); err != nil {
				return err
			}
		}
		return nil
	})
	fv := strs("", "A", "é\n")
	r.Space("forms", "plural messages with every number of forms up to six, every form empty, plain or with a line break", 6, func(w *W, i int64) error {
		n := int(i) + 1
		k := len(fv)
		if n > 4 {
			k = 2
		}
		cat := ents{{Str: fmt.Sprintf("Content-Type: text/plain; charset=UTF-8\nPlural-Forms: nplurals=%d; plural=n;\n", n)}}
		for c := int64(0); c < pow(k, n); c++ {
			d := &Dec{c}
			e := ent{ID: fmt.Sprint("id ", c), Plural: "ids"}
			for j := 0; j < n; j++ {
				e.Plurals = append(e.Plurals, pe{ID: j, Str: fv[d.N(k)]})
			}
			w.State(fmt.Sprint(n, c))
			cat = append(cat, e)
			e.Context, e.Obsolete = "c", true
			cat = append(cat, cloneE(e))
			e.Context, e.Obsolete = "live", false
			cat = append(cat, cloneE(e))
		}
		w.Desc("%d forms", n)
		if err := r.c26Po(w, cat, true); err != nil {
			return err
		}
		return r.c26Mo(w, cat, build(), true)
	})
	alpha := []string{"a", " ", `"`, `\`, "\n", "\t", "n", "0", "x", "\x07", "\x7f", "é", "\u0085", "\u2028", "\ufeff", "😀", "#", "~", "%", "msgid"}
	l := 3
	if r.Thorough {
		l = 4
	}
	per := int64(60)
	total := seqCount(len(alpha), l)
	r.Space("texts", fmt.Sprintf("all texts of up to %d symbols of 20 in every position, %d to a catalog", l, per), (total+per-1)/per, func(w *W, i int64) error {
		var ts []string
		for j := i * per; j < (i+1)*per && j < total; j++ {
			var b strings.Builder
			for _, k := range seqAt(len(alpha), j) {
				b.WriteString(alpha[k])
			}
			ts = append(ts, b.String())
			w.State(b.String())
		}
		w.Desc("texts %s .. %s", strconv.Quote(ts[0]), strconv.Quote(ts[len(ts)-1]))
		cat := c26Texts(ts)
		if err := r.c26Po(w, cat, r.Thorough); err != nil {
			return err
		}
		return r.c26Mo(w, cat, build(), r.Thorough)
	})
	block := 1024
	r.Space("codepoints", "every Unicode scalar value except NUL and CR in PO and MO files", int64(0x110000/block), func(w *W, i int64) error {
		var ts []string
		for c := int(i) * block; c < (int(i)+1)*block; c += 32 {
			var b strings.Builder
			for k := c; k < c+32; k++ {
				if k != 0 && k != '\r' && k != 4 && utf8.ValidRune(rune(k)) {
					b.WriteString(string(rune(k)))
				}
			}
			if b.Len() > 0 {
				ts = append(ts, b.String()+"1")
			}
		}
		w.Desc("U+%04X..", int(i)*block)
		w.State(w.desc)
		if len(ts) == 0 {
			return nil
		}
		cat := c26Texts(ts)
		if err := r.c26Po(w, cat, false); err != nil {
			return err
		}
		return r.c26Mo(w, cat, build(), false)
	})
	sets := c26Charsets()
	var rows []charsetRow
	for _, cs := range sets {
		rows = append(rows, c26Rows(cs)...)
	}
	r.Space("charsets", fmt.Sprintf("every non-ASCII character of %d other character sets in PO and MO files", len(sets)), int64(len(rows)), func(w *W, i int64) error {
		row := rows[i]
		w.Desc("%s %q..", row.set, row.chars[0])
		w.State(w.desc)
		var ts []string
		for j := 0; j < len(row.chars); j += 16 {
			all := ""
			for _, c := range row.chars[j:min(j+16, len(row.chars))] {
				w.State(row.set + c)
				all += c
			}
			ts = append(ts, all, "a"+all+"1", row.chars[j]+"\\"+row.chars[j]+"\"", row.chars[j])
		}
		cat := c26Texts(ts)
		cat[0].Str = strings.Replace(c26Header, "UTF-8", row.set, 1)
		for k := range cat[1:] {
			e := &cat[k+1]
			e.Comments, e.ExtractedComments = strs(row.chars[0]+" "+row.chars[0]), strs(row.chars[len(row.chars)-1])
			e.Previous = strs(`msgid "` + row.chars[0] + `"`)
		}
		if err := r.c26Po(w, cat, r.Thorough); err != nil {
			return err
		}
		return r.c26Mo(w, cat, "", r.Thorough)
	})
	words := []string{"a", "two words ", "longwordwithoutanybreak", "x\n", "é ü ", "漢字", `\"`, "%d ", "-", "\t"}
	r.Space("widths", "texts of repeated words in every output width of msgcat up to 100", prod(len(words), len(words), 100), func(w *W, i int64) error {
		d := &Dec{i}
		a, b, width := words[d.N(len(words))], words[d.N(len(words))], d.N(100)+1
		w.Desc("%q %q width %d", a, b, width)
		w.State(w.desc)
		if !r.Thorough && (d.i+i)%4 != 0 && width > 40 {
			return nil
		}
		cat := c26Texts([]string{strings.Repeat(a+b, 5), strings.Repeat(a, 9) + b, b + strings.Repeat(a, 20)})
		text, err := writePo(cat)
		if err != nil {
			return err
		}
		out, err := r.gnu(w, nil, text, "/usr/bin/msgcat", fmt.Sprintf("--width=%d", width), "-")
		if err != nil {
			return err
		}
		got, err := readPo(out)
		if err != nil {
			return err
		}
		w.Trans(2)
		w.Trace()
		return sameList("width", fmt.Sprintf("width %d", width), gnuImage(got), gnuImage(cat))
	})
	large(r, "as PO and as MO", 257, 1025, 2, func(w *W, cat ents, k int) error {
		if !isHeader(cat[0]) {
			cat = append(ents{{Str: c26Header}}, cat...)
		} else {
			cat[0].Str = c26Header
		}
		for j := range cat {
			if len(cat[j].Previous) > 1 { // GNU gettext joins the lines
				cat[j].Previous = strs(`msgid "was"`)
			}
			if len(cat[j].Plurals) > 3 { // as many as the header says
				cat[j].Plurals = cat[j].Plurals[:3]
			}
		}
		if k == 1 {
			return r.c26Mo(w, cat, build(), true)
		}
		return r.c26Po(w, cat, true)
	})
}
