// Catalogs of many messages, messages with many parts, texts of many lines.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// bigSizes are counts around the powers of two and of ten.
func bigSizes(max int) (out []int) {
	for _, n := range []int{4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025} {
		if n <= max {
			out = append(out, n)
		}
	}
	return
}

const bigKinds = 4

var bigKindNames = [bigKinds]string{"plain messages", "messages of every kind", "of every part of a message", "lines of every text"}

// bigCat has n messages (plain or of every kind), or a message with n of every part, or texts of n lines.
func bigCat(n, kind int) (cat ents) {
	switch kind {
	case 0:
		for k := 0; k < n; k++ {
			cat = append(cat, ent{ID: fmt.Sprintf("message %d", k), Str: fmt.Sprintf("mensaje %d", k)})
		}
	case 1:
		cat = ents{{Str: "Language: es\nPlural-Forms: nplurals=2; plural=(n != 1);\n", Comments: strs("title")}}
		for k := 1; k < n; k++ {
			e := ent{ID: fmt.Sprintf("%c id %d", 'a'+k*7%26, k), Str: fmt.Sprintf("t%d", k)}
			if k%3 == 1 {
				e.Plural, e.Str, e.Plurals = e.ID+"s", "", pes{{ID: 0, Str: fmt.Sprintf("p%d", k)}, {ID: 1, Str: fmt.Sprintf("q%d", k)}}
			}
			if k%5 == 2 {
				e.Context = fmt.Sprintf("c%d", k%2)
			}
			if k%4 == 3 {
				e.Flags = strs("c-format", "fuzzy")
			}
			if k%6 == 5 {
				e.Comments, e.ExtractedComments = strs(fmt.Sprint("note ", k)), strs(fmt.Sprint("x ", k))
			}
			if k%7 == 6 {
				e.Obsolete = true
			} else if k%2 == 0 {
				e.Locations = locs{{Line: n - k, File: fmt.Sprintf("f%d.go", k%3)}}
			}
			if k%11 == 10 {
				e.Previous = strs(fmt.Sprintf(`msgid "was %d"`, k))
			}
			cat = append(cat, e)
		}
	case 2:
		e := ent{ID: "wide", Context: "c", Plural: "wides"}
		for k := 0; k < n; k++ {
			s := fmt.Sprint(k)
			e.Flags = append(e.Flags, "flag-"+s)
			e.Comments = append(e.Comments, "comment "+s)
			e.ExtractedComments = append(e.ExtractedComments, "extracted "+s)
			e.Previous = append(e.Previous, `"previous `+s+`"`)
			e.Plurals = append(e.Plurals, pe{ID: k, Str: "form " + s})
			e.Locations = append(e.Locations, loc{Line: n - k, File: fmt.Sprintf("dir%d/file.go", k%5)})
		}
		e.Previous[0] = `msgid "previous 0"`
		cat = ents{{ID: "before", Str: "b"}, e, {ID: "zz after", Str: "a", Comments: strs("own")}}
	default:
		var b strings.Builder
		for k := 0; k < n; k++ {
			fmt.Fprintf(&b, "%d %s\n", k, strings.Repeat("wörd ", k%20))
		}
		t := b.String()
		cat = ents{{ID: "before", Str: "b"}, {ID: "id " + t, Context: t, Str: t + "end"}, {ID: t + "p", Plural: t + "ps", Plurals: pes{{ID: 0, Str: t}, {ID: 1, Str: "x" + t}}}, {ID: "zz after", Str: "a"}}
	}
	return
}

// large runs a check on the catalogs of every size and kind, with k of n settings each.
func large(r *Run, what string, max, tmax, settings int, body func(w *W, cat ents, k int) error) {
	if r.Thorough {
		max = tmax
	}
	sizes := bigSizes(max)
	r.Space("large", fmt.Sprintf("catalogs of up to %d messages, messages with up to as many references, flags, comments of every kind and plural forms, texts of up to as many lines: %s", max, what), prod(len(sizes), bigKinds, settings), func(w *W, i int64) error {
		d := &Dec{i}
		k := d.N(settings)
		kind, n := d.N(bigKinds), sizes[d.i]
		w.Desc("%d %s, setting %d", n, bigKindNames[kind], k)
		w.State(w.desc)
		return body(w, bigCat(n, kind), k)
	})
}

// bigParts splits a catalog in two that share every third message.
func bigParts(cat ents) (a, b ents) {
	for k, e := range cat {
		if k%3 != 1 {
			a = append(a, cloneE(e))
		}
		if k%3 != 2 {
			b = append(b, cloneE(e))
		}
	}
	return
}

// bigTemplate is what the sources would say of a catalog in which every 5th message was removed and every 7th renamed.
func bigTemplate(cat ents) (ref ents) {
	for k, e := range cat {
		if isHeader(e) || k%5 == 4 {
			continue
		}
		m := ent{ID: e.ID, Context: e.Context, Plural: e.Plural, Locations: locs{{Line: 3 * k, File: "new.go"}}}
		if len(e.Locations) > 5 {
			for j := range e.Locations {
				m.Locations = append(m.Locations, loc{Line: j, File: "many.go"})
				m.ExtractedComments = append(m.ExtractedComments, fmt.Sprint("new ", j))
			}
		}
		if k%7 == 3 {
			m.ID += " now"
		}
		ref = append(ref, m)
	}
	return
}

// c16Large extracts from trees of many files, nested deeply, listed often, and from files with many calls.
func c16Large(r *Run, root string) {
	max := 129
	if r.Thorough {
		max = 513
	}
	sizes := bigSizes(max)
	const kinds = 6
	r.Space("large", fmt.Sprintf("directories of up to %d files, files nested up to 60 deep, lists of as many paths, of one path repeated, with as many excludes, files of as many calls, with and without collecting references", max), prod(len(sizes), kinds, 2), func(w *W, i int64) error {
		d := &Dec{i}
		dups := d.B()
		kind, n := d.N(kinds), sizes[d.i]
		w.Desc("%d, kind %d, keep duplicates %v", n, kind, dups)
		w.State(w.desc)
		t := &c16World{root: filepath.Join(root, fmt.Sprintf("t%d", w.ID()))}
		defer os.RemoveAll(t.root)
		var paths, ex []string
		dir := ""
		file := func(p string, ids ...string) {
			f := c16File{path: p}
			var b strings.Builder
			b.WriteString(c16Head)
			for k, id := range ids {
				fmt.Fprintf(&b, "var v%d = gotext.Get(%q)\n", k, id)
				f.msgs = append(f.msgs, c16msg(id, "", "", 5+k))
			}
			f.text = b.String()
			t.files = append(t.files, f)
		}
		switch kind {
		case 0, 1, 3, 4: // one directory; all listed; all listed twice; all but one excluded
			for k := 0; k < n; k++ {
				p := fmt.Sprintf("f%d.go", k)
				file(p, fmt.Sprint("id ", k), "shared")
				if kind == 1 || kind == 3 {
					paths = append(paths, t.root+"/"+p)
				}
				if kind == 4 && k != n/2 {
					ex = append(ex, t.root+"/"+p)
				}
			}
			if kind == 3 {
				paths = append(paths, paths...)
			}
		case 2: // nested
			for k := 0; k < n && k < 60; k++ {
				dir += fmt.Sprintf("d%d/", k%7)
				file(dir+"x.go", fmt.Sprint("id ", k), "shared")
			}
		case 5: // one file with many calls
			ids := make([]string, 2*n)
			for k := range ids {
				ids[k] = fmt.Sprint("id ", k%(n+n/2))
			}
			file("many.go", ids...)
		}
		if paths == nil {
			paths = strs(t.root)
		}
		for _, f := range t.files {
			p := filepath.Join(t.root, f.path)
			os.MkdirAll(filepath.Dir(p), 0o755)
			if err := os.WriteFile(p, []byte(f.text), 0o644); err != nil {
				return failf("env", "%v", err)
			}
		}
		return t.check(w, paths, ex, c16Opts{dups: dups})
	})
}
