// The rich menu: entries that vary every field over many values, alone and together.
package main

import "fmt"

// richField are values of one field of an entry; core ones are also combined with those of other fields.
type richField struct {
	name string
	core []func(*ent)
	more []func(*ent)
}

func richFields() []richField {
	str := func(ss ...string) (out []func(*ent)) {
		for _, s := range ss {
			out = append(out, func(e *ent) { e.Str, e.Plural, e.Plurals = s, "", nil })
		}
		return
	}
	pl := func(id string, ps ...pes) (out []func(*ent)) {
		for _, p := range ps {
			out = append(out, func(e *ent) { e.Str, e.Plural, e.Plurals = "", id, append(pes(nil), p...) })
		}
		return
	}
	lists := func(set func(*ent, []string), ls ...[]string) (out []func(*ent)) {
		for _, l := range ls {
			out = append(out, func(e *ent) { set(e, cloneStrs(l)) })
		}
		return
	}
	one := func(set func(*ent, string), ss ...string) (out []func(*ent)) {
		for _, s := range ss {
			out = append(out, func(e *ent) { set(e, s) })
		}
		return
	}
	refs := func(ls ...locs) (out []func(*ent)) {
		for _, l := range ls {
			out = append(out, func(e *ent) { e.Locations = append(locs(nil), l...) })
		}
		return
	}
	setID := func(e *ent, s string) { e.ID = s }
	setCtx := func(e *ent, s string) { e.Context = s }
	flags := func(e *ent, l []string) { e.Flags = l }
	comments := func(e *ent, l []string) { e.Comments = l }
	extracted := func(e *ent, l []string) { e.ExtractedComments = l }
	previous := func(e *ent, l []string) { e.Previous = l }
	tr := append(str("", "B", "AB"), pl("ms", pes{{ID: 0, Str: "A"}, {ID: 1, Str: "B"}}, pes{{ID: 0, Str: ""}, {ID: 1, Str: ""}}, pes{{ID: 0, Str: "A"}})...)
	trMore := str("a", "A ", " A", "A\n", "\nA", "A\nA", "BA", "é", "e\u0301", "100%", "%s", "%d A", `\n`, `\`, `"`, "\t", " ", "\r\n", "#", "~", "msgid \"x\"", "fuzzy", "A\n#-#-#\nB", "0", "a long translation that is longer than eighty columns so that any wrapping of lines has to break it somewhere")
	trMore = append(trMore, pl("ms", pes{{ID: 1, Str: "B"}, {ID: 0, Str: "A"}}, pes{{ID: 0, Str: ""}, {ID: 1, Str: "B"}}, pes{{ID: 0, Str: "A"}, {ID: 1, Str: ""}},
		pes{{ID: 0, Str: "A"}, {ID: 1, Str: "B"}, {ID: 2, Str: "C"}}, pes{{ID: 0, Str: "AB"}, {ID: 1, Str: "BA"}}, pes{{ID: 0, Str: "B"}, {ID: 1, Str: "A"}}, pes{{ID: 0, Str: "A"}, {ID: 1, Str: "A"}},
		pes{{ID: 2, Str: "C"}, {ID: 0, Str: "A"}, {ID: 1, Str: "B"}}, pes{{ID: 0, Str: "A "}, {ID: 1, Str: "B\n"}}, pes{{ID: 0, Str: " "}}, nil)...)
	trMore = append(trMore, pl("m", pes{{ID: 0, Str: "A"}, {ID: 1, Str: "B"}})...)
	trMore = append(trMore, pl("Ms", pes{{ID: 0, Str: "A"}, {ID: 1, Str: "B"}})...)
	trMore = append(trMore, pl("ms\n", pes{{ID: 0, Str: "A"}})...)
	return []richField{
		{"translation", tr, trMore},
		{"id", one(setID, "n", ""), one(setID, "M", "m ", " m", "mm", "m\n", "m\nm", "ms", "m%", "é", "\"m\"", `m\`, "m:", "#m", "zz something very different")},
		{"context", one(setCtx, "k"), one(setCtx, "K", "k ", "m", "kk", "k\n", "é")},
		{"flags", lists(flags, strs("fuzzy"), strs("c-format")), lists(flags, strs("fuzzy", "c-format"), strs("c-format", "fuzzy"), strs("Fuzzy"), strs("no-wrap"), strs("fuzzy-x"), strs("not fuzzy"), strs("c-format", "no-wrap", "x"), strs("range: 0..9"))},
		{"obsolete", []func(*ent){func(e *ent) { e.Obsolete = true }}, nil},
		{"comments", lists(comments, strs("t")), lists(comments, strs("t", "u"), strs("u", "t"), strs(""), strs("t "), strs(" t"), strs("", "t", ""), strs("t", "t"), strs("~ t"), strs(", fuzzy"), strs("100% %s"), strs("T"))},
		{"extracted", lists(extracted, strs("x")), lists(extracted, strs("x", "y"), strs("y", "x"), strs(""), strs("x "), strs("X"), strs("%d"))},
		{"previous", lists(previous, strs("msgid \"old\"")), lists(previous, strs("msgctxt \"k\"", "msgid \"old\""), strs(""), strs("%"))},
		{"references", refs(locs{{Line: 1, File: "a.go"}}), refs(locs{{Line: 2, File: "a.go"}}, locs{{Line: 10, File: "a.go"}}, locs{{Line: 1, File: "b.go"}}, locs{{Line: 1, File: "a.go"}, {Line: 2, File: "b.go"}}, locs{{Line: 2, File: "b.go"}, {Line: 1, File: "a.go"}}, locs{{Line: 1, File: "a.go"}, {Line: 1, File: "a.go"}}, locs{{Line: -1, File: "a.go"}}, locs{{Line: 0, File: "a.go"}}, locs{{Line: 3, File: "d/a b.go"}}, locs{{Line: 1, File: "./a.go"}}, locs{{Line: 1, File: "A.go"}})},
	}
}

// richHeaders are header entries with every kind of extra.
func richHeaders() ents {
	return ents{
		{Str: "Language: es\n"},
		{Str: "Language: fr\nPlural-Forms: nplurals=3; plural=n;\n"},
		{Str: ""},
		{Str: "Language: es\n", Flags: strs("fuzzy")},
		{Str: "Language: es\n", Flags: strs("no-wrap")},
		{Str: "Language: es\n", Flags: strs("fuzzy", "no-wrap")},
		{Str: "Language: es\n", Comments: strs("title", "", "second")},
		{Str: "Language: es\n", ExtractedComments: strs("x")},
		{Str: "Language: es\n", Previous: strs("msgid \"p\"")},
		{Str: "Language: es\n", Locations: locs{{Line: 1, File: "a.go"}}},
		{Str: "Language: es\n", Obsolete: true},
		{Str: "Language: es"},
		{Str: "X-A: 1\nX-A: 2\nLanguage: de\n", Comments: strs("t"), Flags: strs("c-format")},
	}
}

// richMenu is a base entry, each value of each field, and all pairs of core values of two fields.
func richMenu() ents {
	base := ent{ID: "m", Str: "A"}
	out := ents{base}
	fs := richFields()
	add := func(fns ...func(*ent)) {
		e := cloneE(base)
		for _, f := range fns {
			f(&e)
		}
		if e.ID == "" && e.Context == "" {
			if e.Str == "A" {
				e.Str = "Language: es\n"
			}
		}
		out = append(out, e)
	}
	for i, f := range fs {
		for _, v := range append(append([]func(*ent){}, f.core...), f.more...) {
			add(v)
		}
		for _, g := range fs[i+1:] {
			for _, v := range f.core {
				for _, u := range g.core {
					add(v, u)
				}
			}
		}
	}
	out = append(out, richHeaders()...)
	seen := map[string]bool{}
	var uniq ents
	for _, e := range out {
		if k := dumpE(e); !seen[k] {
			seen[k] = true
			uniq = append(uniq, e)
		}
	}
	return uniq
}

// oddEntries are entries no PO file gives, but the library's types allow.
func oddEntries() ents {
	return ents{
		{ID: "m", Str: "A", Plurals: pes{{ID: 0, Str: "B"}}},
		{ID: "m", Str: "A", Plural: "ms", Plurals: pes{{ID: 0, Str: "B"}, {ID: 1, Str: "C"}}},
		{ID: "m", Plurals: pes{{ID: 0, Str: "A"}, {ID: 1, Str: "B"}}},
		{ID: "m", Str: "A", Plural: "ms"},
		{ID: "m", Plural: "ms", Plurals: pes{{ID: 0, Str: "A"}, {ID: 0, Str: "B"}}},
		{ID: "m", Plural: "ms", Plurals: pes{{ID: 0, Str: "A"}, {ID: 0, Str: "A"}}},
		{ID: "m", Plural: "ms", Plurals: pes{{ID: 5, Str: "F"}}},
		{ID: "m", Plural: "ms", Plurals: pes{{ID: -1, Str: "N"}}},
		{ID: "m", Str: "A", Flags: strs("fuzzy", "fuzzy")},
		{ID: "m", Str: "A", Flags: strs("")},
		{ID: "m", Str: "A", Plurals: pes{}},
		{ID: "m", Context: "k", Str: "A", Plurals: pes{{ID: 0, Str: ""}}},
		{Str: "Language: es\n", Plurals: pes{{ID: 0, Str: "x"}}},
		{Str: "Language: es\n", Plural: "x"},
		{},
		{Context: "k"},
	}
}

// richPairs checks all ordered pairs of a menu under k settings.
func richPairs(r *Run, name, what string, menu ents, k int, f func(w *W, a, b ent, k int) error) {
	n := len(menu)
	r.Space(name, fmt.Sprintf("all ordered pairs of %d entries that vary every field over many values, alone and two fields together; %s", n, what), int64(n)*int64(n)*int64(k), func(w *W, i int64) error {
		d := &Dec{i}
		c := d.N(k)
		a, b := cloneE(menu[d.N(n)]), cloneE(menu[d.N(n)])
		w.desc = fmt.Sprintf("setting %d\n%s\n%s", c, dumpE(a), dumpE(b))
		if c == 0 {
			w.State(w.desc)
		}
		return f(w, a, b, c)
	})
}
