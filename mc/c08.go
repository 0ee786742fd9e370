// C08: merging covers the template exactly and never loses a translation.
// C09: merging keeps exact matches intact and takes references from the template.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func init() {
	props["C08"] = propDef{
		level: "model_checking",
		notes: []string{
			"the template may repeat messages and hold obsolete ones (which are no template messages); the header is not obsolete",
			"with keep-previous-ids and without fuzzy matching, messages the template no longer has stay live and are flagged fuzzy",
			"oracle: set-level obligations of merge recomputed from the two catalogs (coverage, uniqueness, every definition accounted for by a distinct entry, guesses flagged); ids of the menu are either clearly similar or share no letter",
		},
		run: runC08,
	}
	props["C09"] = propDef{
		level: "model_checking",
		notes: []string{"identities are distinct within each catalog", "oracle: expected merged entry computed field by field"},
		run:   runC09,
	}
}

type mergeCfg struct {
	fuzzy, keep, sort bool
	mode              po.SortMode
}

func (c mergeCfg) opts() []po.MergeOption {
	return []po.MergeOption{po.MergeWithFuzzyMatch(c.fuzzy), po.MergeWithKeepPreviousIDs(c.keep), po.MergeWithSort(c.sort), po.MergeWithSortMode(c.mode)}
}

func mergeCfgs() (out []mergeCfg) {
	for k := 0; k < 4; k++ {
		out = append(out, mergeCfg{k&1 == 0, k&2 == 0, false, 0})
		for m := po.SortByAll; m <= po.SortByObsolete; m++ {
			out = append(out, mergeCfg{k&1 == 0, k&2 == 0, true, m})
		}
		out = append(out, mergeCfg{k&1 == 0, k&2 == 0, true, 99})
	}
	return
}

// trOf is the translation of an entry as one string, "" if it has none.
func trOf(e ent) string {
	if e.Str != "" {
		return e.Str
	}
	var fs []string
	any := false
	for _, p := range e.Plurals {
		fs = append(fs, p.Str)
		any = any || p.Str != ""
	}
	if !any {
		return ""
	}
	return strings.Join(fs, "\x00")
}

func bothOrNone(a, b ent) bool { return isPlural(a) == isPlural(b) }

// letters that two ids share decide similarity in the menus of this file.
func noCommonLetter(a, b string) bool {
	return !strings.ContainsAny(a, b) && a != "" && b != ""
}

func c08Check(w *W, def, ref ents, c mergeCfg) error {
	defIn, refIn := clone(def), clone(ref)
	res := po.Merge(defIn, refIn, c.opts()...)
	w.Trans(1)
	w.Trace()
	inRef := map[[2]string]int{}
	for i, e := range ref {
		if _, dup := inRef[uid(e)]; !e.Obsolete && !isHeader(e) && !dup {
			inRef[uid(e)] = i
		}
	}
	defs := map[[2]string][]int{}
	for i, e := range def {
		defs[uid(e)] = append(defs[uid(e)], i)
	}
	at := map[[2]string]int{}
	for i, e := range res {
		if j, dup := at[uid(e)]; dup {
			return failf("twice", "the result has %q twice (positions %d and %d):\n%s", uid(e), j, i, dump(res))
		}
		at[uid(e)] = i
	}
	for u := range inRef {
		i, ok := at[u]
		if !ok {
			return failf("uncovered", "template message %q is missing:\n%s", u, dump(res))
		}
		if res[i].Obsolete {
			return failf("uncovered", "template message %q is obsolete:\n%s", u, dump(res))
		}
	}
	for _, e := range res {
		if e.Obsolete {
			if _, ok := defs[uid(e)]; !ok {
				return failf("invented", "obsolete %q is in neither catalog:\n%s", uid(e), dump(res))
			}
			continue
		}
		if _, ok := inRef[uid(e)]; ok {
			continue
		}
		ds := defs[uid(e)]
		if isHeader(e) && len(ds) > 0 {
			continue
		}
		live := false // An obsolete message the template does not have stays obsolete.
		for _, d := range ds {
			live = live || !def[d].Obsolete
		}
		if c.keep && !c.fuzzy && live && isFuzzy(e) {
			continue
		}
		return failf("extra", "live %q is not in the template:\n%s", uid(e), dump(res))
	}
	if d := defs[[2]string{}]; len(d) > 0 {
		if i, ok := at[[2]string{}]; !ok || dumpE(res[i]) != dumpE(def[d[0]]) && len(d) == 1 {
			return failf("header", "the existing header does not survive unchanged:\n%s", dump(res))
		}
	}
	// No translation is lost: every one belongs to a distinct entry of the result.
	taken := map[int]bool{}
	for u, ds := range defs {
		if u == ([2]string{}) {
			continue
		}
		trs := map[string]bool{}
		plural := false
		for _, d := range ds {
			if t := trOf(def[d]); t != "" {
				trs[t] = true
			}
			plural = plural || isPlural(def[d])
		}
		if len(trs) == 0 {
			continue
		}
		if r, ok := inRef[u]; ok {
			// Needed: the message itself has it (the forms may have to be adapted).
			got := trOf(res[at[u]])
			if len(ds) == 1 && bothOrNone(def[ds[0]], ref[r]) && !trs[got] {
				return failf("lost", "%q loses its translation %q:\n%s", u, trs, dump(res))
			}
			continue
		}
		if i, ok := at[u]; ok {
			if !trs[trOf(res[i])] {
				return failf("lost", "%q is kept without its translation %q:\n%s", u, trs, dump(res))
			}
			continue
		}
		if !c.fuzzy {
			return failf("lost", "%q disappeared without fuzzy matching:\n%s", u, dump(res))
		}
		// Taken over by a new template message.
		found := false
		for i, e := range res {
			_, new := inRef[uid(e)]
			if e.Obsolete || !new || len(defs[uid(e)]) > 0 || taken[i] || !trs[trOf(e)] {
				continue
			}
			if !isFuzzy(e) {
				return failf("unmarked-guess", "%q takes over the translation of %q without being fuzzy:\n%s", uid(e), u, dump(res))
			}
			taken[i], found = true, true
			break
		}
		if !found {
			return failf("lost", "%q disappeared and no new message has its translation %q:\n%s", u, trs, dump(res))
		}
	}
	// New messages come in as the template has them.
	for u := range inRef {
		if len(defs[u]) > 0 {
			continue
		}
		g := cloneE(res[at[u]])
		guess := c.fuzzy && isFuzzy(g)
		var err error
		for _, m := range ref {
			if uid(m) != u || m.Obsolete {
				continue
			}
			want := cloneE(m)
			if guess { // with the comments, flags and translation of a similar message
				want.Str, want.Plurals, want.Flags, want.Comments, want.Previous = g.Str, g.Plurals, g.Flags, g.Comments, g.Previous
			} else if isPlural(want) && len(want.Plurals) == 0 {
				empty := true
				for k, p := range g.Plurals {
					empty = empty && p.Str == "" && p.ID == k
				}
				n := len(g.Plurals)
				if empty && (n == int(clone(ref).Header().Nplurals()) || n == int(clone(def).Header().Nplurals())) {
					want.Plurals = g.Plurals
				}
			}
			if err = sameEntries("new", "the new message", ents{g}, ents{want}); err == nil {
				break
			}
		}
		if err != nil {
			return err
		}
	}
	// Guesses. Entries of one context count as similar, also through a third one.
	anyCtx := false
	for _, e := range append(clone(def), ref...) {
		anyCtx = anyCtx || e.Context != ""
	}
	owner := map[string][2]string{}
	for _, e := range def {
		if t := trOf(e); t != "" {
			owner[t] = uid(e)
		}
	}
	parts := map[string][2]string{}
	for _, e := range def {
		parts[e.Str] = uid(e)
		for _, p := range e.Plurals {
			parts[p.Str] = uid(e)
		}
	}
	delete(parts, "")
	for u, r := range inRef {
		e := res[at[u]]
		if len(defs[u]) > 0 {
			continue
		}
		var from [][2]string
		if o, ok := parts[e.Str]; ok {
			from = append(from, o)
		}
		for _, p := range e.Plurals {
			if o, ok := parts[p.Str]; ok {
				from = append(from, o)
			}
		}
		if len(from) == 0 {
			own := trOf(e) == "" || trOf(e) == trOf(ref[r])
			if !own && c.fuzzy && isFuzzy(e) {
				for _, x := range ref { // guessed from a translation that the template brought
					own = own || strings.Contains(trOf(x), trOf(e))
				}
			}
			if !own {
				return failf("invented", "new message %q has translation %q from nowhere", u, trOf(e))
			}
			continue
		}
		if !c.fuzzy {
			return failf("guess", "without fuzzy matching %q gets the translation of %q:\n%s", u, from, dump(res))
		}
		if !isFuzzy(e) {
			return failf("unmarked-guess", "%q has the guessed translation of %q and is not fuzzy:\n%s", u, from, dump(res))
		}
		for _, o := range from {
			pl := ref[r].Plural
			for _, x := range defs[o] {
				pl += def[x].Plural
			}
			if !anyCtx && pl == "" && noCommonLetter(o[1], u[1]) {
				return failf("dissimilar", "%q gets the translation of the entirely different %q:\n%s", u, o, dump(res))
			}
		}
	}
	// Fuzzy matching does match: one renamed message, clearly similar.
	if c.fuzzy {
		var orphan, fresh []ent
		for u, ds := range defs {
			if _, ok := inRef[u]; !ok && u != ([2]string{}) && len(ds) == 1 && !def[ds[0]].Obsolete {
				orphan = append(orphan, def[ds[0]])
			}
		}
		for u, r := range inRef {
			if len(defs[u]) == 0 {
				fresh = append(fresh, ref[r])
			}
		}
		if len(orphan) == 1 && len(fresh) == 1 && len(def) == 1 && bothOrNone(orphan[0], fresh[0]) && orphan[0].Context == fresh[0].Context {
			a, b := orphan[0].ID, fresh[0].ID
			if strings.HasPrefix(a, b) || strings.HasPrefix(b, a) {
				e := res[at[uid(fresh[0])]]
				if t := trOf(orphan[0]); t != "" && trOf(e) != t {
					return failf("no-match", "%q does not get the translation of the similar %q:\n%s", b, a, dump(res))
				}
			}
		}
	}
	return nil
}

func c08Defs() ents {
	pl := func(id, ctx string, forms ...string) ent {
		e := ent{ID: id, Context: ctx, Plural: id + "s"}
		for i, f := range forms {
			e.Plurals = append(e.Plurals, pe{ID: i, Str: f})
		}
		return e
	}
	return ents{
		{Str: "Language: es\nPlural-Forms: nplurals=3; plural=n;\n", Comments: strs("title"), Flags: strs("fuzzy")},
		{ID: "Open file", Str: "T"},
		{ID: "Open files", Str: "T", Locations: locs{{Line: 9, File: "z.go"}}},
		{ID: "Open file", Context: "menu", Str: "T"},
		pl("Open file", "", "T", "T'"),
		{ID: "Open file", Str: "T", Obsolete: true},
		{ID: "quux", Str: "T", Flags: strs("fuzzy")},
		{ID: "quux", Str: ""},
		pl("quux", "", "T", "T'", "T''"),
		{ID: "quux", Str: "T", Obsolete: true},
		{ID: "Open filed", Str: "T", Comments: strs("c")},
		{ID: "", Context: "menu", Str: "T"},
		pl("Open fil", "", "T"),
	}
}

func c08Refs() ents {
	return ents{
		{Str: "Language: xx\n"},
		{Str: "Plural-Forms: nplurals=4; plural=n;\n"},
		{ID: "Open file", Locations: locs{{Line: 1, File: "a.go"}}},
		{ID: "Open files", Locations: locs{{Line: 2, File: "a.go"}}},
		{ID: "Open file", Context: "menu"},
		{ID: "Open file", Plural: "Open files", Locations: locs{{Line: 3, File: "b.go"}}},
		{ID: "Open file!", Plural: "Open files!"},
		{ID: "quux"},
		{ID: "quux", Plural: "quuxes"},
		{ID: "zzz"},
		{ID: "Open file", Obsolete: true},
		{ID: "quux", Context: "menu", Str: "own", ExtractedComments: strs("x")},
		{ID: "", Context: "menu"},
	}
}

func runC08(r *Run) {
	dm, rm := c08Defs(), c08Refs()
	cfgs := mergeCfgs()
	dl, rl := 3, 3
	perCfg := 2
	if r.Thorough {
		perCfg = 8
	}
	nd, nr := seqCount(len(dm), dl), seqCount(len(rm), rl)
	body := func(dl, rl int) func(w *W, i int64) error {
		return func(w *W, i int64) error {
			d := &Dec{i}
			sub := d.N(perCfg)
			ds := seqAt(len(dm), d.i%seqCount(len(dm), dl))
			rs := seqAt(len(rm), d.i/seqCount(len(dm), dl))
			c := cfgs[(sub*len(cfgs)/perCfg+int(d.i%int64(len(cfgs)/4)))%len(cfgs)]
			var def, ref ents
			for k, j := range ds {
				e := cloneE(dm[j])
				if e.ID != "" || e.Context != "" {
					tag := string(rune('1' + k))
					if e.Str != "" {
						e.Str += tag
					}
					for p := range e.Plurals {
						e.Plurals[p].Str += tag
					}
				}
				def = append(def, e)
			}
			for _, j := range rs {
				ref = append(ref, cloneE(rm[j]))
			}
			w.Desc("%+v\nexisting:\n%s\ntemplate:\n%s", c, dump(def), dump(ref))
			w.State(dump(def) + "\n--\n" + dump(ref))
			return c08Check(w, def, ref, c)
		}
	}
	r.Space("pairs", "all pairs of an existing catalog and a template, sequences over 13 definitions (header, similar and different ids, context, plural, obsolete, fuzzy, untranslated, repeated) and 13 template messages, several merge settings each", nd*nr*int64(perCfg), body(dl, rl))
	dl, rl = 4, 1
	if r.Thorough {
		rl = 2
	}
	r.Space("long-existing", "existing catalogs of up to 4 definitions with templates of up to 1 message (thorough: 2)", seqCount(len(dm), dl)*seqCount(len(rm), rl)*int64(perCfg), body(dl, rl))
	dl, rl = rl, dl
	r.Space("long-template", "existing catalogs of up to 1 definition (thorough: 2) with templates of up to 4 messages", seqCount(len(dm), dl)*seqCount(len(rm), rl)*int64(perCfg), body(dl, rl))
	richPairs(r, "entries", "as existing message (with a header) and as template message, four settings", richMenu(), 4, func(w *W, a, b ent, k int) error {
		b.Str, b.Obsolete = "", false
		for i := range b.Plurals {
			b.Plurals[i].Str = ""
		}
		def := ents{a}
		if !isHeader(a) {
			def = ents{{Str: "Language: es\n", Comments: strs("t")}, a}
		} else if a.Obsolete {
			return nil
		}
		return c08Check(w, def, ents{b}, cfgs[k*len(cfgs)/4+len(w.desc)%(len(cfgs)/4)])
	})
	sizes := []int{5, 11, 12, 13, 20, 40}
	r.Space("many", "catalogs of tens of messages of which every k-th was removed, renamed or added, every merge setting", prod(len(sizes), 5, 5, len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		n, rem, ren, c := sizes[d.N(len(sizes))], d.N(5)+2, d.N(5)+2, cfgs[d.i]
		var def, ref ents
		for k := 0; k < n; k++ {
			id := strings.Repeat(string(rune('a'+k%26)), 8) + fmt.Sprint(k)
			e := ent{ID: id, Str: fmt.Sprintf("T%d", k), Locations: locs{{Line: k, File: "o.go"}}, Flags: []string{"c-format", "fuzzy"}[:k%3%2*1]}
			if k%4 == 3 {
				e.Str, e.Plural, e.Plurals = "", id+"p", pes{{ID: 0, Str: fmt.Sprintf("P%d", k)}, {ID: 1, Str: fmt.Sprintf("Q%d", k)}}
			}
			if k%7 == 6 {
				e.Obsolete = true
			}
			def = append(def, e)
			if k%rem != 0 {
				t := ent{ID: id, Plural: e.Plural, Locations: locs{{Line: 100 - k, File: "n.go"}}}
				if k%ren == 0 {
					t.ID += "x"
				}
				ref = append(ref, t)
			}
		}
		w.Desc("%d messages, remove every %d, rename every %d, %+v", n, rem, ren, c)
		w.State(fmt.Sprint(n, rem, ren))
		return c08Check(w, def, ref, c)
	})
	lens := 40
	r.Space("long-ids", "ids (contexts, plural ids) of any length up to 2000 that differ from a message of the template in a character at the beginning, in the middle or at the end, or are one character longer, every merge setting", prod(lens, 4, 3, 2, len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		k, at, part, with := d.N(lens), d.N(4), d.N(3), d.B()
		n := []int{k + 1, 50 * (k + 1)}[k&1]
		base := strings.Repeat("abcdefghij", n/10+1)[:n]
		b := []byte(base)
		switch at {
		case 0:
			b[0] = 'X'
		case 1:
			b[n/2] = 'X'
		case 2:
			b[n-1] = 'X'
		case 3:
			b = append(b, 'X')
		}
		e, m := ent{ID: base, Str: "T"}, ent{ID: string(b)}
		switch part {
		case 1:
			e.ID, m.ID, e.Context, m.Context = "the id", "the id", base, string(b)
		case 2:
			e.Str, e.Plural, e.Plurals, m.Plural = "", base+"p", pes{{ID: 0, Str: "T"}, {ID: 1, Str: "U"}}, string(b)+"p"
		}
		def, ref := ents{e}, ents{m}
		if with {
			def = append(ents{{ID: "other", Str: "O"}}, def...)
			ref = append(ref, ent{ID: "other"}, ent{ID: m.ID + "Y", Context: m.Context, Plural: m.Plural})
		}
		c := cfgs[d.i]
		w.Desc("%d characters, change %d in part %d, others %v, %+v", n, at, part, with, c)
		w.State(fmt.Sprint(n, at, part, with))
		return c08Check(w, def, ref, c)
	})
	// A new plural message with forms of its own, under headers that declare more or fewer.
	formSets := []pes{nil, {{ID: 0}}, {{ID: 0, Str: "F"}}, {{ID: 0}, {ID: 1}}, {{ID: 0, Str: "F"}, {ID: 1, Str: "G"}}, {{ID: 1, Str: "G"}, {ID: 0, Str: "F"}}, {{ID: 1, Str: "G"}}, {{ID: 0}, {ID: 1}, {ID: 2}}, {{ID: 0, Str: "F"}, {ID: 1}, {ID: 2, Str: "H"}, {ID: 3, Str: "I"}}}
	hd := func(n int) ents {
		if n == 0 {
			return nil
		}
		return ents{{Str: fmt.Sprintf("Project-Id-Version: x\nPlural-Forms: nplurals=%d; plural=0;\n", n-1)}}
	}
	r.Space("new-forms", "a new plural message with every set of forms, headers of either catalog that declare up to four forms or none, an existing dissimilar message, every merge setting", prod(len(formSets), 6, 6, 3, 2, len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		fs, nd, nr, old, more := formSets[d.N(len(formSets))], d.N(6), d.N(6), d.N(3), d.B()
		c := cfgs[d.i]
		def, ref := hd(nd), append(hd(nr), ent{ID: "qqqq", Plural: "qqqqs", Plurals: fs, Flags: []string{"c-format"}, Locations: locs{{Line: 3, File: "a.go"}}, ExtractedComments: []string{"x"}})
		if old > 0 {
			e := ent{ID: "wwww", Str: "W"}
			if old == 2 {
				e = ent{ID: "wwww", Plural: "wwwws", Plurals: pes{{ID: 0, Str: "W"}, {ID: 1, Str: "V"}}}
			}
			def = append(def, e)
		}
		if more {
			ref = append(ref, ent{ID: "wwww"}, ent{ID: "zzzz", Plural: "zz"})
		}
		w.Desc("existing:\n%stemplate:\n%s%+v", dump(def), dump(ref), c)
		w.State(fmt.Sprint(fs, nd, nr, old, more))
		return c08Check(w, def, ref, c)
	})
	large(r, "merged with a template of which messages were removed and renamed", 65, 257, len(cfgs), func(w *W, cat ents, k int) error {
		return c08Check(w, cat, bigTemplate(cat), cfgs[k])
	})
}

// c09Kind checks the merge of a message that is plural on one side only.
func c09Kind(res ents, e, m ent) error {
	if len(res) != 1 {
		return failf("kind", "merged into %d entries:\n%s", len(res), dump(res))
	}
	g := cloneE(res[0])
	str, lowest := e.Str, 0
	if isPlural(e) {
		str = ""
		for i, f := range e.Plurals {
			if i == 0 || f.ID < lowest {
				str, lowest = f.Str, f.ID
			}
		}
	}
	if isPlural(m) != isPlural(g) {
		return failf("kind", "the template's message is plural: %v, the merged one: %v\n%s", isPlural(m), isPlural(g), dumpE(g))
	}
	if isPlural(m) {
		first := ""
		for _, f := range g.Plurals {
			if f.ID == 0 {
				first = f.Str
			} else if f.Str != "" && f.Str != str {
				return failf("kind", "a form other than the translation appeared:\n%s", dumpE(g))
			}
		}
		if first != str || g.Str != "" {
			return failf("kind", "the first form is %q (string %q), the translation was %q", first, g.Str, str)
		}
	} else if g.Str != str {
		return failf("kind", "the translation is %q, the first form was %q", g.Str, str)
	}
	if str != "" && !isFuzzy(g) {
		return failf("kind", "the translation is not flagged fuzzy:\n%s", dumpE(g))
	}
	want := cloneE(e)
	want.Obsolete = false
	want.Str, want.Plurals = g.Str, g.Plurals
	want.Plural, want.Locations, want.ExtractedComments = m.Plural, m.Locations, m.ExtractedComments
	if isFuzzy(g) && !isFuzzy(want) {
		want.Flags = append(append([]string{}, want.Flags...), "fuzzy")
	}
	if len(g.Flags) == len(want.Flags) {
		a, b := append([]string{}, g.Flags...), append([]string{}, want.Flags...)
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, "\x00") == strings.Join(b, "\x00") {
			g.Flags, want.Flags = nil, nil
		}
	}
	return sameEntries("kind", "merged", ents{g}, ents{want})
}

func runC09(r *Run) {
	cfgs := mergeCfgs()
	type tr struct {
		sing bool
		set  func(*ent)
	}
	trs := []tr{
		{true, func(e *ent) { e.Str = "uno" }},
		{true, func(e *ent) {}},
		{false, func(e *ent) { e.Plural, e.Plurals = "old ps", pes{{ID: 0, Str: "a"}, {ID: 1, Str: "b"}} }},
		{false, func(e *ent) { e.Plural, e.Plurals = "old ps", pes{{ID: 0, Str: "a"}} }},
		{false, func(e *ent) { e.Plural = "old ps" }},
		{false, func(e *ent) { e.Plural, e.Plurals = "old ps", pes{{ID: 0}, {ID: 1, Str: ""}, {ID: 2, Str: "c"}} }},
	}
	comments := [][]string{nil, {"c1", "c2"}}
	extr := [][]string{nil, {"old x"}}
	flags := [][]string{nil, {"fuzzy"}, {"c-format"}, {"no-wrap", "fuzzy", "x"}}
	prev := [][]string{nil, {`msgid "o"`}}
	olocs := []locs{nil, {{Line: 1, File: "old.go"}}}
	nlocs := []locs{nil, {{Line: 5, File: "new.go"}, {Line: 4, File: "new.go"}}}
	nextr := [][]string{nil, {"new x", "new y"}}
	nflags := [][]string{nil, {"go-format", "fuzzy"}}
	nstr := []string{"", "template's"}
	ctxs := []string{"", "ctx"}
	hdr := ent{Str: "Project-Id-Version: x\nLanguage: es\nPlural-Forms: nplurals=2; plural=(n != 1);\n", Comments: strs("title"), Flags: strs("fuzzy"), ExtractedComments: strs("hx"), Locations: locs{{Line: 3, File: "h"}}}
	n := prod(len(trs), len(comments), len(extr), len(flags), len(prev), len(olocs), 2, len(nlocs), len(nextr), len(nflags), len(nstr), len(ctxs), 2, 2)
	nc := len(cfgs)
	r.Space("exact", "one shared message: full product of translation, comments, flags, references, obsolete mark on either side, context, with and without headers, among other messages, under every merge setting", n*int64(nc), func(w *W, i int64) error {
		d := &Dec{i}
		ci := d.N(nc)
		t := trs[d.N(len(trs))]
		c := cfgs[ci]
		ctx := ctxs[d.N(2)]
		e := ent{ID: "the id", Context: ctx, Comments: comments[d.N(2)], ExtractedComments: extr[d.N(2)], Flags: flags[d.N(4)], Previous: prev[d.N(2)], Locations: olocs[d.N(2)], Obsolete: d.B()}
		t.set(&e)
		m := ent{ID: "the id", Context: ctx, Locations: nlocs[d.N(2)], ExtractedComments: nextr[d.N(2)], Flags: nflags[d.N(2)]}
		s := nstr[d.N(2)]
		if t.sing {
			m.Str = s
		} else {
			m.Plural = "new ps"
			if s != "" {
				m.Plurals = pes{{ID: 0, Str: s}, {ID: 1, Str: s}}
			}
		}
		h, hr := d.B(), d.B()
		def := ents{{ID: "zq", Str: "other", Comments: strs("oc")}, e, {ID: "the idx", Str: "near", Flags: strs("keepme")}}
		ref := ents{{ID: "the idy", Locations: locs{{Line: 1, File: "q.go"}}}, m}
		if h {
			def = append(ents{hdr}, def...)
		}
		if hr {
			ref = append(ents{{Str: "Language: xx\n", Comments: strs("tt")}}, ref...)
		}
		w.Desc("%+v\nexisting:\n%s\ntemplate:\n%s", c, dump(def), dump(ref))
		if ci == 0 {
			w.State(w.desc)
		}
		res := po.Merge(clone(def), clone(ref), c.opts()...)
		w.Trans(1)
		w.Trace()
		want := cloneE(e)
		want.Obsolete = false
		want.Plural = m.Plural
		want.Locations, want.ExtractedComments = m.Locations, m.ExtractedComments
		found := 0
		for _, g := range res {
			if uid(g) == uid(e) {
				found++
				if dumpE(g) != dumpE(want) {
					return failf("exact", "merged entry is\n%s\nexpected\n%s", dumpE(g), dumpE(want))
				}
			}
			if isHeader(g) {
				if !h {
					continue
				}
				found += 10
				if dumpE(g) != dumpE(hdr) {
					return failf("header", "header is\n%s\nexpected\n%s", dumpE(g), dumpE(hdr))
				}
			}
		}
		if exp := 1 + map[bool]int{true: 10}[h]; found != exp {
			return failf("missing", "shared message or header missing or repeated (%d, expected %d):\n%s", found, exp, dump(res))
		}
		return nil
	})
	richPairs(r, "entries", "as existing and as template message of one identity, every setting of fuzzy matching and keeping ids", richMenu(), 4, func(w *W, e, m ent, k int) error {
		m.ID, m.Context, m.Obsolete = e.ID, e.Context, false
		if isHeader(e) && e.Obsolete {
			return nil
		}
		if isPlural(e) != isPlural(m) {
			if isHeader(e) || isHeader(m) || isPlural(e) && e.Str != "" {
				return nil
			}
			c := cfgs[k*len(cfgs)/4+len(w.desc)%(len(cfgs)/4)]
			res := po.Merge(ents{cloneE(e)}, ents{cloneE(m)}, c.opts()...)
			w.Trans(1)
			w.Trace()
			return c09Kind(res, e, m)
		}
		want := cloneE(e)
		if !isHeader(e) {
			want.Obsolete = false
			want.Plural, want.Locations, want.ExtractedComments = m.Plural, m.Locations, m.ExtractedComments
		}
		c := cfgs[k*len(cfgs)/4+len(w.desc)%(len(cfgs)/4)]
		res := po.Merge(ents{cloneE(e)}, ents{cloneE(m)}, c.opts()...)
		w.Trans(1)
		w.Trace()
		return sameEntries("exact", fmt.Sprintf("merged under %+v", c), res, ents{want})
	})
	// Several shared messages at once, each in any state, in any order in the template.
	pool := ents{
		{Str: "uno"}, {Str: "dos", Flags: strs("fuzzy"), Comments: strs("c")}, {Str: "tres", Obsolete: true, Comments: strs("oc")},
		{Plural: "ps", Plurals: pes{{ID: 0, Str: "a"}, {ID: 1, Str: "b"}}, Previous: strs("pv")}, {},
	}
	cnt := 4
	if r.Thorough {
		cnt = 5
	}
	np := pow(len(pool), cnt)
	r.Space("several", "four (thorough: five) shared messages with every combination of states, template in every order, interleaved with new messages, every merge setting", np*fact(cnt)*2*int64(len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		c := cfgs[d.N(len(cfgs))]
		extra := d.B()
		perm := permAt(cnt, int64(d.N(int(fact(cnt)))))
		var def, ref, want ents
		names := []string{"alpha", "alphas", "beta", "alp", "betas"}
		for k := 0; k < cnt; k++ {
			e := cloneE(pool[d.N(len(pool))])
			e.ID = names[k]
			e.Locations = locs{{Line: 50 + k, File: "old.go"}}
			if e.Str != "" {
				e.Str += names[k]
			}
			def = append(def, e)
		}
		for _, k := range perm {
			m := ent{ID: names[k], Locations: locs{{Line: 3 * k, File: "new.go"}}, ExtractedComments: strs("x" + names[k])}
			if isPlural(def[k]) {
				m.Plural = "np" + names[k]
			}
			ref = append(ref, m)
			if extra {
				ref = append(ref, ent{ID: names[k] + "!", Locations: locs{{Line: 90, File: "new.go"}}})
			}
			e := cloneE(def[k])
			e.Obsolete, e.Locations, e.ExtractedComments, e.Plural = false, m.Locations, m.ExtractedComments, m.Plural
			want = append(want, e)
		}
		w.Desc("%+v\nexisting:\n%s\ntemplate:\n%s", c, dump(def), dump(ref))
		if c == cfgs[0] {
			w.State(w.desc)
		}
		res := po.Merge(clone(def), clone(ref), c.opts()...)
		w.Trans(1)
		w.Trace()
		for _, e := range want {
			n := 0
			for _, g := range res {
				if uid(g) == uid(e) {
					n++
					if dumpE(g) != dumpE(e) {
						return failf("exact", "merged entry is\n%s\nexpected\n%s", dumpE(g), dumpE(e))
					}
				}
			}
			if n != 1 {
				return failf("missing", "%q occurs %d times:\n%s", e.ID, n, dump(res))
			}
		}
		if c.sort && c.mode <= po.SortByObsolete {
			cmp := []func(a, b ent) int{po.CompareEntry, po.CompareEntryByID, po.CompareEntryByFile, po.CompareEntryByLine, po.CompareEntryByFuzzy, po.CompareEntryByObsolete}[c.mode]
			if !res.IsSortedFunc(cmp) {
				return failf("unsorted", "result is not sorted by the requested mode:\n%s", dump(res))
			}
		}
		return nil
	})
	large(r, "merged with a template that has all messages, in the same order and backwards", 257, 1025, 2*len(cfgs), func(w *W, cat ents, k int) error {
		c, back := cfgs[k/2], k%2 == 1
		var ref, want ents
		for j, e := range cat {
			e = cloneE(e)
			if !isHeader(e) {
				m := ent{ID: e.ID, Context: e.Context, Plural: e.Plural, Locations: locs{{Line: j, File: "n.go"}}}
				for x := range e.Locations {
					m.Locations = append(m.Locations, loc{Line: x, File: "m.go"})
					m.ExtractedComments = append(m.ExtractedComments, fmt.Sprint("new ", x))
				}
				ref = append(ref, m)
				e.Obsolete, e.Locations, e.ExtractedComments = false, m.Locations, m.ExtractedComments
			}
			want = append(want, e)
		}
		if back {
			for x, y := 0, len(ref)-1; x < y; x, y = x+1, y-1 {
				ref[x], ref[y] = ref[y], ref[x]
			}
		}
		res := po.Merge(clone(cat), clone(ref), c.opts()...)
		w.Trans(1)
		w.Trace()
		byUID := map[[2]string]ent{}
		for _, e := range res {
			byUID[uid(e)] = e
		}
		for _, e := range want {
			g, ok := byUID[uid(e)]
			if !ok || dumpE(g) != dumpE(e) {
				return failf("exact", "merged entry is\n%s\nexpected\n%s", dumpE(g), dumpE(e))
			}
		}
		if len(res) != len(want) {
			return failf("missing", "%d entries, expected %d", len(res), len(want))
		}
		return nil
	})
}
