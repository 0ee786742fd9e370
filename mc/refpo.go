// Reference PO reader, written from the PO file format and independent of /repo.
package main

import (
	"strconv"
	"strings"
)

// refDoc is what the reference reader says about a document.
type refDoc struct {
	entries     ents // live entries in order, then obsolete entries in order; not deduplicated
	malformed   string
	unspecified string // the format does not settle this document
	unordered   bool   // plural forms not in order: may be refused, but not renumbered
}

type refTok struct {
	kind string // msgid, msgid_plural, msgstr, msgctxt, str, [, ], num, comment, bad
	text string
	obs  bool
}

func refLex(doc string, prefix string) (toks []refTok, malformed string) {
	lines := strings.Split(doc, "\n")
	for _, line := range lines {
		line = strings.TrimSuffix(line, "\r")
		t := strings.TrimLeft(line, " \t\r\f\v")
		obs := false
		if strings.HasPrefix(t, "#"+prefix) {
			t = strings.TrimLeft(t[1+len(prefix):], " ")
			obs = true
			if strings.HasPrefix(t, "|") {
				toks = append(toks, refTok{"comment", "#" + t, true})
				continue
			}
		}
		for {
			t = strings.TrimLeft(t, " \t\r\f\v")
			if t == "" {
				break
			}
			if t[0] == '#' {
				toks = append(toks, refTok{"comment", t, obs})
				break
			}
			switch {
			case strings.HasPrefix(t, "msgid_plural"):
				toks, t = append(toks, refTok{"msgid_plural", "", obs}), t[len("msgid_plural"):]
			case strings.HasPrefix(t, "msgid"):
				toks, t = append(toks, refTok{"msgid", "", obs}), t[5:]
			case strings.HasPrefix(t, "msgstr"):
				toks, t = append(toks, refTok{"msgstr", "", obs}), t[6:]
			case strings.HasPrefix(t, "msgctxt"):
				toks, t = append(toks, refTok{"msgctxt", "", obs}), t[7:]
			case t[0] == '[' || t[0] == ']':
				toks, t = append(toks, refTok{t[:1], "", obs}), t[1:]
			case t[0] >= '0' && t[0] <= '9':
				j := 1
				for j < len(t) && t[j] >= '0' && t[j] <= '9' {
					j++
				}
				toks, t = append(toks, refTok{"num", t[:j], obs}), t[j:]
			case t[0] == '"':
				s, rest, ok := refString(t)
				if !ok {
					return nil, "bad string"
				}
				toks, t = append(toks, refTok{"str", s, obs}), rest
			default:
				return nil, "stray text"
			}
		}
	}
	return toks, ""
}

// refString decodes one quoted string on one line.
func refString(t string) (s, rest string, ok bool) {
	var b strings.Builder
	for i := 1; i < len(t); i++ {
		switch t[i] {
		case '"':
			return b.String(), t[i+1:], true
		case '\\':
			i++
			if i >= len(t) {
				return "", "", false
			}
			switch t[i] {
			case 'n':
				b.WriteByte('\n')
			case 't':
				b.WriteByte('\t')
			case 'r':
				b.WriteByte('\r')
			case 'a':
				b.WriteByte(7)
			case 'b':
				b.WriteByte(8)
			case 'v':
				b.WriteByte(11)
			case 'f':
				b.WriteByte(12)
			case '"', '\\':
				b.WriteByte(t[i])
			case 'x':
				if i+2 >= len(t) {
					return "", "", false
				}
				n, err := strconv.ParseUint(t[i+1:i+3], 16, 8)
				if err != nil {
					return "", "", false
				}
				b.WriteByte(byte(n))
				i += 2
			case '0', '1', '2', '3', '4', '5', '6', '7':
				if i+2 >= len(t) {
					return "", "", false
				}
				n, err := strconv.ParseUint(t[i:i+3], 8, 8)
				if err != nil {
					return "", "", false
				}
				b.WriteByte(byte(n))
				i += 2
			default:
				return "", "", false
			}
		default:
			b.WriteByte(t[i])
		}
	}
	return "", "", false
}

func refComment(e *ent, c string) (unspecified string) {
	switch {
	case strings.HasPrefix(c, "#:"):
		for _, f := range strings.Fields(c[2:]) {
			i := strings.LastIndexByte(f, ':')
			if i < 0 {
				if strings.TrimSpace(c[2:]) != f {
					return "reference without line among others"
				}
				e.Locations = append(e.Locations, loc{Line: -1, File: f})
				continue
			}
			n, err := strconv.Atoi(f[i+1:])
			if err != nil {
				return "reference with odd line"
			}
			e.Locations = append(e.Locations, loc{Line: n, File: f[:i]})
		}
	case strings.HasPrefix(c, "#,"):
		for _, f := range strings.Split(c[2:], ",") {
			if f = strings.TrimSpace(f); f != "" {
				e.Flags = append(e.Flags, f)
			}
		}
	case strings.HasPrefix(c, "#."):
		e.ExtractedComments = append(e.ExtractedComments, strings.TrimPrefix(c[2:], " "))
	case strings.HasPrefix(c, "#|"):
		e.Previous = append(e.Previous, strings.TrimPrefix(c[2:], " "))
	default:
		e.Comments = append(e.Comments, strings.TrimPrefix(c[1:], " "))
	}
	return ""
}

// refParse reads a document; prefix is the obsolete marker after '#'.
func refParse(doc, prefix string) (d refDoc) {
	toks, bad := refLex(doc, prefix)
	if bad != "" {
		d.malformed = bad
		return
	}
	for _, l := range strings.Split(doc, "\n") {
		if strings.TrimSpace(l) == "#"+prefix {
			d.unspecified = "obsolete marker without content"
		}
	}
	var live, obs ents
	var pending []refTok
	i := 0
	for i < len(toks) {
		if toks[i].kind == "comment" {
			pending = append(pending, toks[i])
			i++
			continue
		}
		// One entry. Comments inside an entry and entries that are partly obsolete
		// are not settled by the format.
		isObs := toks[i].obs
		e := ent{Obsolete: isObs}
		fail := ""
		kind := func() string {
			if i < len(toks) {
				return toks[i].kind
			}
			return "eof"
		}
		peek := func() string {
			// Look over comments: if the entry goes on after them they are inside it.
			j := i
			for j < len(toks) && toks[j].kind == "comment" {
				j++
			}
			if j >= len(toks) {
				return "eof"
			}
			return toks[j].kind
		}
		next := func(want string) bool {
			k := peek()
			if k != want {
				return false
			}
			if kind() == "comment" {
				d.unspecified = "comment inside an entry"
				for toks[i].kind == "comment" {
					i++
				}
			}
			if toks[i].obs != isObs {
				d.unspecified = "entry partly obsolete"
			}
			i++
			return true
		}
		strings_ := func() (s string, ok bool) {
			for next("str") {
				s += toks[i-1].text
				ok = true
			}
			return
		}
		func() {
			ok := false
			if next("msgctxt") {
				if e.Context, ok = strings_(); !ok {
					fail = "msgctxt without string"
					return
				}
			}
			if !next("msgid") {
				fail = "msgid expected"
				return
			}
			if e.ID, ok = strings_(); !ok {
				fail = "msgid without string"
				return
			}
			if next("msgid_plural") {
				if e.Plural, ok = strings_(); !ok {
					fail = "msgid_plural without string"
					return
				}
				n := 0
				for next("msgstr") {
					if !next("[") || !next("num") {
						fail = "plural msgstr without index"
						return
					}
					id, err := strconv.Atoi(toks[i-1].text)
					if err != nil {
						fail = "index out of range"
						return
					}
					if !next("]") {
						fail = "] expected"
						return
					}
					s, ok := strings_()
					if !ok {
						fail = "msgstr[] without string"
						return
					}
					if id != n {
						d.unordered = true
					}
					n++
					e.Plurals = append(e.Plurals, pe{ID: id, Str: s})
				}
				if n == 0 {
					fail = "plural without msgstr"
				}
				return
			}
			if !next("msgstr") {
				fail = "msgstr expected"
				return
			}
			if e.Str, ok = strings_(); !ok {
				fail = "msgstr without string"
			}
		}()
		if fail != "" {
			d.malformed = fail
			if !isObs {
				// A live entry cut by an obsolete one, or the other way round.
				for _, t := range toks {
					if t.obs != isObs {
						d.unspecified = "malformed entry next to entries of the other kind"
					}
				}
			} else {
				for _, t := range toks {
					if !t.obs && t.kind != "comment" {
						d.unspecified = "malformed entry next to entries of the other kind"
					}
				}
			}
			return
		}
		for _, c := range pending {
			if !isObs && c.obs {
				d.unspecified = "obsolete comment before a live entry"
			}
			if u := refComment(&e, c.text); u != "" {
				d.unspecified = u
			}
		}
		pending = nil
		if isObs {
			obs = append(obs, e)
		} else {
			live = append(live, e)
		}
	}
	d.entries = append(live, obs...)
	return
}

// refDedupe keeps the first entry of every identity, with all references.
func refDedupe(es ents) ents {
	var out ents
	at := map[[2]string]int{}
	for _, e := range es {
		if i, ok := at[uid(e)]; ok {
			out[i].Locations = append(append(locs{}, out[i].Locations...), e.Locations...)
			continue
		}
		at[uid(e)] = len(out)
		out = append(out, cloneE(e))
	}
	return out
}
