// C01: any text survives being written to PO and read back.
package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

func init() {
	props["C01"] = propDef{
		level: "model_checking",
		notes: []string{
			"strings are any bytes, valid UTF-8 or not",
			"the state space is the set of texts over the alphabet up to the length bound; the oracle is the identity",
		},
		run: runC01,
	}
}

// textAlphabet has one symbol for every case the lexer, the escaper and the wrapper distinguish.
var textAlphabet = []string{
	"a", " ", `"`, `\`, "\n", "\t", "\r", "n", "x", "0", "\x00", "\x07", "\x1b", "\x7f",
	"é", "\u0085", "\u2028", "\ufeff", "😀", "#", "~", "%", "msgid", "f",
}

// c01Catalog puts s into every text field, live and obsolete.
func c01Catalog(s string) ents {
	var es ents
	for _, obs := range []bool{false, true} {
		n := "l"
		if obs {
			n = "o"
		}
		es = append(es,
			ent{Context: "~1" + n, ID: s, Str: s, Obsolete: obs},
			ent{Context: s, ID: "~2" + n, Str: "t", Obsolete: obs},
			ent{Context: "~3" + n, ID: "~3", Plural: "p" + s, Plurals: pes{{ID: 0, Str: s}, {ID: 1, Str: "q"}, {ID: 2, Str: s}}, Obsolete: obs},
		)
		if s != "" {
			es = append(es, ent{ID: s + "~4" + n, Plural: s, Plurals: pes{{ID: 0, Str: "z"}, {ID: 1, Str: s + s}}, Obsolete: obs})
		}
	}
	return es
}

func c01Check(w *W, s string) error { return c01Roundtrip(w, c01Catalog(s)) }

// c01Lean is for long texts, on which the parser is slow.
func c01Lean(w *W, s string) error {
	return c01Roundtrip(w, ents{{ID: s + "1", Str: s}, {ID: "o", Context: s, Str: s, Obsolete: true}})
}

func c01Roundtrip(w *W, cat ents) error {
	for _, wrap := range []bool{false, true} {
		text, err := writePo(cat, compile.PoWithWordWrap(wrap))
		if err != nil {
			return err
		}
		got, err := readPo(text)
		if err != nil {
			return err
		}
		w.Trans(2)
		w.Trace()
		if err := sameEntries("text", "read back differs", got, cat); err != nil {
			return err
		}
	}
	return nil
}

func runC01(r *Run) {
	maxLen := 3
	if r.Thorough {
		maxLen = 4
	}
	k := len(textAlphabet)
	r.Space("texts", "all texts of up to the length bound over a 24-symbol alphabet, in every field", seqCount(k, maxLen), func(w *W, i int64) error {
		var b strings.Builder
		for _, j := range seqAt(k, i) {
			b.WriteString(textAlphabet[j])
		}
		s := b.String()
		w.Desc("%q", s)
		w.State(s)
		return c01Check(w, s)
	})

	// Long sequences over the characters that interact with escaping only.
	sharp := []string{"a", `"`, `\`, "\n", "n"}
	sl := 5
	if r.Thorough {
		sl = 7
	}
	r.Space("escapes", "all texts of up to the bound over a 5-symbol escape alphabet", seqCount(len(sharp), sl), func(w *W, i int64) error {
		var b strings.Builder
		for _, j := range seqAt(len(sharp), i) {
			b.WriteString(sharp[j])
		}
		s := b.String()
		w.Desc("%q", s)
		w.State(s)
		return c01Check(w, s)
	})

	// Word wrap: every total length around the line width, with every special symbol at every place.
	fills := []string{"a", "ab ", "é", "a-b  c. "}
	specials := []string{" ", "\n", `\`, `"`, "\t", "\\n", "  ", " \n ", "\n\n", "\u00a0", "\u3000", "x"}
	maxPos := 100
	if r.Thorough {
		maxPos = 700
	}
	n := prod(len(fills), len(specials), maxPos)
	r.Space("wrap", "texts of every length up to the bound with a special character at the end, middle or start, per filler", n, func(w *W, i int64) error {
		d := Dec{i}
		fill, sp, pos := fills[d.N(len(fills))], specials[d.N(len(specials))], d.N(maxPos)
		var b strings.Builder
		for b.Len() < pos {
			b.WriteString(fill)
		}
		body := b.String()
		w.Desc("filler %q, special %q, length %d", fill, sp, pos)
		w.State(w.desc)
		for _, s := range []string{body + sp, body + sp + "tail word", sp + body, body + sp + body} {
			if err := c01Lean(w, s); err != nil {
				return err
			}
		}
		return nil
	})

	// Every Unicode code point.
	per := 64
	if r.Thorough {
		per = 4
	}
	r.Space("codepoints", "every Unicode scalar value, alone between letters, doubled, and in front of a digit", int64(0x110000/per), func(w *W, i int64) error {
		var b strings.Builder
		for c := int(i) * per; c < (int(i)+1)*per; c++ {
			if !utf8.ValidRune(rune(c)) {
				continue
			}
			b.WriteString("a" + string(rune(c)) + string(rune(c)) + "1")
		}
		w.Desc("U+%04X..", int(i)*per)
		s := b.String()
		w.State(w.desc)
		if s == "" {
			return nil
		}
		return c01Lean(w, s)
	})

	// Bytes that are not UTF-8, as in other character sets.
	bl := 4
	if r.Thorough {
		bl = 5
	}
	bytes := []string{"\x80", "\xbf", "\xc3", "\xa9", "\xe2", "\xf0", "\xff", "\xed", "\ufffd", `\`, `"`, "\n", "a", "1"}
	r.Space("bytes", fmt.Sprintf("all strings of up to %d symbols over bytes that are no, part of or whole UTF-8 characters, in every field", bl), seqCount(len(bytes), bl), func(w *W, i int64) error {
		var b strings.Builder
		seq := seqAt(len(bytes), i)
		for _, j := range seq {
			b.WriteString(bytes[j])
		}
		s := b.String()
		w.Desc("%q", s)
		w.State(s)
		if len(seq) > 3 {
			return c01Lean(w, s)
		}
		return c01Check(w, s)
	})
	r.Space("pairs", "every byte next to every byte", 0x10000, func(w *W, i int64) error {
		s := string([]byte{byte(i >> 8), byte(i)})
		w.Desc("%q", s)
		w.State(s)
		return c01Lean(w, s)
	})

	// Sizes: around buffer sizes and beyond 64 KiB.
	sizes := []int{}
	for _, c := range []int{1024, 4096, 8192, 65536} {
		for d := -1; d <= 1; d++ {
			sizes = append(sizes, c+d)
		}
	}
	units := []string{"a", "a b\n", `\"`, "é"}
	if !r.Thorough {
		sizes, units = []int{1023, 1024, 1025, 4095, 4096, 4097, 8192, 65536}, units[:2]
	}
	// An escape exactly at a size that a buffer may have.
	limits := []int{}
	for _, c := range []int{64, 72, 76, 77, 78, 79, 80, 100, 128, 255, 256, 500, 512, 1000, 1024, 2000, 2048, 4000, 4096, 8192, 16384, 32768, 65536} {
		for d := -4; d <= 4; d++ {
			limits = append(limits, c+d)
		}
	}
	escs := []string{`"`, `\\`, "\n", "\t", "\x01", "\x7f", "é", "€", "😀", "\xff", " ", "\u0085"}
	r.Space("limits", "each of the characters that need an escape or several bytes, at every offset near 23 sizes, in text without and with blanks, alone and in front of more text", prod(len(limits), len(escs), 4), func(w *W, i int64) error {
		d := Dec{i}
		n, e, fill, tail := limits[d.N(len(limits))], escs[d.N(len(escs))], []string{"a", "ab "}[d.N(2)], []string{"", " tail"}[d.N(2)]
		s := strings.Repeat(fill, n/len(fill)+1)[:n]
		w.Desc("%q after %d bytes of %q, then %q", e, n, fill, tail)
		w.State(w.desc)
		if err := c01Lean(w, s+e+tail); err != nil {
			return err
		}
		// Every byte of the text escaped: escaped and plain offsets differ.
		return c01Lean(w, strings.Repeat(e, n/2/len(e))+tail)
	})
	lasts := []string{"", "b", "b  ", " ", "\t", "  b", "\x01 ", "é ", "\\", "\""}
	nl := 140
	if r.Thorough {
		nl = 600
	}
	r.Space("lines", "texts of every number of lines up to the bound, each line and the last one empty, plain or with blanks and escapes at either end", prod(nl, len(lasts), len(lasts)), func(w *W, i int64) error {
		d := Dec{i}
		n, each, last := d.N(nl), lasts[d.N(len(lasts))], lasts[d.N(len(lasts))]
		w.Desc("%d lines of %q, then %q", n, each, last)
		w.State(w.desc)
		return c01Lean(w, strings.Repeat(each+"\n", n)+last)
	})
	r.Space("sizes", "text sizes around 512 B to 64 KiB and above", prod(len(sizes), len(units)), func(w *W, i int64) error {
		d := Dec{i}
		n, u := sizes[d.N(len(sizes))], units[d.N(len(units))]
		w.Desc("%d bytes of %q", n, u)
		w.State(w.desc)
		return c01Lean(w, strings.Repeat(u, n/len(u)))
	})
}
