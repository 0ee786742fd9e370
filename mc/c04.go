// C04: every reader terminates with a result or an error on any input bytes.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"log"
	"runtime/metrics"
	"strings"
	"sync"
	"testing/iotest"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C04"] = propDef{
		level: "model_checking",
		notes: []string{
			"a call must return (watchdog: 150 s), must not panic, must report an error whenever it returns no catalog, and must not allocate more than 8 MiB + 20000 bytes per input byte in total (a call that appears to exceed it is repeated alone and measured exactly)",
			"the oracle is the termination/outcome monitor; which documents are accepted is decided by C03, C05-C07 and C15",
		},
		run: runC04,
	}
}

var memGate sync.RWMutex

func heapAllocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// bounded runs f and checks how much it allocates.
func bounded(inputLen int, f func() error) error {
	limit := uint64(8<<20 + 20000*inputLen)
	memGate.RLock()
	a := heapAllocs()
	err := func() error {
		defer memGate.RUnlock()
		return f()
	}()
	if heapAllocs()-a <= limit || err != nil {
		return err
	}
	memGate.Lock()
	defer memGate.Unlock()
	a = heapAllocs()
	err = f()
	if d := heapAllocs() - a; d > limit {
		return failf("memory", "allocates %d bytes for %d bytes of input", d, inputLen)
	}
	return err
}

func readPoAny(w *W, b []byte, opts ...parse.PoOption) error {
	p := parse.NewPoFromBytes(b, "x.po", opts...)
	f := p.Parse()
	w.Trans(1)
	w.Trace()
	if f == nil && p.Error() == nil {
		return failf("silent", "PO parser returned nothing and no error for %q", clip(string(b), 500))
	}
	if (p.Error() == nil) != (len(p.Errors()) == 0) {
		return failf("errors", "PO parser Error and Errors disagree for %q", clip(string(b), 500))
	}
	return nil
}

func readMoAny(w *W, b []byte, opts ...parse.MoOption) error {
	p := parse.NewMoFromBytes(b, "x.mo", opts...)
	f := p.Parse()
	w.Trans(1)
	w.Trace()
	if f == nil && p.Error() == nil {
		return failf("silent", "MO parser returned nothing and no error for %q", clip(string(b), 500))
	}
	f2, err := parse.MoFromBytes(b, "x.mo", opts...)
	if err == nil && (f2 == nil || len(p.Errors()) != 0) {
		return failf("silent", "MoFromBytes: nil file without error, or an error only Errors reports, for %q", clip(string(b), 500))
	}
	return nil
}

func readGoAny(w *W, b []byte, opts ...goparse.Option) error {
	f, err := goparse.FromBytes(b, "x.go", opts...)
	w.Trans(1)
	w.Trace()
	if err == nil && f == nil {
		return failf("silent", "Go extraction returned nothing and no error for %q", clip(string(b), 500))
	}
	return nil
}

func highlightAny(w *W, b []byte) error {
	out, err := compile.HighlightFromBytes(compile.DefaultHighlight, "x.po", b)
	w.Trans(1)
	w.Trace()
	if err == nil && out == nil && len(b) > 0 {
		return failf("silent", "highlighter returned nothing and no error for %q", clip(string(b), 500))
	}
	return nil
}

var c04Po = []string{`"`, `\`, "#", "~", "\n", "msgid", "msgstr", "msgctxt", "msgid_plural", "[", "]", "0", " ", "\x00", "\xff", "é", ":", ",", "x", "|", ".", "\r", "99999999999999999999", `""`}

var c04Go = []string{"(", ")", "\"s\"", "`r\n`", ",", ".", "Get", "GetNDC", "gotext", "x", "{", "}", "\n", "+", "\"", "func", "var", "=", "'", "/*", "1", "\x00", "\xff", "[", "]"}

const c04GoHead = "package p\nimport \"github.com/leonelquinteros/gotext\"\n"

func moSample(order compile.Endianness) []byte {
	return compile.MoToBytes(ents{
		{Str: "Language: es\n"},
		{ID: "a", Str: "1"},
		{ID: "b", Context: "c", Str: "22"},
		{ID: "d", Plural: "ds", Plurals: pes{{ID: 0, Str: "x"}, {ID: 1, Str: "yy"}}},
	}, compile.MoWithEndianness(order))
}

// sampleDoc has every construct of the PO format.
var sampleDoc = c03Style{eol: "\n", final: true, blanks: 1, joinLoc: true, joinFlag: true}.doc(ents{
	{Str: "L: e\n", Comments: strs("t")},
	{ID: "o", Str: "u", Locations: locs{{Line: 1, File: "a.go"}}, Flags: strs("fuzzy")},
	{ID: "w", Context: "c", Plural: "ws", Plurals: pes{{ID: 0, Str: "d"}, {ID: 1, Str: "\te"}}, ExtractedComments: strs("n"), Previous: strs(`msgid "q"`)},
	{ID: "g", Str: "i", Obsolete: true},
})

// goDoc is a Go file with several calls.
var goDoc = c04GoHead + "var a = gotext.Get(\"a\\n\")\nfunc f() {\n\tgotext.GetND(\"d\", `b\nc`, \"p\", 2)\n\tgotext.GetNDC(\"d\", \"i\", \"p\", 1, \"c\")\n}\n"

func runC04(r *Run) {
	po := func(w *W, doc []byte, hl bool) error {
		if err := bounded(len(doc), func() error { return readPoAny(w, doc) }); err != nil {
			return err
		}
		if err := bounded(len(doc), func() error {
			return readPoAny(w, doc, parse.PoWithUseCustomObsoletePrefix(true), parse.PoWithCustomObsoletePrefix('x'), parse.PoWithIgnoreAllComments(true))
		}); err != nil {
			return err
		}
		if !hl {
			return nil
		}
		return bounded(len(doc), func() error { return highlightAny(w, doc) })
	}

	l := 4
	if r.Thorough {
		l = 5
	}
	r.Space("po-tokens", "all sequences of lexical fragments up to the bound, to the PO reader (two configurations) and the highlighter", seqCount(len(c04Po), l), func(w *W, i int64) error {
		var b strings.Builder
		seq := seqAt(len(c04Po), i)
		for _, k := range seq {
			b.WriteString(c04Po[k])
		}
		w.Desc("%q", b.String())
		w.State(w.desc)
		return po(w, []byte(b.String()), len(seq) <= 3 || i%8 == 0)
	})
	r.Space("po-bytes", "every value of every byte, every truncation and every two-byte removal in a document with every construct", int64(len(sampleDoc))*258, func(w *W, i int64) error {
		at, v := int(i/258), int(i%258)
		doc := []byte(sampleDoc)
		switch v {
		case 256:
			doc = doc[:at]
		case 257:
			if at+2 <= len(doc) {
				doc = append(append([]byte{}, doc[:at]...), doc[at+2:]...)
			}
		default:
			doc[at] = byte(v)
		}
		w.Desc("%q", doc)
		w.State(w.desc)
		return po(w, doc, r.Thorough || v >= 256 || v%16 == 3)
	})

	orders := []parse.Endianness{parse.NativeEndian, parse.LittleEndian, parse.BigEndian}
	samples := [][]byte{moSample(compile.LittleEndian), moSample(compile.BigEndian)}
	mo := func(w *W, b []byte) error {
		for k, o := range orders {
			if err := bounded(len(b), func() error { return readMoAny(w, b, parse.MoWithEndianness(o), parse.MoWithMustBeSorted(k == 1)) }); err != nil {
				return err
			}
		}
		return nil
	}
	r.Space("mo-bytes", "every value of every byte and every truncation of MO files in both byte orders, read under each byte-order setting", int64(len(samples[0]))*257*2, func(w *W, i int64) error {
		d := &Dec{i}
		s := samples[d.N(2)]
		v, at := d.N(257), int(d.i)
		b := append([]byte{}, s...)
		if v == 256 {
			b = b[:at]
		} else {
			b[at] = byte(v)
		}
		w.Desc("% x", b)
		w.State(w.desc)
		return mo(w, b)
	})
	vals := []uint32{0, 1, 2, 3, 4, 7, 8, 0x10, 0x20, 0x7c, 0xff, 0x100, 0xffff, 0x10000, 0x1fffffff, 0x20000000, 0x20000001, 0x3fffffff, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xe0000000, 0xfffffff0, 0xfffffff8, 0xfffffffe, 0xffffffff, 0x950412de, 0xde120495}
	words := 7 + 4*4
	r.Space("mo-words", "all pairs of header and table words set to all pairs of boundary values", prod(2, words, words, len(vals), len(vals)), func(w *W, i int64) error {
		d := &Dec{i}
		o := d.N(2)
		b := append([]byte{}, samples[o]...)
		a1, a2 := d.N(words), d.N(words)
		v1, v2 := vals[d.N(len(vals))], vals[d.N(len(vals))]
		if a2 < a1 || (a1 == a2 && v1 != v2) {
			return nil
		}
		var bo binary.ByteOrder = binary.LittleEndian
		if o == 1 {
			bo = binary.BigEndian
		}
		bo.PutUint32(b[a1*4:], v1)
		bo.PutUint32(b[a2*4:], v2)
		w.Desc("% x", b)
		w.State(w.desc)
		return mo(w, b)
	})
	r.Space("mo-short", "all byte strings of up to 3 bytes over 16 values after each magic number, and without one", prod(3)*seqCount(16, 3), func(w *W, i int64) error {
		d := &Dec{i}
		pre := [][]byte{nil, samples[0][:4], samples[1][:4]}[d.N(3)]
		b := append([]byte{}, pre...)
		for _, k := range seqAt(16, d.i) {
			b = append(b, []byte{0, 1, 2, 4, 7, 8, 28, 0x20, 0x7f, 0x80, 0x95, 0xde, 0x12, 0xfe, 0xff, 0x10}[k])
		}
		w.Desc("% x", b)
		w.State(w.desc)
		return mo(w, b)
	})

	c04Options(r, samples)

	// Many table entries that share one region of the file.
	counts := []int{1, 2, 10, 100, 1000, 5000}
	regions := []int{0, 1, 10, 100, 1000, 10000, 60000}
	if r.Thorough {
		counts, regions = append(counts, 20000), append(regions, 300000)
	}
	r.Space("mo-overlap", "tables whose entries all point to the same or to staggered parts of one region, as ids, as translations or both, the region made of text, of NULs or of both", prod(len(counts), len(regions), 3, 3, 3), func(w *W, i int64) error {
		d := &Dec{i}
		n, size, fill, which, stagger := counts[d.N(len(counts))], regions[d.N(len(regions))], d.N(3), d.N(3), d.N(3)
		reg := 28 + 16*n
		b := make([]byte, reg+size+1)
		le := binary.LittleEndian
		for k, v := range []uint32{0x950412de, 0, uint32(n), 28, uint32(28 + 8*n), 0, 28} {
			le.PutUint32(b[k*4:], v)
		}
		for k := 0; k < size; k++ {
			b[reg+k] = []byte{'x', 0, "x\x00"[k%2]}[fill]
		}
		for k := 0; k < n; k++ {
			from, l := 0, size
			if stagger == 1 {
				from = k % (size + 1)
				l = size - from
			} else if stagger == 2 {
				l = size - k%(size+1)
			}
			for t := 0; t < 2; t++ {
				at := 28 + 8*n*t + 8*k
				if which == 2 || which == t {
					le.PutUint32(b[at:], uint32(l))
				}
				le.PutUint32(b[at+4:], uint32(reg+from))
			}
		}
		w.Desc("%d entries sharing %d bytes, fill %d, table %d, stagger %d", n, size, fill, which, stagger)
		w.State(w.desc)
		return bounded(len(b), func() error { return readMoAny(w, b) })
	})

	gl := 4
	if r.Thorough {
		gl = 5
	}
	r.Space("go-tokens", "all sequences of Go fragments up to the bound after a file head, at top level and in a function", 2*seqCount(len(c04Go), gl), func(w *W, i int64) error {
		d := &Dec{i}
		var b strings.Builder
		b.WriteString(c04GoHead)
		if d.B() {
			b.WriteString("func f() { gotext.Get(")
		}
		for _, k := range seqAt(len(c04Go), d.i) {
			b.WriteString(c04Go[k] + " ")
		}
		doc := []byte(b.String())
		w.Desc("%q", doc)
		w.State(w.desc)
		return bounded(len(doc), func() error { return readGoAny(w, doc, goparse.WithExtractAll(i%4 < 2)) })
	})
	r.Space("go-bytes", "every value of every byte and every truncation of a Go file", int64(len(goDoc))*257, func(w *W, i int64) error {
		at, v := int(i/257), int(i%257)
		b := []byte(goDoc)
		if v == 256 {
			b = b[:at]
		} else {
			b[at] = byte(v)
		}
		w.Desc("%q", b)
		w.State(w.desc)
		return bounded(len(b), func() error { return readGoAny(w, b, goparse.WithExtractAll(v%2 == 0)) })
	})

	// Long inputs: repeated fragments.
	max := 17
	if r.Thorough {
		max = 19
	}
	rep := []string{"#\n", "#~ ", "#~ msgid \"a\"\n", "\"", "\\", "msgid ", "msgid \"\" ", "[", "msgstr[0] \"\"", "# x\nmsgid \"a\"\nmsgstr \"b\"\n", " ", "\n", "#, a\n", "#: a:1 ", "\x00", "é", "msgctxt \"a\" "}
	r.Space("long", "every fragment repeated 1, 2, 4, ... times, to the PO reader and the highlighter", prod(len(rep), max), func(w *W, i int64) error {
		d := &Dec{i}
		s := rep[d.N(len(rep))]
		n := 1 << d.N(max)
		doc := []byte(strings.Repeat(s, n))
		w.Desc("%q x %d", s, n)
		w.State(w.desc)
		return po(w, doc, true)
	})
	nest := [][2]string{{"(", ")"}, {"gotext.Get(", ")"}, {"func(){", "}"}, {"[]int{", "}"}, {"*", ""}, {"x.", "x"}, {"\"a\"+", "\"b\""}, {"gotext.Get(\"a\");", ""}, {"if x {", "}"}, {"/*", "*/"}}
	r.Space("go-nesting", "every nesting construct repeated 1, 2, 4, ... times", prod(len(nest), max), func(w *W, i int64) error {
		d := &Dec{i}
		s := nest[d.N(len(nest))]
		n := 1 << d.N(max)
		doc := []byte(c04GoHead + "func f() { _ = " + strings.Repeat(s[0], n) + "1" + strings.Repeat(s[1], n) + "}\n")
		w.Desc("%q x %d", s[0], n)
		w.State(w.desc)
		return bounded(len(doc), func() error { return readGoAny(w, doc) })
	})

	goRep := []string{"gotext.Get(\"text %d\")\n", "gotext.GetN(\"text %d\", \"texts %d\", n)\n", "gotext.Get(x%d)\n", "println(\"text %d\")\n", "// text %d\n", "gotext.Get(`text\n%d`);", "gotext.Get(\"text\", %d);", "gotext.Get();\n", "gotext.GetC(\"text %d\", 'c');", "//line x.go:%d\n"}
	gmax := 17
	if r.Thorough {
		gmax = 19
	}
	r.Space("go-long", "every kind of statement 1, 2, 4, ... times in a function, each with a number of its own: calls, literals, calls that are skipped, comments, directives", prod(len(goRep), gmax+1, 2), func(w *W, i int64) error {
		d := &Dec{i}
		all := d.B()
		s := goRep[d.N(len(goRep))]
		n := 1 << d.N(gmax+1)
		var b bytes.Buffer
		b.WriteString(c04GoHead + "func f(n int) {\n")
		for k := 0; k < n; k++ {
			b.WriteString(strings.ReplaceAll(s, "%d", fmt.Sprint(k)))
		}
		b.WriteString("}\n")
		w.Desc("%q x %d, all %v", s, n, all)
		w.State(w.desc)
		return bounded(b.Len(), func() error { return readGoAny(w, b.Bytes(), goparse.WithExtractAll(all)) })
	})

	// A stream that fails while it is read.
	boom := errors.New("boom")
	r.Space("stream-faults", "PO, MO and Go readers and the highlighter on streams that fail after every byte, that return one byte at a time, and that return data together with the end", prod(4, 5, len(sampleDoc)+1), func(w *W, i int64) error {
		d := &Dec{i}
		kind, mode, at := d.N(4), d.N(5), int(d.i)
		data := [][]byte{[]byte(sampleDoc), samples[0], []byte(goDoc), []byte(sampleDoc)}[kind]
		if at > len(data) {
			return nil
		}
		if mode > 1 && at > 0 {
			return nil
		}
		var rd io.Reader
		fails := false
		switch mode {
		case 0:
			rd, fails = io.MultiReader(bytes.NewReader(data[:at]), iotest.ErrReader(boom)), true
		case 1:
			rd, fails = iotest.DataErrReader(io.MultiReader(bytes.NewReader(data[:at]), iotest.ErrReader(boom))), true
		case 2:
			rd = iotest.OneByteReader(bytes.NewReader(data))
		case 3:
			rd = iotest.DataErrReader(bytes.NewReader(data))
		default:
			rd = iotest.HalfReader(bytes.NewReader(data))
		}
		w.Desc("reader %d, mode %d, after %d bytes", kind, mode, at)
		w.State(w.desc)
		w.Trans(1)
		var err error
		var same error
		switch kind {
		case 0:
			f, e := parse.PoFromReader(rd, "x.po")
			if err = e; e == nil && !fails {
				g, _ := parse.PoFromString(sampleDoc, "x.po")
				same = sameEntries("stream", "differs from the whole text", f.Entries, g.Entries)
			}
		case 1:
			f, e := parse.MoFromReader(rd, "x.mo")
			if err = e; e == nil && !fails {
				g, _ := parse.MoFromBytes(data, "x.mo")
				same = sameEntries("stream", "differs from the whole data", f.Entries, g.Entries)
			}
		case 2:
			f, e := goparse.FromReader(rd, "x.go")
			if err = e; e == nil && !fails {
				g, _ := goparse.FromBytes(data, "x.go")
				same = sameEntries("stream", "differs from the whole text", f.Entries[1:], g.Entries[1:])
			}
		default:
			_, err = compile.HighlightFromReader(compile.DefaultHighlight, "x.po", rd)
		}
		w.Trace()
		if fails && err == nil {
			return failf("stream", "a stream that fails after %d bytes is read without error", at)
		}
		if !fails && err != nil {
			return failf("stream", "a stream that does not fail gives error %v", err)
		}
		return same
	})
}

// c04Options runs the readers under every combination of their options.
func c04Options(r *Run, samples [][]byte) {
	logger := log.New(io.Discard, "", 0)
	docs := append([]string{"", "\n", "#~ msgid \"a\"\n#~ msgstr \"b\"\n", "#x msgid \"a\"\n#x msgstr \"b\"\n", "msgid \"\"\nmsgstr \"\"\n", "msgid \"\"\nmsgstr \"a: b\\n\"\n", "msgid \"a\"\nmsgstr \"b\"\nmsgid \"a\"\nmsgstr \"c\"\n", "#, fuzzy\n#: a:1\n#. e\n#| msgid \"o\"\n# t\nmsgctxt \"c\"\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n", sampleDoc}, c04Po...)
	for _, a := range c04Po {
		docs = append(docs, "msgid \"a\"\nmsgstr \"b\"\n"+a, a+"msgid \"a\"\nmsgstr \"b\"\n", "#~ "+a, "# "+a+"\n#x "+a)
	}
	r.Space("po-options", "every combination of the options of the PO reader, on documents of one to three fragments and on one of every construct", prod(len(docs), 1<<6, 3, 3), func(w *W, i int64) error {
		d := &Dec{i}
		doc := docs[d.N(len(docs))]
		opts := []parse.PoOption{parse.PoWithIgnoreComments(d.B()), parse.PoWithIgnoreAllComments(d.B()), parse.PoWithSkipHeader(d.B()), parse.PoWithCleanDuplicates(d.B()), parse.PoWithParseObsolete(d.B()), parse.PoWithVerbose(d.B())}
		desc := i
		if k := d.N(3); k > 0 {
			opts = append(opts, parse.PoWithUseCustomObsoletePrefix(true), parse.PoWithCustomObsoletePrefix([]rune{'x', 0}[k-1]))
		}
		switch d.N(3) {
		case 1:
			opts = append(opts, parse.PoWithLogger(logger))
		case 2:
			opts = append(opts, parse.PoWithLogger(nil))
		}
		w.Desc("%q, options %d", doc, desc)
		w.State(w.desc)
		return bounded(len(doc), func() error { return readPoAny(w, []byte(doc), opts...) })
	})

	pool := ents{{}, {Str: "Language: es\n"}, {ID: "a", Str: "1"}, {ID: "b"}, {ID: "a", Context: "c", Str: "2"}, {ID: "d", Plural: "ds", Plurals: pes{{ID: 0, Str: "x"}, {ID: 1, Str: "yy"}}}, {ID: "\x00", Str: "\x04"}}
	files := samples
	for i := int64(0); i < seqCount(len(pool), 3); i++ {
		in := ents{}
		for _, k := range seqAt(len(pool), i) {
			in = append(in, pool[k])
		}
		for k := 0; k < 8; k++ {
			files = append(files, compile.MoToBytes(in, compile.MoWithForce(true), compile.MoWithSortEntries(k&1 != 0), compile.MoWithHashTable(k&2 != 0), compile.MoWithEndianness([]compile.Endianness{compile.LittleEndian, compile.BigEndian}[k>>2])))
		}
	}
	orders := []parse.Endianness{parse.NativeEndian, parse.LittleEndian, parse.BigEndian}
	r.Space("mo-options", "every combination of the options of the MO reader, on the files written under every combination of the writer's options for all catalogs of up to 3 entries of a pool, the empty one included", prod(len(files), 2, 3, 3), func(w *W, i int64) error {
		d := &Dec{i}
		b := files[d.N(len(files))]
		opts := []parse.MoOption{parse.MoWithMustBeSorted(d.B()), parse.MoWithEndianness(orders[d.N(3)])}
		switch d.N(3) {
		case 1:
			opts = append(opts, parse.MoWithLogger(logger))
		case 2:
			opts = append(opts, parse.MoWithLogger(nil))
		}
		w.Desc("% x, options %d", b, i%18)
		w.State(w.desc)
		return bounded(len(b), func() error { return readMoAny(w, b, opts...) })
	})

	godocs := []string{"", "package p\n", c04GoHead, goDoc, "package p\nvar a = \"x\"\n", c04GoHead + "var a = gotext.Get(\"\")\n", c04GoHead + "var a = gotext.Get(\"a\") + gotext.Get(\"a\")\n", c04GoHead + "var a = gotext.GetC(\"a\", x)\n", "package", "\x00"}
	for _, a := range c04Go {
		godocs = append(godocs, c04GoHead+"var a = gotext.Get("+a, c04GoHead+"var a = gotext.GetND("+a+", "+a+")")
	}
	heads := []*po.Header{nil, {}, {Fields: []po.HeaderField{{Key: "Language", Value: "es"}}}, {Template: true}}
	r.Space("go-options", "every combination of the options of the extraction, on short files and on one with several calls", prod(len(godocs), 1<<4, len(heads), 3, 3, 2), func(w *W, i int64) error {
		d := &Dec{i}
		doc := godocs[d.N(len(godocs))]
		opts := []goparse.Option{goparse.WithNoHeader(d.B()), goparse.WithVerbose(d.B()), goparse.WithCleanDuplicates(d.B()), goparse.WithExtractAll(d.B()), goparse.WithCustomHeader(heads[d.N(len(heads))])}
		switch d.N(3) {
		case 1:
			opts = append(opts, goparse.WithHeaderConfig(nil))
		case 2:
			c := po.DefaultHeaderConfig()
			opts = append(opts, goparse.WithHeaderConfig(&c))
		}
		switch d.N(3) {
		case 1:
			opts = append(opts, goparse.WithExclude())
		case 2:
			opts = append(opts, goparse.WithExclude("", "x.go", "[", "*"))
		}
		if d.B() {
			opts = append(opts, goparse.WithLogger(logger))
		}
		w.Desc("%q, options %d", doc, i)
		w.State(w.desc)
		return bounded(len(doc), func() error { return readGoAny(w, []byte(doc), opts...) })
	})
}
