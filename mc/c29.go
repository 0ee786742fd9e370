// C29: every way of asking for an operation gives the same result.
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing/iotest"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C29"] = propDef{
		level: "model_checking",
		notes: []string{
			"oracle: the first way; what the result must be is checked under the other properties",
			"standard error of a tool run through gotext-tools is compared without the usage text and the command name",
		},
		run: runC29,
	}
}

// route is one way of asking; it answers with everything that can be seen.
type route struct {
	name string
	f    func() string
}

func sameRoutes(w *W, rs []route) error {
	first := ""
	for i, rt := range rs {
		got := rt.f()
		w.Trans(1)
		if i == 0 {
			first = got
		} else if got != first {
			return failf("route:"+rt.name, "%s and %s give different results: %s\n%s:\n%.1500s\n%s:\n%.1500s", rs[0].name, rt.name, firstDiff(got, first), rs[0].name, first, rt.name, got)
		}
	}
	w.Trace()
	return nil
}

// written shows a file an operation wrote, and removes it.
func written(path string, err error) string {
	b, rerr := os.ReadFile(path)
	os.Remove(path)
	if rerr != nil {
		return fmt.Sprintf("%v, no file", err)
	}
	return fmt.Sprintf("%v %s", err, b)
}

func outOf(err error, b []byte) string { return fmt.Sprintf("%v %s", err, b) }

// c29PoRoutes are all ways to write a PO file; they do not differ for operations that succeed.
func c29PoRoutes(cat ents, opts []compile.PoOption, path string) []route {
	file := func() *po.File { return &po.File{Name: "n", Entries: cat} }
	var out []route
	add := func(name string, f func() string) { out = append(out, route{name, f}) }
	toWriter := func(name string, c compile.PoCompiler) {
		add(name, func() string { var b bytes.Buffer; err := c.ToWriter(&b); return outOf(err, b.Bytes()) })
	}
	c := compile.NewPo(file(), opts...)
	toWriter("NewPo.ToWriter", c)
	add("NewPo.ToString", func() string { return "<nil> " + c.ToString() })
	add("NewPo.ToBytes", func() string { return "<nil> " + string(c.ToBytes()) })
	add("NewPo.ToFile", func() string { return written(path, c.ToFile(path)) })
	p := compile.NewPo(file())
	add("NewPo.ToWriterWithOptions", func() string {
		var b bytes.Buffer
		err := p.ToWriterWithOptions(&b, opts...)
		return outOf(err, b.Bytes())
	})
	add("NewPo.ToStringWithOptions", func() string { return "<nil> " + p.ToStringWithOptions(opts...) })
	add("NewPo.ToBytesWithOptions", func() string { return "<nil> " + string(p.ToBytesWithOptions(opts...)) })
	add("NewPo.ToFileWithOptions", func() string { return written(path, p.ToFileWithOptions(path, opts...)) })
	s := compile.NewPo(&po.File{Entries: ents{{ID: "other"}}}, opts...)
	s.SetFile(file())
	toWriter("SetFile", s)
	toWriter("PoWithConfig", compile.NewPo(file(), compile.PoWithConfig(compile.DefaultPoConfig(opts...))))
	a := compile.NewPo(file())
	a.Config.ApplyOptions(opts...)
	toWriter("ApplyOptions", a)
	add("PoToString(Entries)", func() string { return "<nil> " + compile.PoToString(cat, opts...) })
	add("PoToString(*File)", func() string { return "<nil> " + compile.PoToString(file(), opts...) })
	add("PoToString(File)", func() string { return "<nil> " + compile.PoToString(*file(), opts...) })
	add("PoToBytes(Entries)", func() string { return "<nil> " + string(compile.PoToBytes(cat, opts...)) })
	add("PoToBytes(File)", func() string { return "<nil> " + string(compile.PoToBytes(*file(), opts...)) })
	add("PoToWriter(Entries)", func() string {
		var b bytes.Buffer
		err := compile.PoToWriter(cat, &b, opts...)
		return outOf(err, b.Bytes())
	})
	add("PoToWriter(File)", func() string {
		var b bytes.Buffer
		err := compile.PoToWriter(*file(), &b, opts...)
		return outOf(err, b.Bytes())
	})
	add("PoToFile(*File)", func() string { return written(path, compile.PoToFile(file(), path, opts...)) })
	add("PoToFile(Entries)", func() string { return written(path, compile.PoToFile(cat, path, opts...)) })
	add("PoToFile(existing, force)", func() string {
		os.WriteFile(path, []byte(strings.Repeat("old contents\n", 400)), 0o600)
		return written(path, compile.PoToFile(cat, path, append(opts[:len(opts):len(opts)], compile.PoWithForcePo(true))...))
	})
	return out
}

func c29MoRoutes(cat ents, opts []compile.MoOption, path string) []route {
	file := func() *po.File { return &po.File{Name: "n", Entries: cat} }
	var out []route
	add := func(name string, f func() string) { out = append(out, route{name, f}) }
	toWriter := func(name string, c compile.MoCompiler) {
		add(name, func() string { var b bytes.Buffer; err := c.ToWriter(&b); return outOf(err, b.Bytes()) })
	}
	c := compile.NewMo(file(), opts...)
	toWriter("NewMo.ToWriter", c)
	add("NewMo.ToBytes", func() string { return "<nil> " + string(c.ToBytes()) })
	add("NewMo.ToFile", func() string { return written(path, c.ToFile(path)) })
	p := compile.NewMo(file())
	add("NewMo.ToWriterWithOptions", func() string {
		var b bytes.Buffer
		err := p.ToWriterWithOptions(&b, opts...)
		return outOf(err, b.Bytes())
	})
	add("NewMo.ToBytesWithOptions", func() string { return "<nil> " + string(p.ToBytesWithOptions(opts...)) })
	add("NewMo.ToFileWithOptions", func() string { return written(path, p.ToFileWithOptions(path, opts...)) })
	s := compile.NewMo(&po.File{Entries: ents{{ID: "other"}}}, opts...)
	s.SetFile(file())
	toWriter("SetFile", s)
	toWriter("MoWithConfig", compile.NewMo(file(), compile.MoWithConfig(compile.DefaultMoConfig(opts...))))
	a := compile.NewMo(file())
	a.Config.ApplyOptions(opts...)
	toWriter("ApplyOptions", a)
	add("MoToBytes(Entries)", func() string { return "<nil> " + string(compile.MoToBytes(cat, opts...)) })
	add("MoToBytes(File)", func() string { return "<nil> " + string(compile.MoToBytes(*file(), opts...)) })
	add("MoToBytes(*File)", func() string { return "<nil> " + string(compile.MoToBytes(file(), opts...)) })
	add("MoToWriter(Entries)", func() string {
		var b bytes.Buffer
		err := compile.MoToWriter(cat, &b, opts...)
		return outOf(err, b.Bytes())
	})
	add("MoToFile(Entries)", func() string { return written(path, compile.MoToFile(cat, path, opts...)) })
	add("MoToFile(existing, force)", func() string {
		os.WriteFile(path, []byte(strings.Repeat("old contents\n", 400)), 0o600)
		return written(path, compile.MoToFile(*file(), path, append(opts[:len(opts):len(opts)], compile.MoWithForce(true))...))
	})
	return out
}

// read shows what a reader answered.
func readResult(f *po.File, errs ...error) string {
	s := ""
	if f == nil {
		s = "no file\n"
	} else {
		s = "name " + f.Name + "\n" + dump(f.Entries)
	}
	for _, e := range errs {
		s += fmt.Sprintf("\n%v", e)
	}
	return s
}

// firstErr is the result of a function that answers with the first error.
func firstErr(errs []error) error {
	if len(errs) == 0 {
		return nil
	}
	return errs[0]
}

func c29PoReadRoutes(doc, path string, opts []parse.PoOption) []route {
	var out []route
	add := func(name string, f func() string) { out = append(out, route{name, f}) }
	show := func(p *parse.PoParser, err error) string {
		if err != nil {
			return "new: " + err.Error()
		}
		f := p.Parse()
		if p.Error() != firstErr(p.Errors()) {
			return fmt.Sprintf("Error %v is not the first of Errors %v", p.Error(), p.Errors())
		}
		return readResult(f, p.Error())
	}
	pkg := func(f *po.File, err error) string { return readResult(f, err) }
	add("NewPoFromString", func() string { return show(parse.NewPoFromString(doc, path, opts...), nil) })
	add("NewPoFromBytes", func() string { return show(parse.NewPoFromBytes([]byte(doc), path, opts...), nil) })
	add("NewPoFromReader", func() string { return show(parse.NewPoFromReader(strings.NewReader(doc), path, opts...)) })
	add("NewPoFromReader(byte by byte)", func() string {
		return show(parse.NewPoFromReader(iotest.OneByteReader(strings.NewReader(doc)), path, opts...))
	})
	add("NewPo", func() string { return show(parse.NewPo(path, opts...)) })
	open := func(f func(*os.File) string) string {
		h, err := os.Open(path)
		if err != nil {
			return "open: " + err.Error()
		}
		defer h.Close()
		return f(h)
	}
	add("NewPoFromFile", func() string {
		return open(func(h *os.File) string { return show(parse.NewPoFromFile(h, opts...)) })
	})
	add("ParseWithOptions", func() string {
		p := parse.NewPoFromString(doc, path)
		f := p.ParseWithOptions(opts...)
		return readResult(f, p.Error())
	})
	add("PoWithConfig", func() string {
		return show(parse.NewPoFromString(doc, path, parse.PoWithConfig(parse.DefaultPoConfig(opts...))), nil)
	})
	add("Parse twice", func() string {
		p := parse.NewPoFromString(doc, path, opts...)
		p.Parse()
		return show(p, nil)
	})
	add("Po", func() string { return pkg(parse.Po(path, opts...)) })
	add("PoFromString", func() string { return pkg(parse.PoFromString(doc, path, opts...)) })
	add("PoFromBytes", func() string { return pkg(parse.PoFromBytes([]byte(doc), path, opts...)) })
	add("PoFromReader", func() string {
		return pkg(parse.PoFromReader(iotest.HalfReader(strings.NewReader(doc)), path, opts...))
	})
	add("PoFromFile", func() string {
		return open(func(h *os.File) string { return pkg(parse.PoFromFile(h, opts...)) })
	})
	add("PoFromFile(the rest of a removed file)", func() string {
		return restOfFile(path, doc, func(h *os.File) string { return pkg(parse.PoFromFile(h, opts...)) })
	})
	return out
}

// restOfFile calls f with an open file that is positioned at the text and has no name any more.
func restOfFile(path, text string, f func(*os.File) string) string {
	p := path + ".at"
	if err := os.WriteFile(p, []byte("skipped\n"+text), 0o644); err != nil {
		panic(err)
	}
	h, err := os.Open(p)
	if err != nil {
		panic(err)
	}
	defer h.Close()
	os.Remove(p)
	h.Seek(int64(len("skipped\n")), io.SeekStart)
	quoted := func(s string) string { return strings.Trim(strconv.Quote(s), `"`) }
	return strings.ReplaceAll(strings.ReplaceAll(f(h), p, path), quoted(p), quoted(path))
}

func c29MoReadRoutes(data []byte, path string, opts []parse.MoOption) []route {
	var out []route
	add := func(name string, f func() string) { out = append(out, route{name, f}) }
	show := func(p *parse.MoParser, err error) string {
		if err != nil {
			return "new: " + err.Error()
		}
		f := p.Parse()
		if p.Error() != firstErr(p.Errors()) {
			return fmt.Sprintf("Error %v is not the first of Errors %v", p.Error(), p.Errors())
		}
		return readResult(f, p.Error())
	}
	pkg := func(f *po.File, err error) string { return readResult(f, err) }
	open := func(f func(*os.File) string) string {
		h, err := os.Open(path)
		if err != nil {
			return "open: " + err.Error()
		}
		defer h.Close()
		return f(h)
	}
	add("NewMoFromBytes", func() string { return show(parse.NewMoFromBytes(data, path, opts...), nil) })
	add("NewMoFromReader", func() string { return show(parse.NewMoFromReader(bytes.NewReader(data), path, opts...)) })
	add("NewMoFromReader(byte by byte)", func() string {
		return show(parse.NewMoFromReader(iotest.OneByteReader(bytes.NewReader(data)), path, opts...))
	})
	add("NewMo", func() string { return show(parse.NewMo(path, opts...)) })
	add("NewMoFromFile", func() string {
		return open(func(h *os.File) string { return show(parse.NewMoFromFile(h, opts...)) })
	})
	add("ParseWithOptions", func() string {
		p := parse.NewMoFromBytes(data, path)
		f := p.ParseWithOptions(opts...)
		return readResult(f, p.Error())
	})
	add("MoWithConfig", func() string {
		return show(parse.NewMoFromBytes(data, path, parse.MoWithConfig(parse.DefaultMoConfig(opts...))), nil)
	})
	add("Parse twice", func() string {
		p := parse.NewMoFromBytes(data, path, opts...)
		p.Parse()
		return show(p, nil)
	})
	add("Mo", func() string { return pkg(parse.Mo(path, opts...)) })
	add("MoFromBytes", func() string { return pkg(parse.MoFromBytes(data, path, opts...)) })
	add("MoFromReader", func() string {
		return pkg(parse.MoFromReader(iotest.HalfReader(bytes.NewReader(data)), path, opts...))
	})
	add("MoFromFile", func() string {
		return open(func(h *os.File) string { return pkg(parse.MoFromFile(h, opts...)) })
	})
	add("MoFromFile(the rest of a removed file)", func() string {
		return restOfFile(path, string(data), func(h *os.File) string { return pkg(parse.MoFromFile(h, opts...)) })
	})
	return out
}

func c29GoRoutes(src, path string, opts []goparse.Option) []route {
	var out []route
	add := func(name string, f func() string) { out = append(out, route{name, f}) }
	// The package functions answer with the first error and the constructors fail early; what counts is
	// that there is an error, which one, and the messages.
	show := func(f *po.File, err error) string {
		if err != nil {
			return "error"
		}
		return readResult(f)
	}
	parser := func(p *goparse.Parser, err error) string {
		if err != nil {
			return "error"
		}
		f := p.Parse()
		return show(f, p.Error())
	}
	open := func(f func(*os.File) string) string {
		h, err := os.Open(path)
		if err != nil {
			return "open: " + err.Error()
		}
		defer h.Close()
		return f(h)
	}
	add("FromString", func() string { return show(goparse.FromString(src, path, opts...)) })
	add("FromBytes", func() string { return show(goparse.FromBytes([]byte(src), path, opts...)) })
	add("FromReader", func() string {
		return show(goparse.FromReader(iotest.OneByteReader(strings.NewReader(src)), path, opts...))
	})
	add("FromPath", func() string { return show(goparse.FromPath(path, opts...)) })
	add("FromPaths", func() string { return show(goparse.FromPaths([]string{path}, opts...)) })
	add("FromFile", func() string {
		return open(func(h *os.File) string { return show(goparse.FromFile(h, opts...)) })
	})
	add("FromFiles", func() string {
		return open(func(h *os.File) string { return show(goparse.FromFiles([]*os.File{h}, opts...)) })
	})
	add("FromFile(the rest of a removed file)", func() string {
		return restOfFile(path, src, func(h *os.File) string { return show(goparse.FromFile(h, opts...)) })
	})
	add("NewParserFromString", func() string { return parser(goparse.NewParserFromString(src, path, opts...)) })
	add("NewParserFromBytes", func() string { return parser(goparse.NewParserFromBytes([]byte(src), path, opts...)) })
	add("NewParserFromReader", func() string { return parser(goparse.NewParserFromReader(strings.NewReader(src), path, opts...)) })
	add("NewParser", func() string { return parser(goparse.NewParser(path, opts...)) })
	add("NewParserFromPaths", func() string { return parser(goparse.NewParserFromPaths([]string{path}, opts...)) })
	add("ParseWithOptions", func() string {
		p, err := goparse.NewParserFromString(src, path)
		if err != nil {
			return "error"
		}
		f := p.ParseWithOptions(opts...)
		return show(f, p.Error())
	})
	add("WithConfig", func() string {
		return parser(goparse.NewParserFromString(src, path, goparse.WithConfig(goparse.DefaultConfig(opts...))))
	})
	add("options in other order", func() string { return show(goparse.FromString(src, path, reversed(opts)...)) })
	add("WithConfig and ParseWithOptions", func() string {
		p, err := goparse.NewParserFromString(src, path)
		if err != nil {
			return "error"
		}
		f := p.ParseWithOptions(goparse.WithConfig(goparse.DefaultConfig(reversed(opts)...)))
		return show(f, p.Error())
	})
	add("Parse twice", func() string {
		p, err := goparse.NewParserFromString(src, path, opts...)
		if err != nil {
			return "error"
		}
		p.Parse()
		f := p.Parse()
		return show(f, p.Error())
	})
	return out
}

func runC29(r *Run) {
	path := func(w *W, ext string) string {
		return filepath.Join(r.Scratch, fmt.Sprintf("c29-%d%s", w.ID(), ext))
	}
	pool := append(c19Pool(), c08Defs()...)
	pool = append(pool, oddEntries()...)
	sets := c19Singles(r.Thorough)
	r.Space("write-po", "every way of writing all catalogs of up to two entries under every setting of one option (thorough: two)", seqCount(len(pool), 2)*int64(len(sets)+2), func(w *W, i int64) error {
		d := &Dec{i}
		k := d.N(len(sets) + 2)
		o, high := sets[k%len(sets)], k >= len(sets)
		var cat ents
		for _, j := range seqAt(len(pool), d.i) {
			cat = append(cat, cloneE(pool[j]))
		}
		opts := o.opts()
		if high {
			opts = append(opts, compile.PoWithHighlight(compile.TestHighlight))
		}
		w.Desc("%v highlighted: %v\n%s", o, high, dump(cat))
		w.State(w.desc)
		return sameRoutes(w, c29PoRoutes(cat, opts, path(w, ".po")))
	})
	mp := append(moPool(), oddEntries()...)
	cfgs := moCfgs()
	r.Space("write-mo", "every way of writing all catalogs of up to two entries as MO under every configuration", seqCount(len(mp), 2)*int64(len(cfgs)), func(w *W, i int64) error {
		d := &Dec{i}
		c := cfgs[d.N(len(cfgs))]
		var cat ents
		for _, j := range seqAt(len(mp), d.i) {
			cat = append(cat, cloneE(mp[j]))
		}
		w.Desc("%+v\n%s", c, dump(cat))
		w.State(w.desc)
		return sameRoutes(w, c29MoRoutes(cat, c.opts(), path(w, ".mo")))
	})
	nAll := len(c03Lines)
	ll := 2
	if r.Thorough {
		ll = 3
	}
	r.Space("read-po", "every way of reading all documents up to the bound of lines, well-formed or not, under every reader option", seqCount(nAll, ll)*32, func(w *W, i int64) error {
		d := &Dec{i}
		opts := []parse.PoOption{parse.PoWithIgnoreComments(d.B()), parse.PoWithIgnoreAllComments(d.B()), parse.PoWithSkipHeader(d.B()), parse.PoWithCleanDuplicates(d.B()), parse.PoWithParseObsolete(d.B())}
		doc := joinLines(seqAt(nAll, d.i), "\n", "\n")
		w.Desc("options %05b\n%q", i%32, doc)
		w.State(w.desc)
		p := path(w, ".po")
		if err := os.WriteFile(p, []byte(doc), 0o600); err != nil {
			return failf("env", "%v", err)
		}
		return sameRoutes(w, c29PoReadRoutes(doc, p, opts))
	})
	forms := []func(dir, base string) string{
		func(d, b string) string { return d + "/./" + b },
		func(d, b string) string { return d + "//" + b },
		func(d, b string) string { return d + "/../" + filepath.Base(d) + "/" + b },
		func(d, b string) string { return "/" + d + "/" + b },
		func(d, b string) string {
			wd, _ := os.Getwd()
			p, _ := filepath.Rel(wd, d+"/"+b)
			return p
		},
		func(d, b string) string {
			wd, _ := os.Getwd()
			p, _ := filepath.Rel(wd, d+"/"+b)
			return "./" + p
		},
	}
	exts := []string{".po", "", ".po.bak", " x.po", ".PO", "é.po", "\\.po", "%s.po", "\xff.po"}
	r.Space("names", "every way of reading and extracting from files under names that are relative, not in the shortest form, or unusual", prod(len(forms), len(exts), 3), func(w *W, i int64) error {
		d := &Dec{i}
		form, ext, kind := d.N(len(forms)), exts[d.N(len(exts))], d.N(3)
		data := []byte("msgid \"a\"\nmsgstr \"b\"\n")
		if kind == 1 {
			data = compile.MoToBytes(ents{{ID: "a", Str: "b"}})
		}
		if kind == 2 {
			ext += ".go"
			data = []byte("package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nvar _ = gotext.Get(\"a\")\n")
		}
		base := fmt.Sprintf("c29-%d%s", w.ID(), ext)
		p := forms[form](r.Scratch, base)
		w.Desc("form %d extension %q kind %d", form, ext, kind)
		w.State(w.desc)
		return c29OnDisk(w, string(data), p, func(p string) []route {
			switch kind {
			case 0:
				return c29PoReadRoutes(string(data), p, nil)
			case 1:
				return c29MoReadRoutes(data, p, nil)
			}
			return c29GoRoutes(string(data), p, nil)
		})
	})
	frames := strs("", "\xef\xbb\xbf", "\xef\xbb", "\xff\xfe", "\x00", "\n\n", " ", "\r", "\x1a", "\v", "\xc2\xa0", "#", "# c\n", "\\", "\u2028", "\xe9")
	fbody := strs("", cliA, cliBare, "msgid \"a\"\nmsgstr \"b\"", "msgid \"a\"\r\nmsgstr \"b\"\r\n", "msgid \"a\"\rmsgstr \"b\"\r", "msgid \"a\"\nmsgstr \"b\"\n#~ msgid \"o\"\n#~ msgstr \"\"")
	for _, n := range []int{511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65536} { // sizes readers grow through
		fbody = append(fbody, "msgid \"a\"\nmsgstr \""+strings.Repeat("x", n-20)+"\"\n")
	}
	r.Space("read framed", "every way of reading documents behind and before byte order marks, blanks and stray bytes, of sizes around those of buffers", prod(len(fbody), len(frames), len(frames)), func(w *W, i int64) error {
		d := &Dec{i}
		doc := fbody[d.N(len(fbody))]
		doc = frames[d.N(len(frames))] + doc + frames[d.N(len(frames))]
		w.Desc("%.300q", doc)
		w.State(doc)
		p := path(w, ".po")
		if err := os.WriteFile(p, []byte(doc), 0o600); err != nil {
			return failf("env", "%v", err)
		}
		if err := sameRoutes(w, c29PoReadRoutes(doc, p, nil)); err != nil {
			return err
		}
		return sameRoutes(w, c29MoReadRoutes([]byte(doc), p, nil))
	})
	huge := []int{1 << 17, 1 << 20, 1 << 22, 1 << 24}
	r.Space("huge files", "every way of reading files with one text of up to 16 MiB and more", prod(len(huge), 3, 2), func(w *W, i int64) error {
		d := &Dec{i}
		n, kind, after := huge[d.N(len(huge))], d.N(3), d.B()
		text := strings.Repeat("long text ", n/10+1)
		p := path(w, strs(".po", ".mo", ".go")[kind])
		w.Desc("kind %d, %d bytes, more after it %v", kind, len(text), after)
		w.State(w.desc)
		var data string
		switch kind {
		case 0:
			data = "msgid \"a\"\nmsgstr \"" + text + "\"\n"
			if after {
				data += "msgid \"b\"\nmsgstr \"B\"\n"
			}
		case 1:
			cat := ents{{ID: "a", Str: text}}
			if after {
				cat = append(cat, ent{ID: "b", Str: "B"})
			}
			data = string(layMo(cat, []int{0, 1, 2, 3, 4}, 0, false, false))
		case 2:
			data = "package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nvar _ = gotext.Get(\"" + text + "\")\n"
			if after {
				data += "var _ = gotext.Get(\"b\")\n"
			}
		}
		if err := os.WriteFile(p, []byte(data), 0o600); err != nil {
			return failf("env", "%v", err)
		}
		defer os.Truncate(p, 0)
		switch kind {
		case 0:
			return sameRoutes(w, c29PoReadRoutes(data, p, nil))
		case 1:
			return sameRoutes(w, c29MoReadRoutes([]byte(data), p, nil))
		}
		return sameRoutes(w, c29GoRoutes(data, p, nil))
	})
	samples := c07Samples()
	var cuts [][2]int
	for k, b := range samples {
		step := 1
		if len(b) > 1000 {
			step = 97
		}
		for c := 0; c <= len(b); c += step {
			cuts = append(cuts, [2]int{k, c})
		}
		cuts = append(cuts, [2]int{k, len(b)})
	}
	r.Space("read-mo", "every way of reading MO files whole and cut after every byte, under every reader setting", int64(len(cuts)*6), func(w *W, i int64) error {
		d := &Dec{i}
		o, sorted := []parse.Endianness{parse.NativeEndian, parse.LittleEndian, parse.BigEndian}[d.N(3)], d.B()
		c := cuts[d.i]
		data := samples[c[0]][:c[1]]
		w.Desc("order %v sorted %v %q", o, sorted, data)
		w.State(w.desc)
		p := path(w, ".mo")
		if err := os.WriteFile(p, data, 0o600); err != nil {
			return failf("env", "%v", err)
		}
		return sameRoutes(w, c29MoReadRoutes(data, p, []parse.MoOption{parse.MoWithEndianness(o), parse.MoWithMustBeSorted(sorted)}))
	})

	pieces := []string{"import \"github.com/leonelquinteros/gotext\"\n", "func f() { gotext.Get(\"a\") }\n", "// TRANSLATORS: x\nvar _ = gotext.GetC(\"a\", \"c\")\n", "var v = \"lit\"\n", "func g() { gotext.GetN(\"a\", \"as\", 2); gotext.Get(\"a\") }\n", "import g \"github.com/leonelquinteros/gotext\"\n", "var _ = g.Get(\"b\" + \"c\")\n", "syntax error\n", "var _ = gotext.GetNC(\"p\", \"ps\", 1, \"k\")\n"}
	heads := []string{"package p\n", "", "\xef\xbb\xbfpackage p\n", "//go:build x\n\npackage p\r\n"}
	gl := 3
	if r.Thorough {
		gl = 4
	}
	hc := po.DefaultTemplateHeaderConfig(po.HeaderWithLanguage("xx"))
	h := po.NewHeader(po.HeaderWithLanguage("yy"))
	r.Space("extract", "every way of extracting from all Go sources up to the bound of pieces, well-formed or not, under every option", seqCount(len(pieces), gl)*prod(len(heads), 2, 2, 2, 2, 2), func(w *W, i int64) error {
		d := &Dec{i}
		src := heads[d.N(len(heads))]
		opts := []goparse.Option{goparse.WithExtractAll(d.B()), goparse.WithCleanDuplicates(d.B())}
		if d.B() {
			opts = append(opts, goparse.WithNoHeader(true))
		}
		if d.B() {
			opts = append(opts, goparse.WithHeaderConfig(&hc))
		}
		if d.B() {
			opts = append(opts, goparse.WithCustomHeader(&h))
		}
		for _, k := range seqAt(len(pieces), d.i) {
			src += pieces[k]
		}
		w.Desc("case %d\n%s", i, src)
		w.State(src)
		p := path(w, ".go")
		if err := os.WriteFile(p, []byte(src), 0o600); err != nil {
			return failf("env", "%v", err)
		}
		return sameRoutes(w, c29GoRoutes(src, p, opts))
	})

	// Merging and concatenating.
	dm, rm := c08Defs(), c08Refs()
	mcfgs := mergeCfgs()
	r.Space("merge", "every way of merging all pairs of up to two messages under every setting", prod(len(mcfgs))*seqCount(len(dm), 2)*seqCount(len(rm), 2), func(w *W, i int64) error {
		d := &Dec{i}
		c := mcfgs[d.N(len(mcfgs))]
		var def, ref ents
		for _, j := range seqAt(len(dm), d.i%seqCount(len(dm), 2)) {
			def = append(def, cloneE(dm[j]))
		}
		for _, j := range seqAt(len(rm), d.i/seqCount(len(dm), 2)) {
			ref = append(ref, cloneE(rm[j]))
		}
		w.Desc("%+v\n%s\n--\n%s", c, dump(def), dump(ref))
		w.State(dump(def) + "--" + dump(ref))
		cfg := po.MergeConfig{FuzzyMatch: c.fuzzy, KeepPreviousIDs: c.keep, Sort: c.sort, SortMode: c.mode}
		back := c.opts()
		for a, b := 0, len(back)-1; a < b; a, b = a+1, b-1 {
			back[a], back[b] = back[b], back[a]
		}
		return sameRoutes(w, []route{
			{"Merge", func() string { return dump(po.Merge(clone(def), clone(ref), c.opts()...)) }},
			{"MergeWithConfig", func() string { return dump(po.MergeWithConfig(cfg, clone(def), clone(ref))) }},
			{"MergeWithMergeConfig", func() string { return dump(po.Merge(clone(def), clone(ref), po.MergeWithMergeConfig(cfg))) }},
			{"DefaultMergeConfig", func() string {
				return dump(po.MergeWithConfig(po.DefaultMergeConfig(c.opts()...), clone(def), clone(ref)))
			}},
			{"options in other order", func() string { return dump(po.Merge(clone(def), clone(ref), back...)) }},
			{"ApplyOption", func() string {
				x := po.DefaultMergeConfig()
				x.ApplyOption(c.opts()...)
				return dump(po.MergeWithConfig(x, clone(def), clone(ref)))
			}},
		})
	})
	r.Space("cat", "every way of concatenating two files of up to two messages under every selection", prod(2, 4, 4)*seqCount(len(dm), 2)*seqCount(len(dm), 2), func(w *W, i int64) error {
		d := &Dec{i}
		first, less, more := d.B(), uint(d.N(4)), uint(d.N(4))
		var a, b ents
		for _, j := range seqAt(len(dm), d.i%seqCount(len(dm), 2)) {
			a = append(a, cloneE(dm[j]))
		}
		for _, j := range seqAt(len(dm), d.i/seqCount(len(dm), 2)) {
			b = append(b, cloneE(dm[j]))
		}
		w.Desc("first %v less %d more %d\n%s\n--\n%s", first, less, more, dump(a), dump(b))
		w.State(dump(a) + "--" + dump(b))
		files := func() []*po.File {
			return []*po.File{{Name: "a", Entries: clone(a)}, {Name: "b", Entries: clone(b)}}
		}
		opts := []po.MsgcatMergeOption{po.MsgcatMergeWithUseFirst(first), po.MsgcatMergeWithLessThan(less), po.MsgcatMergeWithMoreThan(more)}
		return sameRoutes(w, []route{
			{"options", func() string { return dump(po.MsgcatMergeFiles(files(), opts...)) }},
			{"config", func() string {
				return dump(po.MsgcatMergeFiles(files(), po.MsgcatMergeWithConfig(po.DefaultMsgcatMergeConfig(opts...))))
			}},
			{"other order", func() string { return dump(po.MsgcatMergeFiles(files(), opts[2], opts[0], opts[1])) }},
		})
	})
	runC29Defaults(r)
	c29CLI(r)
	large(r, "every way of writing and reading it, as PO and as MO", 257, 1025, 2, func(w *W, cat ents, k int) error {
		if k == 1 {
			data := compile.MoToBytes(cat)
			if err := sameRoutes(w, c29MoRoutes(cat, nil, path(w, "-large.mo"))); err != nil {
				return err
			}
			return c29OnDisk(w, string(data), path(w, "-large.mo"), func(p string) []route { return c29MoReadRoutes(data, p, nil) })
		}
		text, err := writePo(cat)
		if err != nil {
			return err
		}
		if err := sameRoutes(w, c29PoRoutes(cat, nil, path(w, "-large.po"))); err != nil {
			return err
		}
		return c29OnDisk(w, text, path(w, "-large.po"), func(p string) []route { return c29PoReadRoutes(text, p, nil) })
	})
}

// cliOpt is an option of a tool.
type cliOpt struct {
	long, short, val string // no value: a switch
}

type cliTool struct {
	tool  string
	ins   []string
	files tree
	stdin string
	opts  []cliOpt
}

func c29Tools() []cliTool {
	a := "# t\nmsgid \"\"\nmsgstr \"Language: es\\nPlural-Forms: nplurals=2; plural=n;\\n\"\n\n# c\n#: z.go:9 a.go:3\nmsgid \"Open file\"\nmsgstr \"T\\nU\"\n\n#, fuzzy\nmsgid \"quux\"\nmsgid_plural \"quuxes\"\nmsgstr[0] \"a\"\nmsgstr[1] \"b\"\n\n#~ msgid \"gone\"\n#~ msgstr \"G\"\n"
	b := "msgid \"Open files\"\nmsgstr \"\"\n\n#: b.go:1\nmsgctxt \"k\"\nmsgid \"quux\"\nmsgstr \"Q\"\n"
	mo, _ := moText(ents{{Str: "Language: es\n"}, {ID: "b", Str: "x\ny"}, {ID: "a", Context: "c", Str: "1"}, {ID: "p", Plural: "ps", Plurals: pes{{ID: 0, Str: "1"}, {ID: 1, Str: "2"}}}}, compile.LittleEndian, true)
	src := "package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nfunc f() {\n\tgotext.Get(\"one\")\n\tgotext.GetN(\"two\", \"twos\", 2)\n\tprintln(\"lit\")\n}\n"
	return []cliTool{
		{"msgofmt", strs("a.po"), tree{"a.po": a, "d/a.po": b, "o": "old"}, "", []cliOpt{
			{"output-file", "o", "o"}, {"output-file", "o", "new.mo"}, {"output-file", "o", "-"}, {"force", "f", ""}, {"endianness", "", "big"}, {"endianness", "", "little"}, {"endianness", "", "wrong"}, {"no-hash", "", ""}, {"verbose", "v", ""}, {"directory", "D", "d"}, {"help", "h", ""}}},
		{"msgounfmt", strs("a.mo"), tree{"a.mo": mo, "o": "old", "bad.mo": "bad"}, mo, []cliOpt{
			{"output", "o", "o"}, {"output", "o", "new.po"}, {"output", "o", "-"}, {"force-po", "f", ""}, {"sort-output", "s", ""}, {"no-wrap", "", ""}, {"ignore-errors", "", ""}, {"color", "", "always"}, {"color", "", "never"}, {"help", "h", ""}, {"nonsense", "", ""}}},
		{"msgomerge", strs("a.po", "b.po"), tree{"a.po": a, "b.po": b, "c.po": "msgid \"quux\"\nmsgstr \"C\"\n", "d/a.po": b, "d/b.po": a, "o": "old"}, "", []cliOpt{
			{"output-file", "o", "o"}, {"output-file", "o", "new.po"}, {"update", "U", ""}, {"no-fuzzy-matching", "N", ""}, {"compendium", "C", "c.po"}, {"directory", "D", "d"}, {"add-location", "n", "file"}, {"add-location", "n", "never"}, {"no-location", "", ""}, {"no-wrap", "", ""}, {"force-po", "", ""}, {"lang", "", "fr"}, {"color", "", "always"}, {"verbose", "", ""}, {"help", "h", ""}}},
		{"msgocat", strs("a.po", "b.po"), tree{"a.po": a, "b.po": b, "list": "b.po\na.po\n", "d/a.po": b, "d/b.po": a, "o": "old"}, "", []cliOpt{
			{"output-file", "o", "o"}, {"output-file", "o", "new.po"}, {"files-from", "f", "list"}, {"directory", "D", "d"}, {"less-than", "<", "2"}, {"more-than", ">", "1"}, {"unique", "u", ""}, {"use-first", "", ""}, {"sort-output", "s", ""}, {"sort-by-file", "F", ""}, {"no-location", "", ""}, {"add-location", "", "file"}, {"lang", "", "fr"}, {"no-wrap", "", ""}, {"color", "", "always"}, {"help", "h", ""}}},
		{"xgotext", strs("a.go"), tree{"a.go": src, "sub/b.go": src, "list": "sub/b.go\n", "o": a, "ex.po": "msgid \"one\"\nmsgstr \"\"\n", "messages.pot": b}, "", []cliOpt{
			{"output", "o", "o"}, {"output", "o", "new.pot"}, {"default-domain", "d", "dom"}, {"output-dir", "p", "sub"}, {"files-from", "f", "list"}, {"directory", "D", "sub"}, {"exclude", "X", "sub"}, {"exclude-file", "x", "ex.po"}, {"extract-all", "a", ""}, {"join-existing", "j", ""}, {"omit-header", "", ""}, {"no-location", "n", ""}, {"add-location", "", "file"}, {"lang", "l", "es"}, {"msgstr-prefix", "m", "<"}, {"msgstr-suffix", "M", ">"}, {"title", "", "T"}, {"package-name", "", "P"}, {"package-version", "", "1"}, {"copyright-holder", "", "H"}, {"foreign-user", "", ""}, {"msgid-bugs-address", "", "a@b"}, {"nplurals", "", "3"}, {"word-wrap", "", ""}, {"force-po", "", ""}, {"color", "", "always"}, {"verbose", "", ""}, {"help", "h", ""}}},
	}
}

// spell writes an option in one of the ways of a command line.
func (o cliOpt) spell(way int) []string {
	switch {
	case o.val == "":
		if way == 2 && o.short != "" {
			return strs("-" + o.short)
		}
		if way == 1 && o.long != "help" {
			return strs("--" + o.long + "=true")
		}
		return strs("--" + o.long)
	case way == 1:
		return strs("--" + o.long + "=" + o.val)
	case way == 2 && o.short != "":
		return strs("-"+o.short, o.val)
	case way == 3 && o.short != "":
		return strs("-" + o.short + o.val)
	}
	return strs("--"+o.long, o.val)
}

func c29CLI(r *Run) {
	ts := c29Tools()
	ways := strs("long", "long=value", "short", "short with value", "options first", "options in other order", "through gotext-tools", "gotext-tools, options first", "gotext-tools by the name of GNU gettext", "gotext-tools by the short name")
	alias := map[string][]string{"msgofmt": strs("msgfmt", "fmt"), "msgounfmt": strs("msgunfmt", "unfmt"), "msgomerge": strs("msgmerge", "merge"), "msgocat": strs("msgcat", "cat"), "xgotext": strs("xgettext", "xgettext")}
	n := 2
	if r.Thorough {
		n = 3
	}
	type job struct {
		t    int
		opts []int
	}
	var jobs []job
	for t := range ts {
		k := len(ts[t].opts)
		for i := int64(0); i < seqCount(k, n); i++ {
			l := seqAt(k, i)
			ok := true
			for a := 1; a < len(l); a++ {
				ok = ok && l[a-1] < l[a] && ts[t].opts[l[a-1]].long != ts[t].opts[l[a]].long
			}
			if ok {
				jobs = append(jobs, job{t, l})
			}
		}
	}
	r.Space("command lines", "every tool under every set of up to two options (thorough: three), each option in its long and short spellings, before and after the arguments, directly and through gotext-tools", int64(len(jobs)), func(w *W, i int64) error {
		t := ts[jobs[i].t]
		w.Desc("%s", t.tool)
		show := func(way int) (string, error) {
			var o []string
			l := jobs[i].opts
			for k := range l {
				j := l[k]
				if way == 5 {
					j = l[len(l)-1-k]
				}
				o = append(o, t.opts[j].spell(way)...)
			}
			args := append(append([]string{}, t.ins...), o...)
			if way == 4 || way == 7 {
				args = append(append([]string{}, o...), t.ins...)
			}
			w.Desc("%s: %s %v", ways[way], t.tool, args)
			j := cliJob{tool: t.tool, args: args, files: t.files, stdin: t.stdin, wrapper: way >= 6}
			if way >= 8 {
				j.tool = alias[t.tool][way-8]
			}
			res, err := r.cli(w, j)
			if err != nil {
				return "", err
			}
			out := res.out
			if strings.Contains(strings.Join(args, " "), "help") || strings.Contains(" "+strings.Join(args, " ")+" ", " -h ") {
				// The usage text names the command.
				out = strings.ReplaceAll(out, "gotext-tools ", "")
			}
			eb := stampRx.ReplaceAllString(strings.ReplaceAll(res.err, "gotext-tools ", ""), "")
			return fmt.Sprintf("exit %d\nstdout:\n%s\nstderr:\n%s\nfiles:\n%v", res.code, out, eb, res.tree), nil
		}
		first, err := show(0)
		if err != nil {
			return err
		}
		w.State(w.desc + first)
		for way := 1; way < len(ways); way++ {
			got, err := show(way)
			if err != nil {
				return err
			}
			if got != first {
				return failf("cli:"+ways[way], "%s\nand the first way give different results: %s\ngot:\n%.1500s\nfirst:\n%.1500s", w.desc, firstDiff(got, first), got, first)
			}
		}
		w.Trace()
		return nil
	})
}

// c29OnDisk compares ways of reading a file.
func c29OnDisk(w *W, doc, p string, routes func(p string) []route) error {
	if err := os.WriteFile(p, []byte(doc), 0o600); err != nil {
		return failf("env", "%v", err)
	}
	defer os.Remove(p)
	return sameRoutes(w, routes(p))
}
