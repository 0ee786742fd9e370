// C18: temporary options apply to one call only.
package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C18"] = propDef{
		level: "model_checking",
		notes: []string{
			"for the Go parser, options that decide which files are read (exclude) only act at construction",
			"oracle: a stack of option lists; every call is compared with the same call on a fresh object constructed with all options of the stack plus those of the call, and the exported configuration with a table of what each option sets",
		},
		run: runC18,
	}
}

// c18Env is what an object under test works with.
type c18Env struct {
	log  bytes.Buffer
	l1   *log.Logger
	l2   *log.Logger
	path string
}

func newC18Env(path string) *c18Env {
	e := &c18Env{path: path}
	e.l1 = log.New(&e.log, "1:", 0)
	e.l2 = log.New(&e.log, "2:", 0)
	return e
}

// show is the canonical text of the exported part of a configuration.
func (e *c18Env) show(cfg any) string {
	var b strings.Builder
	v := reflect.ValueOf(cfg)
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.PkgPath != "" {
			continue
		}
		fmt.Fprintf(&b, "%s=%s ", f.Name, e.val(v.Field(i).Interface()))
	}
	return b.String()
}

func (e *c18Env) val(x any) string {
	switch x := x.(type) {
	case *log.Logger:
		switch x {
		case nil:
			return "nil"
		case e.l1:
			return "L1"
		case e.l2:
			return "L2"
		}
		return "other"
	case *po.HeaderConfig:
		if x == nil {
			return "nil"
		}
		return fmt.Sprintf("%p", x)
	case *po.Header:
		if x == nil {
			return "nil"
		}
		return fmt.Sprintf("%p", x)
	case compile.CSSClassesHighlighting:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return fmt.Sprintf("%v %q", x == nil, ks)
	}
	return fmt.Sprintf("%#v", x)
}

// c18Opt is an option: how to apply it and what it sets.
type c18Opt[O any] struct {
	name  string
	make  func(e *c18Env) O
	field string // "" when it replaces everything
	value func(e *c18Env) any
}

// c18Obj is an object under test.
type c18Obj[O any] struct {
	apply   func(...O)
	restore func()
	cfg     func() any
	// call runs method m, with temporary options or plainly, and returns all that can be seen of it
	call func(m int, with bool, opts ...O) string
}

type c18Type[O any] struct {
	name    string
	opts    []c18Opt[O]
	core    []int // the options histories are made of
	methods []string
	coreM   []int // the methods histories are made of
	new     func(e *c18Env, opts ...O) c18Obj[O]
}

// fixed parts shared by all objects, so that pointers can be compared
var (
	c18HC  = &po.HeaderConfig{Language: "xx", ProjectIDVersion: "V"}
	c18HC2 = &po.HeaderConfig{Language: "yy"}
	c18H   = func() *po.Header {
		var h po.Header
		h.Register("Custom", "h")
		return &h
	}()
	c18Hl  = compile.CSSClassesHighlighting{"text": {FontWeight: compile.FontWeightBold}}
	c18Hl2 = compile.CSSClassesHighlighting{"keyword": {FontStyle: compile.FontStyleItalic}}
)

func c18O[O any](name, field string, mk func(e *c18Env) O, val func(e *c18Env) any) c18Opt[O] {
	return c18Opt[O]{name, mk, field, val}
}

func c18V[O any, V any](field string, f func(V) O, vals ...V) []c18Opt[O] {
	var out []c18Opt[O]
	for _, v := range vals {
		v := v
		out = append(out, c18O(fmt.Sprintf("%s=%v", field, v), field, func(*c18Env) O { return f(v) }, func(*c18Env) any { return v }))
	}
	return out
}

func c18B[O any](field string, f func(bool) O) []c18Opt[O] { return c18V(field, f, true, false) }

func c18Loggers[O any](f func(*log.Logger) O) []c18Opt[O] {
	return []c18Opt[O]{
		c18O("Logger=L1", "Logger", func(e *c18Env) O { return f(e.l1) }, func(e *c18Env) any { return e.l1 }),
		c18O("Logger=L2", "Logger", func(e *c18Env) O { return f(e.l2) }, func(e *c18Env) any { return e.l2 }),
		c18O("Logger=nil", "Logger", func(e *c18Env) O { return f(nil) }, func(e *c18Env) any { return (*log.Logger)(nil) }),
	}
}

// badWriter accepts n bytes and then fails.
type badWriter struct {
	b bytes.Buffer
	n int
}

func (w *badWriter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		w.b.Write(p[:w.n])
		k := w.n
		w.n = 0
		return k, errFault
	}
	w.n -= len(p)
	return w.b.Write(p)
}

func c18File() *po.File {
	return &po.File{Name: "f.po", Entries: ents{
		{Str: "Language: es\nPlural-Forms: nplurals=2; plural=n != 1;\n"},
		{ID: "b", Str: "line\ntwo", Flags: strs("fuzzy"), Locations: locs{{Line: 3, File: "x.go"}}},
		{ID: "a", Context: "c", Str: "t"},
		{ID: "a", Context: "c", Str: "second"},
		{ID: "o", Str: "old", Obsolete: true},
	}}
}

func readBack(path string, err error) string {
	data, rerr := os.ReadFile(path)
	s := strings.ReplaceAll(fmt.Sprint(err), path, "PATH")
	if rerr != nil {
		return s + "|no file"
	}
	return s + "|" + string(data)
}

func c18Types(dir string) []any {
	poc := c18Type[compile.PoOption]{name: "PO compiler", methods: []string{"writer", "failing writer", "string", "bytes", "new file", "existing file", "impossible file"}, coreM: []int{0, 1, 5}}
	for _, l := range [][]c18Opt[compile.PoOption]{
		c18B("OmitHeader", compile.PoWithOmitHeader), c18B("CommentFuzzy", compile.PoWithCommentFuzzy),
		c18B("ManageHeader", compile.PoWithManageHeader), c18B("HeaderComments", compile.PoWithHeaderComments), c18B("HeaderFields", compile.PoWithHeaderFields),
		c18B("NoLocation", compile.PoWithNoLocation), c18V("AddLocation", compile.PoWithAddLocation, compile.PoLocationModeFile, compile.PoLocationModeNever, compile.PoLocationModeFull),
		c18V("MsgstrPrefix", compile.PoWithMsgstrPrefix, "<", ""), c18V("MsgstrSuffix", compile.PoWithMsgstrSuffix, ">"),
		c18B("WordWrap", compile.PoWithWordWrap), c18B("IgnoreErrors", compile.PoWithIgnoreErrors), c18B("Verbose", compile.PoWithVerbose), c18B("ForcePo", compile.PoWithForcePo),
		c18V("PackageName", compile.PoWithPackageName, "pkg"), c18V("CopyrightHolder", compile.PoWithCopyrightHolder, "me"), c18B("ForeignUser", compile.PoWithForeignUser), c18V("Title", compile.PoWithTitle, "title"),
		c18B("UseCustomObsoletePrefix", compile.PoWithUseCustomObsoletePrefix), c18V("CustomObsoletePrefixRune", compile.PoWithCustomObsoletePrefixRune, '%'),
		c18B("NoColor", compile.PoWithNoColor), c18V("Highlight", compile.PoWithHighlight, c18Hl, c18Hl2, nil),
		c18Loggers(compile.PoWithLogger),
		{c18O("Config", "", func(e *c18Env) compile.PoOption {
			return compile.PoWithConfig(compile.PoConfig{Logger: e.l2, Verbose: true, MsgstrSuffix: "!", ForcePo: true, HeaderConfig: c18HC2})
		}, func(e *c18Env) any {
			return compile.PoConfig{Logger: e.l2, Verbose: true, MsgstrSuffix: "!", ForcePo: true, HeaderConfig: c18HC2}
		}), c18O("Config(applied)", "", func(e *c18Env) compile.PoOption {
			c := compile.DefaultPoConfig()
			c.ApplyOptions(compile.PoWithMsgstrPrefix("used before"))
			c.Logger, c.MsgstrPrefix = nil, "?"
			return compile.PoWithConfig(c)
		}, func(e *c18Env) any {
			return compile.PoConfig{PackageName: "PACKAGE NAME", AddLocation: compile.PoLocationModeFull, MsgstrPrefix: "?"}
		}),
			c18O("HeaderConfig", "HeaderConfig", func(e *c18Env) compile.PoOption {
				return func(c *compile.PoConfig) { c.HeaderConfig = c18HC }
			}, func(e *c18Env) any { return c18HC })},
	} {
		poc.opts = append(poc.opts, l...)
	}
	pocNew := func(file func() *po.File) func(*c18Env, ...compile.PoOption) c18Obj[compile.PoOption] {
		return func(e *c18Env, opts ...compile.PoOption) c18Obj[compile.PoOption] {
			c := compile.NewPo(file(), opts...)
			return c18Obj[compile.PoOption]{
				apply: c.Config.ApplyOptions, restore: c.Config.RestoreLastCfg, cfg: func() any { return c.Config },
				call: func(m int, with bool, opts ...compile.PoOption) string {
					e.log.Reset()
					var b bytes.Buffer
					bw := &badWriter{n: 40}
					s := ""
					toFile := func(path string) {
						if with {
							s = readBack(path, c.ToFileWithOptions(path, opts...))
						} else {
							s = readBack(path, c.ToFile(path))
						}
					}
					switch m {
					case 0:
						if with {
							s = fmt.Sprint(c.ToWriterWithOptions(&b, opts...))
						} else {
							s = fmt.Sprint(c.ToWriter(&b))
						}
					case 1:
						if with {
							s = fmt.Sprint(c.ToWriterWithOptions(bw, opts...))
						} else {
							s = fmt.Sprint(c.ToWriter(bw))
						}
					case 2:
						if with {
							s = c.ToStringWithOptions(opts...)
						} else {
							s = c.ToString()
						}
					case 3:
						if with {
							s = string(c.ToBytesWithOptions(opts...))
						} else {
							s = string(c.ToBytes())
						}
					case 4:
						os.Remove(e.path)
						toFile(e.path)
					case 5:
						os.WriteFile(e.path, []byte("old"), 0o600)
						toFile(e.path)
					case 6:
						toFile("/dev/null/x")
					}
					return s + "|" + b.String() + "|" + bw.b.String() + "|" + strings.ReplaceAll(e.log.String(), e.path, "PATH")
				},
			}
		}
	}
	poc.new = pocNew(c18File)
	poc.pick("MsgstrPrefix=<", "ForcePo=true", "Config", "Config(applied)")

	moc := c18Type[compile.MoOption]{name: "MO compiler", methods: []string{"writer", "failing writer", "bytes", "new file", "existing file", "impossible file"}, coreM: []int{0, 1, 4}}
	for _, l := range [][]c18Opt[compile.MoOption]{
		c18B("Force", compile.MoWithForce), c18B("Verbose", compile.MoWithVerbose), c18B("IgnoreErrors", compile.MoWithIgnoreErrors),
		c18V("Endianness", compile.MoWithEndianness, compile.LittleEndian, compile.BigEndian, compile.NativeEndian), c18B("HashTable", compile.MoWithHashTable),
		c18B("DepureEntries", compile.MoWithDepureEntries), c18B("SortEntries", compile.MoWithSortEntries), c18Loggers(compile.MoWithLogger),
		{c18O("Config", "", func(e *c18Env) compile.MoOption {
			return compile.MoWithConfig(compile.MoConfig{Logger: e.l2, Verbose: true, DepureEntries: true})
		}, func(e *c18Env) any { return compile.MoConfig{Logger: e.l2, Verbose: true, DepureEntries: true} }),
			c18O("Config(applied)", "", func(e *c18Env) compile.MoOption {
				c := compile.DefaultMoConfig()
				c.ApplyOptions(compile.MoWithHashTable(false))
				c.Endianness = compile.BigEndian
				return compile.MoWithConfig(c)
			}, func(e *c18Env) any {
				return compile.MoConfig{DepureEntries: true, SortEntries: true, Endianness: compile.BigEndian}
			})},
	} {
		moc.opts = append(moc.opts, l...)
	}
	mocNew := func(file func() *po.File) func(*c18Env, ...compile.MoOption) c18Obj[compile.MoOption] {
		return func(e *c18Env, opts ...compile.MoOption) c18Obj[compile.MoOption] {
			c := compile.NewMo(file(), opts...)
			return c18Obj[compile.MoOption]{
				apply: c.Config.ApplyOptions, restore: c.Config.RestoreLastCfg, cfg: func() any { return c.Config },
				call: func(m int, with bool, opts ...compile.MoOption) string {
					e.log.Reset()
					var b bytes.Buffer
					bw := &badWriter{n: 40}
					s := ""
					toFile := func(path string) {
						if with {
							s = readBack(path, c.ToFileWithOptions(path, opts...))
						} else {
							s = readBack(path, c.ToFile(path))
						}
					}
					switch m {
					case 0, 1:
						var w io.Writer = &b
						if m == 1 {
							w = bw
						}
						if with {
							s = fmt.Sprint(c.ToWriterWithOptions(w, opts...))
						} else {
							s = fmt.Sprint(c.ToWriter(w))
						}
					case 2:
						if with {
							s = string(c.ToBytesWithOptions(opts...))
						} else {
							s = string(c.ToBytes())
						}
					case 3:
						os.Remove(e.path)
						toFile(e.path)
					case 4:
						os.WriteFile(e.path, []byte("old"), 0o600)
						toFile(e.path)
					case 5:
						toFile("/dev/null/x")
					}
					return s + "|" + b.String() + "|" + bw.b.String() + "|" + strings.ReplaceAll(e.log.String(), e.path, "PATH")
				},
			}
		}
	}
	moc.new = mocNew(c18File)
	moc.pick("HashTable=false", "Force=true", "Config", "Config(applied)")

	texts := []string{
		"# c\n#. e\nmsgid \"\"\nmsgstr \"Language: es\\n\"\n\n# c\n#, fuzzy\nmsgid \"a\"\nmsgstr \"b\"\n\nmsgid \"a\"\nmsgstr \"dup\"\n\n#~ msgid \"o\"\n#~ msgstr \"p\"\n\n#% msgid \"q\"\n#% msgstr \"r\"\n",
		"msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"broken\nmsgstr \"x\"\n",
	}
	newPop := func(name string, ctor func(e *c18Env, opts ...parse.PoOption) *parse.PoParser) c18Type[parse.PoOption] {
		pop := c18Type[parse.PoOption]{name: name, methods: []string{"parse"}, coreM: []int{0}}
		for _, l := range [][]c18Opt[parse.PoOption]{
			c18B("IgnoreComments", parse.PoWithIgnoreComments), c18B("IgnoreAllComments", parse.PoWithIgnoreAllComments), c18B("Verbose", parse.PoWithVerbose),
			c18B("SkipHeader", parse.PoWithSkipHeader), c18B("CleanDuplicates", parse.PoWithCleanDuplicates), c18B("ParseObsoletes", parse.PoWithParseObsolete),
			c18B("UseCustomObsoletePrefix", parse.PoWithUseCustomObsoletePrefix), c18V("CustomObsoletePrefix", parse.PoWithCustomObsoletePrefix, '%'), c18Loggers(parse.PoWithLogger),
			{c18O("Config", "", func(e *c18Env) parse.PoOption {
				return parse.PoWithConfig(parse.PoConfig{Logger: e.l2, IgnoreComments: true})
			}, func(e *c18Env) any { return parse.PoConfig{Logger: e.l2, IgnoreComments: true} }),
				c18O("Config(applied)", "", func(e *c18Env) parse.PoOption {
					c := parse.DefaultPoConfig()
					c.ApplyOptions(parse.PoWithSkipHeader(true))
					c.CleanDuplicates = false
					return parse.PoWithConfig(c)
				}, func(e *c18Env) any { return parse.PoConfig{ParseObsoletes: true, SkipHeader: true} })},
		} {
			pop.opts = append(pop.opts, l...)
		}
		pop.new = func(e *c18Env, opts ...parse.PoOption) c18Obj[parse.PoOption] {
			p := ctor(e, opts...)
			return c18Obj[parse.PoOption]{
				apply: p.Config.ApplyOptions, restore: p.Config.RestoreLastCfg, cfg: func() any { return p.Config },
				call: func(m int, with bool, opts ...parse.PoOption) string {
					e.log.Reset()
					var f *po.File
					if with {
						f = p.ParseWithOptions(opts...)
					} else {
						f = p.Parse()
					}
					s := "nil"
					if f != nil {
						s = f.Name + dump(f.Entries)
					}
					return s + "|" + fmt.Sprint(p.Errors(), len(p.Warnings())) + "|" + strings.ReplaceAll(e.log.String(), e.path, "PATH")
				},
			}
		}
		pop.pick("CleanDuplicates=false", "SkipHeader=true", "Config", "Config(applied)")
		return pop
	}

	var mos [2][]byte
	mos[0] = compile.MoToBytes(ents{{Str: "Language: es\n"}, {ID: "b", Str: "1"}, {ID: "a", Str: "2"}}, compile.MoWithSortEntries(false), compile.MoWithEndianness(compile.BigEndian))
	mos[1] = compile.MoToBytes(ents{{ID: "b", Str: "1"}})
	mos[1] = mos[1][:len(mos[1])-3]
	newMop := func(name string, ctor func(e *c18Env, opts ...parse.MoOption) *parse.MoParser) c18Type[parse.MoOption] {
		mop := c18Type[parse.MoOption]{name: name, methods: []string{"parse"}, coreM: []int{0}}
		for _, l := range [][]c18Opt[parse.MoOption]{
			c18B("MustBeSorted", parse.MoWithMustBeSorted), c18V("Endianness", parse.MoWithEndianness, parse.LittleEndian, parse.BigEndian, parse.NativeEndian), c18Loggers(parse.MoWithLogger),
			{c18O("Config", "", func(e *c18Env) parse.MoOption {
				return parse.MoWithConfig(parse.MoConfig{Logger: e.l2, MustBeSorted: true})
			}, func(e *c18Env) any { return parse.MoConfig{Logger: e.l2, MustBeSorted: true} }),
				c18O("Config(applied)", "", func(e *c18Env) parse.MoOption {
					c := parse.DefaultMoConfig()
					c.ApplyOptions(parse.MoWithMustBeSorted(true))
					c.MustBeSorted, c.Endianness = false, parse.LittleEndian
					return parse.MoWithConfig(c)
				}, func(e *c18Env) any { return parse.MoConfig{Endianness: parse.LittleEndian} })},
		} {
			mop.opts = append(mop.opts, l...)
		}
		mop.new = func(e *c18Env, opts ...parse.MoOption) c18Obj[parse.MoOption] {
			p := ctor(e, opts...)
			return c18Obj[parse.MoOption]{
				apply: p.Config.ApplyOptions, restore: p.Config.RestoreLastCfg, cfg: func() any { return p.Config },
				call: func(m int, with bool, opts ...parse.MoOption) string {
					e.log.Reset()
					var f *po.File
					if with {
						f = p.ParseWithOptions(opts...)
					} else {
						f = p.Parse()
					}
					s := "nil"
					if f != nil {
						s = f.Name + dump(f.Entries)
					}
					return s + "|" + fmt.Sprint(p.Errors()) + "|" + strings.ReplaceAll(e.log.String(), e.path, "PATH")
				},
			}
		}
		mop.pick("Logger=L1", "MustBeSorted=true", "Config", "Config(applied)")
		return mop
	}

	newGop := func(name string, ctor func(e *c18Env, opts ...goparse.Option) *goparse.Parser) c18Type[goparse.Option] {
		gop := c18Type[goparse.Option]{name: name, methods: []string{"parse"}, coreM: []int{0}}
		for _, l := range [][]c18Opt[goparse.Option]{
			c18B("NoHeader", goparse.WithNoHeader), c18B("ExtractAll", goparse.WithExtractAll), c18B("Verbose", goparse.WithVerbose), c18B("CleanDuplicates", goparse.WithCleanDuplicates),
			c18V("HeaderConfig", goparse.WithHeaderConfig, c18HC, c18HC2, nil), c18V("CustomHeader", goparse.WithCustomHeader, c18H, nil), c18Loggers(goparse.WithLogger),
			{c18O("Exclude", "Exclude", func(e *c18Env) goparse.Option { return goparse.WithExclude("zz", "y") }, func(e *c18Env) any { return strs("zz", "y") }),
				c18O("Config", "", func(e *c18Env) goparse.Option {
					return goparse.WithConfig(goparse.Config{Logger: e.l2, Verbose: true, HeaderConfig: c18HC})
				}, func(e *c18Env) any { return goparse.Config{Logger: e.l2, Verbose: true, HeaderConfig: c18HC} }),
				c18O("Config(applied)", "", func(e *c18Env) goparse.Option {
					c := goparse.DefaultConfig()
					c.ApplyOptions(goparse.WithNoHeader(true))
					c.Logger, c.ExtractAll = nil, true
					return goparse.WithConfig(c)
				}, func(e *c18Env) any { return goparse.Config{CleanDuplicates: true, NoHeader: true, ExtractAll: true} })},
		} {
			gop.opts = append(gop.opts, l...)
		}
		gop.new = func(e *c18Env, opts ...goparse.Option) c18Obj[goparse.Option] {
			p := ctor(e, opts...)
			return c18Obj[goparse.Option]{
				apply: p.Config.ApplyOptions, restore: p.Config.RestoreLastCfg, cfg: func() any { return p.Config },
				call: func(m int, with bool, opts ...goparse.Option) string {
					e.log.Reset()
					var f *po.File
					if with {
						f = p.ParseWithOptions(opts...)
					} else {
						f = p.Parse()
					}
					s := "nil"
					if f != nil {
						s = f.Name + dump(normHeader(f.Entries))
					}
					return s + "|" + fmt.Sprint(p.Errors()) + "|" + strings.ReplaceAll(e.log.String(), e.path, "PATH")
				},
			}
		}
		gop.pick("NoHeader=true", "ExtractAll=true", "Config", "Config(applied)")
		return gop
	}
	src := "package x\n\nimport gotext \"github.com/leonelquinteros/gotext\"\n\nfunc f(v string) {\n\tgotext.Get(\"a\")\n\tgotext.Get(\"a\")\n\tgotext.GetC(\"b\", \"c\")\n\tgotext.Get(v)\n\tprintln(\"other\")\n}\n"
	src2 := strings.ReplaceAll(src, "\"a\"", "\"z\"")
	file := func(name, text string) string {
		path := filepath.Join(dir, name)
		if err := os.WriteFile(path, []byte(text), 0o600); err != nil {
			panic(err)
		}
		return path
	}
	open := func(path string) *os.File {
		f, err := os.Open(path)
		if err != nil {
			panic(err)
		}
		return f
	}
	os.MkdirAll(filepath.Join(dir, "go"), 0o755)
	moNone := append([]byte{0xde, 0x12, 0x04, 0x95}, make([]byte, 24)...) // no messages
	moNone[12], moNone[16], moNone[24] = 28, 28, 28
	poPath, moPath, goPath, goPath2 := file("in.po", texts[0]), file("in.mo", string(mos[0])), file("go/x.go", src), file("go/y.go", src2)
	// what a constructor gives, its error aside: none of them may fail
	pocNone := poc
	pocNone.name, pocNone.new = "PO compiler (no messages)", pocNew(func() *po.File { return &po.File{Name: "none.po"} })
	mocNone := moc
	mocNone.name, mocNone.new = "MO compiler (no messages)", mocNew(func() *po.File { return &po.File{Name: "none.po"} })
	return []any{poc, moc, pocNone, mocNone,
		newPop("PO parser", func(e *c18Env, opts ...parse.PoOption) *parse.PoParser {
			return parse.NewPoFromString(texts[0], "in.po", opts...)
		}),
		newPop("PO parser (malformed)", func(e *c18Env, opts ...parse.PoOption) *parse.PoParser {
			return parse.NewPoFromBytes([]byte(texts[1]), "in.po", opts...)
		}),
		newPop("PO parser (reader)", func(e *c18Env, opts ...parse.PoOption) *parse.PoParser {
			return must(parse.NewPoFromReader(strings.NewReader(texts[0]), "in.po", opts...))
		}),
		newPop("PO parser (path)", func(e *c18Env, opts ...parse.PoOption) *parse.PoParser {
			return must(parse.NewPo(poPath, opts...))
		}),
		newPop("PO parser (file)", func(e *c18Env, opts ...parse.PoOption) *parse.PoParser {
			f := open(poPath)
			defer f.Close()
			return must(parse.NewPoFromFile(f, opts...))
		}),
		newMop("MO parser", func(e *c18Env, opts ...parse.MoOption) *parse.MoParser {
			return parse.NewMoFromBytes(mos[0], "in.mo", opts...)
		}),
		newMop("MO parser (malformed)", func(e *c18Env, opts ...parse.MoOption) *parse.MoParser {
			return must(parse.NewMoFromReader(bytes.NewReader(mos[1]), "in.mo", opts...))
		}),
		newMop("MO parser (path)", func(e *c18Env, opts ...parse.MoOption) *parse.MoParser {
			return must(parse.NewMo(moPath, opts...))
		}),
		newMop("MO parser (file)", func(e *c18Env, opts ...parse.MoOption) *parse.MoParser {
			f := open(moPath)
			defer f.Close()
			return must(parse.NewMoFromFile(f, opts...))
		}),
		newPop("PO parser (nothing)", func(e *c18Env, opts ...parse.PoOption) *parse.PoParser {
			return parse.NewPoFromString("# nothing\n", "in.po", opts...)
		}),
		newMop("MO parser (nothing)", func(e *c18Env, opts ...parse.MoOption) *parse.MoParser {
			return parse.NewMoFromBytes(moNone, "in.mo", opts...)
		}),
		newGop("Go parser (nothing)", func(e *c18Env, opts ...goparse.Option) *goparse.Parser {
			return must(goparse.NewParserFromString("package x\n", "x.go", opts...))
		}),
		newGop("Go parser", func(e *c18Env, opts ...goparse.Option) *goparse.Parser {
			return must(goparse.NewParserFromString(src, "x.go", opts...))
		}),
		newGop("Go parser (bytes)", func(e *c18Env, opts ...goparse.Option) *goparse.Parser {
			return must(goparse.NewParserFromBytes([]byte(src), "x.go", opts...))
		}),
		newGop("Go parser (reader)", func(e *c18Env, opts ...goparse.Option) *goparse.Parser {
			return must(goparse.NewParserFromReader(strings.NewReader(src), "x.go", opts...))
		}),
		newGop("Go parser (path)", func(e *c18Env, opts ...goparse.Option) *goparse.Parser {
			return must(goparse.NewParser(goPath, opts...))
		}),
		newGop("Go parser (paths)", func(e *c18Env, opts ...goparse.Option) *goparse.Parser {
			return must(goparse.NewParserFromPaths([]string{goPath2, filepath.Dir(goPath)}, opts...))
		}),
		newGop("Go parser (file)", func(e *c18Env, opts ...goparse.Option) *goparse.Parser {
			f := open(goPath)
			defer f.Close()
			return must(goparse.NewParserFromFile(f, opts...))
		}),
		newGop("Go parser (files)", func(e *c18Env, opts ...goparse.Option) *goparse.Parser {
			f, g := open(goPath), open(goPath2)
			defer f.Close()
			defer g.Close()
			return must(goparse.NewParserFromFiles([]*os.File{g, f}, opts...))
		}),
	}
}

func must[T any](x T, err error) T {
	if err != nil {
		panic(err)
	}
	return x
}

func (t *c18Type[O]) pick(names ...string) {
	for _, n := range names {
		found := false
		for i, o := range t.opts {
			if o.name == n {
				t.core = append(t.core, i)
				found = true
			}
		}
		if !found {
			panic(t.name + ": no option " + n)
		}
	}
}

func (t c18Type[O]) names(l []int) string {
	var s []string
	for _, i := range l {
		s = append(s, t.opts[i].name)
	}
	return "{" + strings.Join(s, ",") + "}"
}

func (t c18Type[O]) mk(e *c18Env, l []int) []O {
	var out []O
	for _, i := range l {
		out = append(out, t.opts[i].make(e))
	}
	return out
}

// expectCfg computes the configuration after the options from the table.
func (t c18Type[O]) expectCfg(e *c18Env, def any, l []int) string {
	v := reflect.New(reflect.TypeOf(def)).Elem()
	v.Set(reflect.ValueOf(def))
	for _, i := range l {
		o := t.opts[i]
		x := reflect.ValueOf(o.value(e))
		if o.field == "" {
			v.Set(x)
			continue
		}
		f := v.FieldByName(o.field)
		if !x.IsValid() {
			x = reflect.Zero(f.Type())
		}
		f.Set(x)
	}
	return e.show(v.Interface())
}

// c18Fresh is what a method gives on a fresh object constructed with the options; results are kept, as objects are deterministic.
type c18Cache struct {
	mu sync.Mutex
	m  map[string]string
}

func (t c18Type[O]) fresh(c *c18Cache, path string, m int, l []int) string {
	key := fmt.Sprint(m, l)
	c.mu.Lock()
	s, ok := c.m[key]
	c.mu.Unlock()
	if ok {
		return s
	}
	e := newC18Env(path)
	o := t.new(e, t.mk(e, l)...)
	s = o.call(m, false)
	c.mu.Lock()
	c.m[key] = s
	c.mu.Unlock()
	return s
}

func runC18(r *Run) {
	dir := filepath.Join(r.Scratch, "c18")
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	path := func(w *W) string {
		return filepath.Join(dir, fmt.Sprintf("w%d.out", w.ID()))
	}
	for _, t := range c18Types(dir) {
		switch t := t.(type) {
		case c18Type[compile.PoOption]:
			c18Run(r, t, path)
		case c18Type[compile.MoOption]:
			c18Run(r, t, path)
		case c18Type[parse.PoOption]:
			c18Run(r, t, path)
		case c18Type[parse.MoOption]:
			c18Run(r, t, path)
		case c18Type[goparse.Option]:
			c18Run(r, t, path)
		}
	}
}

func cat(a, b []int) []int { return append(append([]int{}, a...), b...) }

func c18Run[O any](r *Run, t c18Type[O], path func(*W) string) {
	n, nm := len(t.opts), len(t.methods)
	max := 2
	if r.Thorough {
		max = 3
	}
	cache := &c18Cache{m: map[string]string{}}
	check := func(w *W, e *c18Env, o c18Obj[O], def any, stack [][]int, why string) error {
		var all []int
		for _, l := range stack {
			all = cat(all, l)
		}
		if got, want := e.show(o.cfg()), t.expectCfg(e, def, all); got != want {
			return failf("config", "%s: after %s the configuration is\n%s\nexpected\n%s", t.name, why, got, want)
		}
		return nil
	}
	// Every set of options, base and temporary, every method.
	r.Space(t.name+" options", "every list of temporary options up to the bound after every list of one option at construction, every method, followed by the plain method", prod(n+1, int(seqCount(n, max)), nm), func(w *W, i int64) error {
		d := Dec{i}
		m := d.N(nm)
		b := d.N(n + 1)
		var base []int
		if b < n {
			base = []int{b}
		}
		tmp := seqAt(n, d.i)
		if r.Thorough && len(tmp) == 3 && m != i0(t.coreM) {
			return nil
		}
		w.Desc("%s base %s temporary %s method %s", t.name, t.names(base), t.names(tmp), t.methods[m])
		w.State(w.desc)
		w.Trace()
		e := newC18Env(path(w))
		def := t.new(e).cfg()
		o := t.new(e, t.mk(e, base)...)
		if err := check(w, e, o, def, [][]int{base}, "construction"); err != nil {
			return err
		}
		opts := t.mk(e, tmp)
		got := o.call(m, true, opts...)
		w.Trans(2)
		if want := t.fresh(cache, e.path, m, cat(base, tmp)); got != want {
			return failf("with", "%s with temporary options %s on top of %s gives something else than with the options at construction: %s", t.methods[m], t.names(tmp), t.names(base), firstDiff(got, want))
		}
		if err := check(w, e, o, def, [][]int{base}, "a call with temporary options"); err != nil {
			return err
		}
		got = o.call(m, false)
		if want := t.fresh(cache, e.path, m, base); got != want {
			return failf("after", "%s after a call with temporary options %s gives something else than before: %s", t.methods[m], t.names(tmp), firstDiff(got, want))
		}
		o.restore()
		return check(w, e, o, def, [][]int{base}, "restoring without a previous apply")
	})
	// Histories: apply, restore, call with, call plainly.
	sets := [][]int{{}, {t.core[0]}, {t.core[2]}, {t.core[3]}, {t.core[0], t.core[1]}}
	ns, cm := len(sets), len(t.coreM)
	ops := ns + 1 + cm*(ns+1)
	depth := 4
	if ops > 15 {
		depth = 3
	}
	if r.Thorough {
		depth++
	}
	r.Space(t.name+" histories", "all histories of applying options, restoring, calls with temporary options and plain calls up to the bound, compared with a stack of option lists", seqCount(ops, depth), func(w *W, i int64) error {
		h := seqAt(ops, i)
		e := newC18Env(path(w))
		def := t.new(e).cfg()
		base := []int{t.core[1]}
		o := t.new(e, t.mk(e, base)...)
		stack := [][]int{base}
		var why strings.Builder
		all := func() []int {
			var l []int
			for _, s := range stack {
				l = cat(l, s)
			}
			return l
		}
		w.Trace()
		for _, op := range h {
			w.Trans(1)
			switch {
			case op < ns:
				fmt.Fprintf(&why, "apply%s ", t.names(sets[op]))
				o.apply(t.mk(e, sets[op])...)
				stack = append(stack, sets[op])
			case op == ns:
				why.WriteString("restore ")
				o.restore()
				if len(stack) > 1 {
					stack = stack[:len(stack)-1]
				}
			default:
				d := Dec{int64(op - ns - 1)}
				m := t.coreM[d.N(cm)]
				s := d.N(ns + 1)
				var tmp []int
				var got string
				if s < ns {
					tmp = sets[s]
					fmt.Fprintf(&why, "%s%s ", t.methods[m], t.names(tmp))
					got = o.call(m, true, t.mk(e, tmp)...)
				} else {
					fmt.Fprintf(&why, "%s ", t.methods[m])
					got = o.call(m, false)
				}
				w.Desc("%s: %s", t.name, why.String())
				if want := t.fresh(cache, e.path, m, cat(all(), tmp)); got != want {
					return failf("history", "%s: after %s the last call gives something else than a fresh object with these options: %s", t.name, why.String(), firstDiff(got, want))
				}
			}
			w.Desc("%s: %s", t.name, why.String())
			w.State(fmt.Sprint(t.name, stack))
			if err := check(w, e, o, def, stack, why.String()); err != nil {
				return err
			}
		}
		for k := 0; k < 2 || len(stack) > 1; k++ {
			o.restore()
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			why.WriteString("restore ")
			if err := check(w, e, o, def, stack, why.String()); err != nil {
				return err
			}
		}
		return nil
	})
}

func i0(l []int) int { return l[0] }
