// Shared helpers: canonical text of catalogs, deep copies, comparison.
package main

import (
	"fmt"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

type (
	ent  = po.Entry
	ents = po.Entries
	loc  = po.Location
	locs = po.Locations
	pe   = po.PluralEntry
	pes  = po.PluralEntries
)

func strs(s ...string) []string { return s }

func dumpStrs(b *strings.Builder, name string, l []string) {
	if len(l) == 0 {
		return
	}
	b.WriteString(" " + name + "=[")
	for i, s := range l {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.Quote(s))
	}
	b.WriteByte(']')
}

// dumpE is the canonical text of an entry: every exported field, nil and empty lists alike.
func dumpE(e ent) string {
	var b strings.Builder
	b.WriteByte('{')
	if e.Obsolete {
		b.WriteString("~")
	}
	if e.Context != "" {
		b.WriteString(strconv.Quote(e.Context) + "|")
	}
	b.WriteString(strconv.Quote(e.ID))
	if e.Plural != "" {
		b.WriteString(" plural=" + strconv.Quote(e.Plural))
	}
	if e.Str != "" || len(e.Plurals) == 0 {
		b.WriteString(" str=" + strconv.Quote(e.Str))
	}
	for _, p := range e.Plurals {
		fmt.Fprintf(&b, " [%d]=%s", p.ID, strconv.Quote(p.Str))
	}
	dumpStrs(&b, "flags", e.Flags)
	dumpStrs(&b, "#", e.Comments)
	dumpStrs(&b, "#.", e.ExtractedComments)
	dumpStrs(&b, "#|", e.Previous)
	if len(e.Locations) > 0 {
		b.WriteString(" refs=")
		for _, l := range e.Locations {
			fmt.Fprintf(&b, "%s:%d;", strconv.Quote(l.File), l.Line)
		}
	}
	b.WriteByte('}')
	return b.String()
}

func dump(es ents) string {
	var b strings.Builder
	for i, e := range es {
		if i > 0 {
			b.WriteByte('\n')
		}
		b.WriteString(dumpE(e))
	}
	return b.String()
}

func cloneStrs(s []string) []string {
	if s == nil {
		return nil
	}
	return append([]string{}, s...)
}

func cloneE(e ent) ent {
	e.Flags = cloneStrs(e.Flags)
	e.Comments = cloneStrs(e.Comments)
	e.ExtractedComments = cloneStrs(e.ExtractedComments)
	e.Previous = cloneStrs(e.Previous)
	if e.Plurals != nil {
		e.Plurals = append(pes{}, e.Plurals...)
	}
	if e.Locations != nil {
		e.Locations = append(locs{}, e.Locations...)
	}
	return e
}

func clone(es ents) ents {
	if es == nil {
		return nil
	}
	out := make(ents, len(es))
	for i, e := range es {
		out[i] = cloneE(e)
	}
	return out
}

// sameEntries compares two catalogs field by field.
func sameEntries(key, what string, got, want ents) error {
	if g, w := dump(got), dump(want); g != w {
		return failf(key, "%s\n got:\n%s\n want:\n%s", what, g, w)
	}
	return nil
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 40
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 60
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return strconv.Quote(s[lo:hi])
	}
	return fmt.Sprintf("lengths %d/%d, first difference at byte %d: %s / %s", len(a), len(b), i, cut(a), cut(b))
}

// writePo compiles with the given options and checks that no error is reported.
func writePo(es ents, opts ...compile.PoOption) (string, error) {
	var b strings.Builder
	if err := compile.PoToWriter(es, &b, opts...); err != nil {
		return "", failf("write-error", "PO compiler reported %v", err)
	}
	return b.String(), nil
}

// readPo parses text and requires that no error is reported.
func readPo(text string, opts ...parse.PoOption) (ents, error) {
	p := parse.NewPoFromString(text, "in.po", opts...)
	f := p.Parse()
	if errs := p.Errors(); len(errs) > 0 {
		return nil, failf("read-error", "PO parser reported %v on:\n%s", errs[0], text)
	}
	if f == nil {
		return nil, failf("read-nil", "PO parser returned nil without error on:\n%s", text)
	}
	return f.Entries, nil
}

// uid is the identity of a message (context and id).
func uid(e ent) [2]string { return [2]string{e.Context, e.ID} }

func isHeader(e ent) bool { return e.ID == "" && e.Context == "" }

func isFuzzy(e ent) bool {
	for _, f := range e.Flags {
		if f == "fuzzy" {
			return true
		}
	}
	return false
}

func isPlural(e ent) bool { return e.Plural != "" || len(e.Plurals) > 0 }

type int64Counter struct{ n atomic.Int64 }

func (c *int64Counter) add() { c.n.Add(1) }

// reversed returns a copy in the opposite order.
func reversed[T any](l []T) []T {
	out := make([]T, len(l))
	for i, x := range l {
		out[len(l)-1-i] = x
	}
	return out
}
