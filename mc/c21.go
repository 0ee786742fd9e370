// C21: a failed write is reported and existing files are not overwritten unasked.
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	props["C21"] = propDef{
		level: "fault_enumeration",
		rule:  "a case is one output (catalog, format, options) with one fault: the byte at which the stream fails and the way it fails, the size at which the file system refuses to write, or the state of the output path; two cases are different if any of these differ",
		notes: []string{
			"an output stream that has failed once may accept later writes; nothing may be sent to it then, as that would leave a gap",
			"oracle: the complete output of the same compiler on a sound stream; a model of the file system for histories",
		},
		run: runC21,
	}
	children["fsize"] = c21Child
}

// faultWriter fails at byte at in the given way.
type faultWriter struct {
	b      bytes.Buffer
	at     int
	mode   int
	failed int
	after  int // bytes accepted after the failure
}

var faultModes = []string{"accepts the bytes before", "accepts nothing of the failing call", "short write without error", "fails once, then works", "accepts all and reports an error"}

func (f *faultWriter) Write(p []byte) (int, error) {
	if f.failed > 0 {
		if f.mode == 3 || f.mode == 2 {
			f.after += len(p)
			f.b.Write(p)
			return len(p), nil
		}
		f.failed++
		return 0, errFault
	}
	if f.b.Len()+len(p) <= f.at {
		return f.b.Write(p)
	}
	f.failed = 1
	k := f.at - f.b.Len()
	switch f.mode {
	case 1:
		return 0, errFault
	case 2:
		f.b.Write(p[:k])
		return k, nil
	case 4:
		f.b.Write(p)
		return len(p), errFault
	}
	f.b.Write(p[:k])
	return k, errFault
}

// c21Out is one output: how to write it, plainly or ignoring errors.
type c21Out struct {
	name   string
	writer func(w io.Writer, ignore bool) error
	file   func(path string, force, ignore bool) error
	check  func(w *W, full []byte) error
}

func c21Outs(cats []ents) []c21Out {
	var out []c21Out
	for ci, cat := range cats {
		f := &po.File{Name: "f.po", Entries: cat}
		for oi, o := range []c19Opt{{loc: "full"}, {loc: "full", wrap: true, fuzzy: true, manage: true, comments: true, fields: true}, {omit: true, noLoc: true}} {
			opts := o.opts()
			if oi == 2 {
				opts = append(opts, compile.PoWithHighlight(compile.TestHighlight))
			}
			opts = opts[:len(opts):len(opts)] // appended to by several workers
			check := func(w *W, full []byte) error { return c19Check(w, refDedupe(clone(cat)), o) }
			if oi == 2 {
				check = nil
			}
			out = append(out, c21Out{
				fmt.Sprintf("PO %d/%d", ci, oi),
				func(w io.Writer, ignore bool) error {
					return compile.PoToWriter(f, w, append(opts, compile.PoWithIgnoreErrors(ignore))...)
				},
				func(path string, force, ignore bool) error {
					return compile.PoToFile(f, path, append(opts, compile.PoWithIgnoreErrors(ignore), compile.PoWithForcePo(force))...)
				},
				check,
			})
		}
		for _, hash := range []bool{true, false} {
			opts := []compile.MoOption{compile.MoWithHashTable(hash)}
			if !hash {
				opts = append(opts, compile.MoWithEndianness(compile.BigEndian))
			}
			opts = opts[:len(opts):len(opts)] // appended to by several workers
			out = append(out, c21Out{
				fmt.Sprintf("MO %d hash %v", ci, hash),
				func(w io.Writer, ignore bool) error {
					return compile.MoToWriter(f, w, append(opts, compile.MoWithIgnoreErrors(ignore))...)
				},
				func(path string, force, ignore bool) error {
					return compile.MoToFile(f, path, append(opts, compile.MoWithIgnoreErrors(ignore), compile.MoWithForce(force))...)
				},
				func(w *W, full []byte) error {
					f, err := parse.MoFromBytes(full, "x.mo")
					if err != nil {
						return failf("complete", "%v", err)
					}
					return sameEntries("complete", "the complete MO output", f.Entries, moImage(cat, true, true))
				},
			})
		}
	}
	return out
}

func c21Cats(thorough bool) []ents {
	pool := c19Pool()
	var big ents
	for k := 0; k < 40; k++ {
		e := cloneE(pool[2+k%8])
		e.ID += fmt.Sprintf(" %03d", k)
		e.Str = strings.Repeat(e.Str, 20)
		big = append(big, e)
	}
	cats := []ents{{}, {pool[0]}, pool, big}
	if thorough {
		huge := clone(big)
		huge[3].Str = strings.Repeat("x", 9000)
		huge[20].ID = strings.Repeat("y\n", 2500)
		cats = append(cats, huge)
	}
	return cats
}

func runC21(r *Run) {
	outs := c21Outs(c21Cats(r.Thorough))
	var full [][]byte
	var total []int64
	var n int64
	for _, o := range outs {
		var b bytes.Buffer
		if err := o.writer(&b, false); err != nil {
			r.Space("reference", "output on a sound stream", 1, func(w *W, i int64) error {
				return failf("sound", "%s reports %v on a sound stream", o.name, err)
			})
			return
		}
		full = append(full, b.Bytes())
		total = append(total, n)
		n += int64(b.Len()) + 2
	}
	// The complete outputs serve as the oracle below, so they are checked first.
	cats := c21Cats(r.Thorough)
	r.Space("complete", "every output on a sound stream says what the catalog and the options say", int64(len(outs)), func(w *W, i int64) error {
		w.Desc("%s", outs[i].name)
		w.State(w.desc)
		if outs[i].check == nil {
			if len(full[i]) == 0 && len(cats[i/int64(len(outs)/len(cats))]) > 1 {
				return failf("empty", "%s writes nothing without an error", outs[i].name)
			}
			return nil
		}
		return outs[i].check(w, full[i])
	})
	locate := func(i int64) (k, at int) {
		k = len(total) - 1
		for total[k] > i {
			k--
		}
		return k, int(i - total[k])
	}
	r.Space("streams", "every output failing at every byte in every way, with and without ignoring errors", n, func(w *W, i int64) error {
		k, at := locate(i)
		o := outs[k]
		for mode := range faultModes {
			for _, ignore := range []bool{false, true} {
				w.Desc("%s, stream fails at byte %d of %d (%s), ignoring errors %v", o.name, at, len(full[k]), faultModes[mode], ignore)
				w.State(w.desc)
				w.Trans(1)
				fw := &faultWriter{at: at, mode: mode}
				err := o.writer(fw, ignore)
				got := fw.b.Bytes()
				if !bytes.HasPrefix(full[k], got) {
					return failf("prefix", "%s: what was written is no prefix of the output (%d bytes after the failure): %s", w.desc, fw.after, firstDiff(string(got), string(full[k])))
				}
				switch {
				case fw.failed > 0 && err == nil && !ignore:
					return failf("unreported", "%s: no error, %d of %d bytes written", w.desc, len(got), len(full[k]))
				case fw.failed == 0 && err != nil:
					return failf("spurious", "%s: the stream did not fail, but the compiler reports %v", w.desc, err)
				case fw.failed == 0 && len(got) != len(full[k]):
					return failf("incomplete", "%s: no failure, but only %d of %d bytes written", w.desc, len(got), len(full[k]))
				}
				if fw.failed > 0 {
					w.Outcome("failed")
				} else {
					w.Outcome("complete")
				}
			}
		}
		return nil
	})

	// The same compiler object after a failure.
	r.Space("reuse", "a compiler used again after a stream failed at every byte", n, func(w *W, i int64) error {
		k, at := locate(i)
		o := outs[k]
		w.Desc("%s, first stream fails at byte %d, second is sound", o.name, at)
		w.State(w.desc)
		o.writer(&faultWriter{at: at}, false)
		var b bytes.Buffer
		w.Trans(2)
		if err := o.writer(&b, false); err != nil || !bytes.Equal(b.Bytes(), full[k]) {
			return failf("reuse", "the next output differs or fails: %v", err)
		}
		return nil
	})

	// File system states and histories.
	dir := filepath.Join(r.Scratch, "c21")
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	small := []int{0, 3, 5, 7, 8} // outputs used in histories
	states := []string{"absent", "empty", "short", "long", "directory", "dangling link", "link to file", "no parent", "parent is a file", "bad name"}
	steps := len(small) * 4
	depth := 2
	if r.Thorough {
		depth = 3
	}
	r.Space("paths", "all histories up to the bound of compiling to one path in every initial state, with and without force and ignoring errors", prod(len(states), int(seqCount(steps, depth))), func(w *W, i int64) error {
		d := &Dec{i}
		st := d.N(len(states))
		h := seqAt(steps, d.i)
		top := filepath.Join(dir, fmt.Sprintf("%d", w.ID()))
		os.RemoveAll(top)
		if err := os.Mkdir(top, 0o755); err != nil {
			return failf("env", "%v", err)
		}
		path := filepath.Join(top, "out")
		other := filepath.Join(top, "other")
		long := strings.Repeat("old content\n", 3000)
		os.WriteFile(other, []byte("other"), 0o644)
		content, exists, can, made := "", true, true, false
		switch states[st] {
		case "absent":
			exists = false
		case "empty":
			os.WriteFile(path, nil, 0o644)
		case "short":
			content = "old"
			os.WriteFile(path, []byte(content), 0o644)
		case "long":
			content = long
			os.WriteFile(path, []byte(content), 0o644)
		case "directory":
			os.Mkdir(path, 0o755)
			can = false
		case "dangling link":
			os.Symlink(filepath.Join(top, "nothing"), path)
		case "link to file":
			os.Symlink(other, path)
			content = "other"
		case "no parent":
			path, can = filepath.Join(top, "nodir", "out"), false
		case "parent is a file":
			path, can = filepath.Join(other, "out"), false
		case "bad name":
			path, can = top+"/a\x00b", false
		}
		why := states[st]
		for _, s := range h {
			sd := &Dec{int64(s)}
			k := small[sd.N(len(small))]
			force, ignore := sd.B(), sd.B()
			why += fmt.Sprintf("; %s force=%v ignore=%v", outs[k].name, force, ignore)
			w.Desc("%s", why)
			w.State(why)
			w.Trans(1)
			err := outs[k].file(path, force, ignore)
			ok := can && (force || !exists)
			if ok {
				content, exists, made = string(full[k]), true, true
			}
			if ok && err != nil {
				return failf("refused", "%s: reports %v", why, err)
			}
			if !ok && err == nil && !ignore {
				return failf("unreported", "%s: the output cannot be written, but no error is reported", why)
			}
			if can && exists && states[st] != "dangling link" {
				b, err := os.ReadFile(path)
				if err != nil {
					return failf("lost", "%s: the file cannot be read afterwards: %v", why, err)
				}
				if string(b) != content {
					return failf("content", "%s: the file holds something else: %s", why, firstDiff(string(b), content))
				}
			}
			if states[st] == "dangling link" {
				b, err := os.ReadFile(path)
				if !made && err == nil {
					return failf("content", "%s: a file was created behind the link", why)
				}
				if made && string(b) != content {
					return failf("content", "%s: the file holds something else: %s", why, firstDiff(string(b), content))
				}
			}
			if states[st] != "link to file" {
				if b, _ := os.ReadFile(other); string(b) != "other" {
					return failf("other", "%s: another file was changed", why)
				}
			}
			var names []string
			es, _ := os.ReadDir(top)
			for _, e := range es {
				names = append(names, e.Name())
			}
			for _, nm := range names {
				if nm != "out" && nm != "other" && !(nm == "nothing" && made) {
					return failf("litter", "%s: leaves %v behind", why, names)
				}
			}
		}
		return nil
	})

	// Files that can hold only so many bytes, and /dev/full.
	r.Space("file size", "every output to a file that can grow to only so many bytes, every size (in a process of its own), and to /dev/full", int64(len(outs)), func(w *W, i int64) error {
		o := outs[i]
		w.Desc("%s (%d bytes) to files of limited size", o.name, len(full[i]))
		tier := "quick"
		if r.Thorough {
			tier = "thorough"
		}
		self, err := os.Executable()
		if err != nil {
			return failf("env", "%v", err)
		}
		cmd := exec.Command(self, "child", "fsize", tier, fmt.Sprint(i), filepath.Join(dir, fmt.Sprintf("lim%d", i)))
		outb, err := cmd.CombinedOutput()
		if err != nil {
			return failf("file-size", "%s: %v: %s", w.desc, err, outb)
		}
		for k := 0; k <= len(full[i]); k++ {
			w.State(fmt.Sprintf("%s fsize %d", o.name, k))
		}
		w.Trans(2 * len(full[i]))
		// through a link, lest code that replaces its output touches the device itself
		fullLink := func() string {
			l := filepath.Join(dir, fmt.Sprintf("full%d", i))
			os.Remove(l)
			os.Symlink("/dev/full", l)
			return l
		}
		if len(full[i]) > 0 {
			if err := o.file(fullLink(), true, false); err == nil {
				return failf("full", "%s: writing to a full device reports no error", o.name)
			}
		}
		if err := o.file(fullLink(), true, true); err != nil {
			return failf("ignore", "%s: told to ignore errors, but reports %v", o.name, err)
		}
		if err := o.file(fullLink(), false, false); err == nil {
			return failf("exists", "%s: existing path without force reports no error", o.name)
		}
		return nil
	})
}

// c21Child writes one output to a file of limited size, for every limit.
func c21Child(args []string) error {
	signal.Ignore(syscall.SIGXFSZ)
	outs := c21Outs(c21Cats(args[0] == "thorough"))
	var k int
	fmt.Sscan(args[1], &k)
	path := args[2]
	o := outs[k]
	var ref bytes.Buffer
	if err := o.writer(&ref, false); err != nil {
		return err
	}
	full := ref.Bytes()
	var lim syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		return err
	}
	for at := 0; at <= len(full); at++ {
		for _, ignore := range []bool{false, true} {
			force := at%2 == 1
			os.Remove(path)
			if force {
				if err := os.WriteFile(path, bytes.Repeat([]byte("z"), at/2), 0o600); err != nil {
					return err
				}
			}
			l := lim
			l.Cur = uint64(at)
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
				return err
			}
			err := o.file(path, force, ignore)
			if e := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); e != nil {
				return e
			}
			got, rerr := os.ReadFile(path)
			if rerr != nil {
				return rerr
			}
			if !bytes.HasPrefix(full, got) {
				return fmt.Errorf("limit %d: the file holds no prefix of the output: %s", at, firstDiff(string(got), string(full)))
			}
			if at < len(full) && err == nil && !ignore {
				return fmt.Errorf("limit %d: no error, but only %d of %d bytes written", at, len(got), len(full))
			}
			if at >= len(full) && (err != nil || len(got) != len(full)) {
				return fmt.Errorf("limit %d suffices, but: %v, %d of %d bytes", at, err, len(got), len(full))
			}
		}
	}
	return os.Remove(path)
}
