// C20, continued: which outputs of the tools are coloured.
package main

import (
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"unsafe"
)

func ioctl(f *os.File, req, arg uintptr) (uintptr, error) {
	n, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, arg)
	if e != 0 {
		return 0, e
	}
	return n, nil
}

// openPty makes a pseudo terminal that passes bytes through unchanged.
func openPty() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var zero int32
	if _, err = ioctl(master, syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); err == nil {
		const TIOCGPTPEER = 0x5441
		fd, e := ioctl(master, TIOCGPTPEER, syscall.O_RDWR|syscall.O_NOCTTY)
		if err = e; err == nil {
			slave = os.NewFile(fd, "pty")
			var t syscall.Termios
			if _, err = ioctl(slave, syscall.TCGETS, uintptr(unsafe.Pointer(&t))); err == nil {
				t.Oflag &^= syscall.OPOST
				t.Lflag &^= syscall.ECHO | syscall.ICANON | syscall.ISIG
				_, err = ioctl(slave, syscall.TCSETS, uintptr(unsafe.Pointer(&t)))
			}
		}
	}
	if err != nil {
		master.Close()
		if slave != nil {
			slave.Close()
		}
		return nil, nil, err
	}
	return master, slave, nil
}

// readPty collects what is written to the terminal until all its writers are gone.
func readPty(m *os.File) <-chan string {
	c := make(chan string, 1)
	go func() {
		b, _ := io.ReadAll(m) // ends with EIO
		c <- string(b)
	}()
	return c
}

func runC20Term(r *Run) {
	m, s, err := openPty()
	if err == nil {
		m.Close()
		s.Close()
	}
	type tool struct {
		name string
		args []string
		outs [][]string // ways to choose the output; the last of the arguments is the file
	}
	po1 := "# title\nmsgid \"\"\nmsgstr \"Language: es\\n\"\n\n#: a.go:1\n#, fuzzy\nmsgid \"one\"\nmsgstr \"uno %s\\n\"\n\n#~ msgid \"gone\"\n#~ msgstr \"G\"\n"
	po2 := "msgid \"two\"\nmsgstr \"dos\"\n\nmsgid \"one\"\nmsgstr \"\"\n"
	mo, _ := moText(ents{{Str: "Language: es\n"}, {ID: "b", Str: "x\ny"}}, 0, true)
	src := "package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nfunc f() { gotext.Get(\"one\") }\n"
	files := tree{"a.po": po1, "b.po": po2, "a.mo": mo, "a.go": src, "d/": ""}
	tools := []tool{
		{"msgocat", strs("a.po", "b.po"), [][]string{nil, strs("-o", "-"), strs("-o", "out"), strs("--output-file=out2", "out2")}},
		{"msgomerge", strs("a.po", "b.po"), [][]string{nil, strs("-o", "-"), strs("-o", "out"), strs("-U", "a.po")}},
		{"msgounfmt", strs("a.mo"), [][]string{nil, strs("-o", "-"), strs("-o", "out")}},
		{"xgotext", strs("a.go"), [][]string{nil, strs("-o", "-"), strs("-o", "out"), strs("-o", "out", "-p", "d", "d/out"), strs("--output=", "-d", "dom", "dom.pot"), strs("--output=", "-p", "d", "d/messages.pot")}},
	}
	when := strs("", "auto", "never", "always")
	envs := []struct {
		env    []string
		colour bool
	}{
		{strs("TERM=xterm-256color", "COLORTERM=truecolor"), true},
		{strs("TERM=dumb"), false},
		{strs("TERM=dumb", "FORCE_COLOR=1"), true},
	}
	n := 0
	for _, t := range tools {
		n += len(t.outs)
	}
	r.Space("terminals", "every tool that writes PO, to standard output and to files, with and without a terminal, under every choice of colours and environment", prod(n, len(when), len(envs), 3, 2), func(w *W, i int64) error {
		d := &Dec{i}
		k := d.N(n)
		t := tools[0]
		for _, t = range tools {
			if k < len(t.outs) {
				break
			}
			k -= len(t.outs)
		}
		c, e, tty, wrapper := when[d.N(len(when))], envs[d.N(len(envs))], d.N(3), d.B()
		if err != nil && tty > 0 {
			w.Outcome("no pseudo terminals here")
			return nil
		}
		file := ""
		o := t.outs[k]
		if len(o) > 0 && o[len(o)-1] != "-" {
			file = o[len(o)-1]
			if strings.HasPrefix(o[0], "--") || len(o) > 2 {
				o = o[:len(o)-1]
			}
		}
		args := append(append([]string{}, t.args...), o...)
		both := t.name == "msgomerge" && len(o) > 0 && o[0] == "-U"
		if both { // also writes to standard output
			args = strs("-U", "a.po", "b.po")
		}
		run := func(extra []string, tty int) (string, error) {
			j := cliJob{tool: t.name, args: append(append([]string{}, args...), extra...), files: files, env: append(strs("-", "PATH=/usr/bin:/bin", "HOME=/nonexistent"), e.env...), wrapper: wrapper}
			j.stdout = []string{"", "tty", "tty-stdin"}[tty]
			res, err := r.cli(w, j)
			if err != nil {
				return "", err
			}
			if res.code != 0 {
				return "", failf("exit", "%s exits %d: %.300s", res.cmd, res.code, res.err)
			}
			if file == "" {
				return res.out, nil
			}
			if both && res.out != res.tree[file] {
				return "", failf("terminal", "%s writes different things to standard output and to the updated file: %s", res.cmd, firstDiff(res.out, res.tree[file]))
			}
			if !both && res.out != "" {
				return "", failf("terminal", "%s writes to standard output:\n%.500s", res.cmd, res.out)
			}
			return res.tree[file], nil
		}
		var x []string
		if c != "" {
			x = strs("--color", c)
		}
		w.Desc("%s %v %v, output %q, environment %v, terminal: %s", t.name, args, x, file, e.env, strs("none", "standard output", "all but standard output")[tty])
		w.State(w.desc)
		plain, err := run(strs("--color=never"), 0)
		if err != nil {
			return err
		}
		got, err := run(x, tty)
		if err != nil {
			return err
		}
		w.Trace()
		if plain == "" || strings.Contains(plain, "\x1b") {
			return failf("terminal", "plain output is %q", plain)
		}
		if g := stripSGR(got); g != plain {
			return failf("terminal", "without its colour codes the output differs: %s", firstDiff(g, plain))
		}
		want := e.colour && (c == "always" || c != "never" && tty == 1 && file == "")
		if (got != plain) != want {
			return failf("terminal", "coloured: %v, should be: %v\n%.800q", got != plain, want, got)
		}
		w.Outcome(fmt.Sprintf("coloured %v", want))
		return nil
	})
}
