// Running the command-line tools in scratch directories.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// tree is the content of a directory: files by path below it, directories as "path/".
type tree map[string]string

func (t tree) String() string {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "  %s: %.300q\n", k, t[k])
	}
	return b.String()
}

func (t tree) clone() tree {
	o := tree{}
	for k, v := range t {
		o[k] = v
	}
	return o
}

// with returns t with further files (name, content, …).
func (t tree) with(kv ...string) tree {
	o := t.clone()
	for i := 0; i+1 < len(kv); i += 2 {
		o[kv[i]] = kv[i+1]
	}
	return o
}

// diff names the first difference of two trees ("" if none).
func (t tree) diff(want tree) string {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	for k := range want {
		if _, ok := t[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, ok := t[k]
		x, ok2 := want[k]
		switch {
		case !ok:
			return fmt.Sprintf("%s is missing", k)
		case !ok2:
			return fmt.Sprintf("%s appeared: %.300q", k, g)
		case g != x:
			return fmt.Sprintf("%s: %s", k, firstDiff(g, x))
		}
	}
	return ""
}

type cliRes struct {
	out, err string
	code     int
	hung     bool
	tree     tree // afterwards
	cmd      string
}

// cliJob is one run of a tool.
type cliJob struct {
	tool    string
	wrapper bool // through gotext-tools
	args    []string
	stdin   string
	files   tree
	stdout  string // "" captured, "full" /dev/full, "closed" no standard output
	env     []string
	limit   int // files can hold only so many bytes less one (0: no limit)
}

func init() {
	children["limit"] = func(args []string) error {
		signal.Ignore(syscall.SIGXFSZ)
		n, err := strconv.ParseUint(args[0], 10, 32)
		if err != nil {
			return err
		}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
			return err
		}
		return syscall.Exec(args[1], args[1:], os.Environ())
	}
}

// stampRx matches the dates and times of log lines.
var stampRx = regexp.MustCompile(`\d{4}[/-]\d{2}[/-]\d{2}[ T]?|\d{2}:\d{2}:\d{2}(\.\d+)?`)

var panicRx = regexp.MustCompile(`(?m)^(panic:|fatal error:|goroutine \d+ \[)`)

func readTree(dir string) tree {
	t := tree{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel := p[len(dir)+1:]
		if d.IsDir() {
			t[rel+"/"] = ""
			return nil
		}
		if d.Type()&fs.ModeSymlink != 0 {
			to, _ := os.Readlink(p)
			t[rel] = "link:" + to
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			b = []byte("unreadable: " + err.Error())
		}
		t[rel] = string(b)
		return nil
	})
	return t
}

// cli runs a job in a fresh directory below the worker's scratch directory.
func (r *Run) cli(w *W, j cliJob) (res cliRes, err error) {
	dir := filepath.Join(r.Scratch, fmt.Sprintf("cli%d", w.ID()))
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return res, failf("env", "%v", err)
	}
	for name, text := range j.files {
		p := filepath.Join(dir, name)
		if strings.HasSuffix(name, "/") {
			os.MkdirAll(p, 0o755)
			continue
		}
		os.MkdirAll(filepath.Dir(p), 0o755)
		if strings.HasPrefix(text, "link:") {
			if err := os.Symlink(text[5:], p); err != nil {
				return res, failf("env", "%v", err)
			}
			continue
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			return res, failf("env", "%v", err)
		}
	}
	bin, args := filepath.Join(r.Bin, j.tool), append([]string{}, j.args...)
	if j.wrapper {
		bin, args = filepath.Join(r.Bin, "gotext-tools"), append([]string{j.tool}, args...)
	}
	if j.limit > 0 {
		args = append(strs("child", "limit", fmt.Sprint(j.limit-1), bin), args...)
		bin, err = os.Executable()
		if err != nil {
			return res, failf("env", "%v", err)
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Dir = dir
	c.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TERM=dumb"}, j.env...)
	if j.env != nil && j.env[0] == "-" {
		c.Env = j.env[1:]
	}
	if d := os.Getenv("GOCOVERDIR"); d != "" { // measuring what the checks reach
		c.Env = append(c.Env, "GOCOVERDIR="+d)
	}
	c.Stdin = strings.NewReader(j.stdin)
	var out, eb bytes.Buffer
	c.Stderr = &eb
	switch j.stdout {
	case "full":
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return res, failf("env", "%v", err)
		}
		defer f.Close()
		c.Stdout = f
	case "file":
		f, err := os.Create(filepath.Join(dir, "stdout"))
		if err != nil {
			return res, failf("env", "%v", err)
		}
		defer f.Close()
		c.Stdout = f
	case "closed":
		// a read-only standard output: every write fails
		f, err := os.Open("/dev/null")
		if err != nil {
			return res, failf("env", "%v", err)
		}
		defer f.Close()
		c.Stdout = f
	case "tty", "tty-stdin": // a terminal as standard output, or as everything else
		m, t, err := openPty()
		if err != nil {
			return res, failf("env", "%v", err)
		}
		defer m.Close()
		defer t.Close()
		if j.stdout == "tty-stdin" {
			c.Stdin, c.Stderr, c.Stdout = t, t, &out
			break
		}
		c.Stdout = t
		done := readPty(m)
		defer func() {
			t.Close()
			res.out = <-done
		}()
	default:
		c.Stdout = &out
	}
	res.cmd = j.tool + " " + strings.Join(j.args, " ")
	if e := c.Run(); e != nil {
		var xe *exec.ExitError
		if !errors.As(e, &xe) {
			if !errors.Is(e, os.ErrNotExist) && strings.Contains(e.Error(), "resource temporarily unavailable") || strings.Contains(e.Error(), "cannot allocate memory") {
				return res, failf("env", "%v", e)
			}
			// e.g. standard input not read to its end
			if c.ProcessState == nil {
				return res, failf("env", "%v", e)
			}
		}
	}
	res.code = c.ProcessState.ExitCode()
	res.hung = ctx.Err() != nil
	res.out, res.err = out.String(), eb.String()
	res.tree = readTree(dir)
	w.Trans(1)
	if res.hung {
		return res, failf("hang", "%s does not end", res.cmd)
	}
	if panicRx.MatchString(res.err) {
		return res, failf("panic", "%s panics:\n%.2000s", res.cmd, res.err)
	}
	return res, nil
}

// full adds the directories of the files to a tree.
func (t tree) full() tree {
	o := tree{}
	for k, v := range t {
		o[k] = v
		for d := filepath.Dir(strings.TrimSuffix(k, "/")); d != "."; d = filepath.Dir(d) {
			o[d+"/"] = ""
		}
	}
	return o
}

// cliOK runs a job that must succeed with the given standard output ("\x00" = any) and files afterwards.
func (r *Run) cliOK(w *W, j cliJob, out string, after tree) error {
	res, err := r.cli(w, j)
	if err != nil {
		return err
	}
	if res.code != 0 {
		return failf("exit", "%s exits %d: %.500s", res.cmd, res.code, res.err)
	}
	if out != "\x00" && res.out != out {
		return failf("stdout", "%s: standard output differs: %s\n got:\n%.1500s\n want:\n%.1500s", res.cmd, firstDiff(res.out, out), res.out, out)
	}
	if d := res.tree.diff(after.full()); d != "" {
		return failf("files", "%s: %s", res.cmd, d)
	}
	return nil
}

// kept checks that every file is as before, but for the named outputs.
func (t tree) kept(before tree, outs ...string) string {
	a, b := t.clone(), before.full()
	for _, o := range outs {
		delete(a, o)
		delete(b, o)
	}
	return a.diff(b)
}

// cliFail runs a job that must fail with a message; files that may then differ from before are named.
func (r *Run) cliFail(w *W, j cliJob, outs ...string) (cliRes, error) {
	res, err := r.cli(w, j)
	if err != nil {
		return res, err
	}
	if res.code == 0 {
		return res, failf("no-failure", "%s exits 0 (stdout %.200q, stderr %.200q)", res.cmd, res.out, res.err)
	}
	if strings.TrimSpace(res.err) == "" {
		return res, failf("silent", "%s exits %d without a message on standard error", res.cmd, res.code)
	}
	if d := res.tree.kept(j.files, outs...); d != "" {
		return res, failf("destroyed", "%s (exit %d): %s", res.cmd, res.code, d)
	}
	return res, nil
}
