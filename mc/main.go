package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"time"
)

var props = map[string]propDef{}

// children are what the program does when it starts itself: mc child NAME ARGS.
var children = map[string]func(args []string) error{}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc PROP quick|thorough|replay FILE")
		os.Exit(2)
	}
	if os.Args[1] == "child" {
		if err := children[os.Args[2]](os.Args[3:]); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		return
	}
	// The same everywhere; C20 changes it.
	setEnv(map[string]string{"COLORTERM": "truecolor", "TERM": "xterm-256color"})
	prop, tier := os.Args[1], os.Args[2]
	def, ok := props[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	root := os.Getenv("MC_ROOT")
	if root == "" {
		root = "/verif"
	}
	r := &Run{Prop: prop, Tier: tier, Root: root, Bin: os.Getenv("MC_BIN"), start: time.Now(), exhaustive: true, extra: map[string]any{}}
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if tier == "replay" {
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r.only, r.onlyIndex, r.Tier = v.Space, v.Index, v.Tier
	}
	r.Thorough = r.Tier == "thorough"
	limit := 240 * time.Second
	if r.Thorough {
		limit = 780 * time.Second
	}
	if s := os.Getenv("MC_LIMIT"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	r.deadline = r.start.Add(limit)
	base := os.Getenv("MC_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	dir, err := os.MkdirTemp(base, "mcrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r.Scratch, _ = filepath.EvalSymlinks(dir)
	r.loadKnown()
	if prop != "C04" { // C04 watches the memory itself
		debug.SetGCPercent(800)
		debug.SetMemoryLimit(6 << 30)
	}
	go r.watchdog(def)
	def.run(r)
	code := r.finish(def)
	os.RemoveAll(r.Scratch)
	os.Exit(code)
}
