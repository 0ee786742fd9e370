// Exhaustive-exploration engine: indexed spaces sharded over workers, breadth-first
// search with a reference model in lockstep, violation replay files, evidence.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one execution of one property's check.
type Run struct {
	Prop, Tier string
	Thorough   bool
	Seed       int
	Root       string // /verif
	Bin        string // directory with the built command-line tools
	Scratch    string // scratch directory, removed at the end

	start    time.Time
	deadline time.Time

	states     [64]stateShard
	trans      atomic.Int64
	traces     atomic.Int64
	evals      atomic.Int64
	outcomes   sync.Map
	nOutcomes  atomic.Int64
	spaces     []*SpaceInfo
	samples    []string
	sampleMu   sync.Mutex
	exhaustive bool

	mu       sync.Mutex
	viol     []Violation
	known    map[string]string // key -> what
	knownHit map[string]bool
	stop     atomic.Bool
	unrepro  []string

	slots sync.Map // *caseSlot: what every worker is doing, for the watchdog

	only      string // replay: space name
	onlyIndex int64
	extra     map[string]any
}

type stateShard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

type SpaceInfo struct {
	Name       string `json:"name"`
	Size       int64  `json:"size"`
	Explored   int64  `json:"explored"`
	Exhaustive bool   `json:"exhaustive"`
	What       string `json:"what"`
}

type Violation struct {
	Space  string `json:"space"`
	Index  int64  `json:"index"`
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Case   string `json:"case"`
	Tier   string `json:"tier"`
	Prop   string `json:"property"`
}

// caseSlot says which case a worker runs and since when.
type caseSlot struct {
	space string
	index atomic.Int64
	since atomic.Int64
	w     *W
}

const (
	hangLimit = 150 * time.Second // cases take microseconds to, at the very most, a few seconds
	heapLimit = 14 << 30
)

// watchdog reports a case that does not return or exhausts memory, and ends the run.
func (r *Run) watchdog(def propDef) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(500 * time.Millisecond)
		metrics.Read(sample)
		heap := sample[0].Value.Uint64()
		var worst *caseSlot
		var since int64
		r.slots.Range(func(k, _ any) bool {
			s := k.(*caseSlot)
			if t := s.since.Load(); t != 0 && (worst == nil || t < since) {
				worst, since = s, t
			}
			return true
		})
		if worst == nil {
			continue
		}
		age := time.Since(time.Unix(0, since))
		what := ""
		if age > hangLimit {
			what = fmt.Sprintf("the call did not return within %v", hangLimit)
		} else if heap > heapLimit && age > 3*time.Second {
			what = fmt.Sprintf("memory use grew to %d MB without the call returning", heap>>20)
		}
		if what == "" {
			continue
		}
		r.stop.Store(true)
		r.exhaustive = false
		r.report(Violation{Space: worst.space, Index: worst.index.Load(), Key: "hang", Detail: what, Case: worst.w.desc})
		os.Exit(r.finish(def))
	}
}

// W is one worker's view of the exploration.
type W struct {
	r    *Run
	desc string
	hash uint64
	id   int
}

// ID is the number of the worker.
func (w *W) ID() int { return w.id }

// Fail is the error type returned by a case; Key identifies it for known findings.
type Fail struct{ Key, Detail string }

func (f *Fail) Error() string { return f.Detail }

func failf(key, format string, a ...any) error { return &Fail{key, fmt.Sprintf(format, a...)} }

// State records one canonical state (or distinct canonical input).
func (w *W) State(s string) { w.r.addState(s) }

func (r *Run) addState(s string) bool {
	h := fnv.New64a()
	h.Write([]byte(s))
	v := h.Sum64()
	sh := &r.states[v%64]
	sh.mu.Lock()
	_, ok := sh.m[v]
	if !ok {
		if sh.m == nil {
			sh.m = map[uint64]struct{}{}
		}
		sh.m[v] = struct{}{}
	}
	sh.mu.Unlock()
	return !ok
}

// Trans counts n operations executed on the real code.
func (w *W) Trans(n int) { w.r.trans.Add(int64(n)) }

// Trace counts one execution of the real code compared with the reference model.
func (w *W) Trace() { w.r.traces.Add(1) }

// Outcome records a distinct observed outcome class.
func (w *W) Outcome(s string) {
	if _, dup := w.r.outcomes.LoadOrStore(s, true); !dup {
		w.r.nOutcomes.Add(1)
	}
}

// Desc sets a human-readable description of the current case.
func (w *W) Desc(f string, a ...any) { w.desc = fmt.Sprintf(f, a...) }

func (r *Run) timeUp() bool { return time.Now().After(r.deadline) }

// Space explores every index of [0,n). f returns nil if the property holds on that case.
func (r *Run) Space(name, what string, n int64, f func(w *W, i int64) error) {
	if r.only != "" {
		if r.only != name {
			return
		}
		r.replayOne(name, r.onlyIndex, f)
		return
	}
	info := &SpaceInfo{Name: name, Size: n, What: what, Exhaustive: true}
	r.mu.Lock()
	r.spaces = append(r.spaces, info)
	r.mu.Unlock()
	if r.stop.Load() || n <= 0 {
		info.Exhaustive = n <= 0
		r.exhaustive = r.exhaustive && info.Exhaustive
		return
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	var next, done atomic.Int64
	chunk := n / int64(workers*64)
	if chunk < 1 {
		chunk = 1
	}
	if chunk > 512 {
		chunk = 512
	}
	var cut atomic.Bool
	var wg sync.WaitGroup
	every := n/4 + 1
	for k := 0; k < workers; k++ {
		wg.Add(1)
		k := k
		go func() {
			defer wg.Done()
			w := &W{r: r, id: k}
			slot := &caseSlot{space: name, w: w}
			r.slots.Store(slot, true)
			defer r.slots.Delete(slot)
			for {
				lo := next.Add(chunk) - chunk
				if lo >= n {
					return
				}
				hi := lo + chunk
				if hi > n {
					hi = n
				}
				for i := lo; i < hi; i++ {
					if r.stop.Load() {
						cut.Store(true)
						return
					}
					w.desc = ""
					slot.index.Store(i)
					slot.since.Store(time.Now().UnixNano())
					err := runCase(w, i, f)
					slot.since.Store(0)
					done.Add(1)
					r.evals.Add(1)
					if i%every == 0 {
						r.sample(name, i, w.desc)
					}
					if err != nil {
						r.violation(name, i, w, err, f)
					}
				}
				if r.timeUp() {
					cut.Store(true)
					return
				}
			}
		}()
	}
	wg.Wait()
	info.Explored = done.Load()
	info.Exhaustive = !cut.Load() && info.Explored == n
	if !info.Exhaustive {
		r.exhaustive = false
	}
	if os.Getenv("MC_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%s %-28s %10d/%d  %.1fs\n", r.Prop, name, info.Explored, n, time.Since(r.start).Seconds())
	}
}

func runCase(w *W, i int64, f func(w *W, i int64) error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			err = &Fail{"panic", fmt.Sprintf("panic: %v\n%s", p, trimStack(st))}
		}
	}()
	return f(w, i)
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " <- ")
}

func (r *Run) sample(name string, i int64, d string) {
	r.sampleMu.Lock()
	defer r.sampleMu.Unlock()
	if len(r.samples) < 40 {
		if len(d) > 400 {
			d = d[:400] + "..."
		}
		r.samples = append(r.samples, fmt.Sprintf("%s[%d] %s", name, i, d))
	}
}

func (r *Run) replayOne(name string, i int64, f func(w *W, i int64) error) {
	w := &W{r: r}
	err := runCase(w, i, f)
	r.evals.Add(1)
	fmt.Printf("replay %s %s[%d]\ncase: %s\n", r.Prop, name, i, w.desc)
	if err != nil {
		fmt.Printf("FAILS: %v\n", err)
		r.viol = append(r.viol, Violation{Space: name, Index: i, Detail: err.Error(), Case: w.desc})
	} else {
		fmt.Println("holds")
	}
}

// violation re-runs the failing case, classifies it and records it.
func (r *Run) violation(name string, i int64, w *W, err error, f func(w *W, i int64) error) {
	key := ""
	if fl, ok := err.(*Fail); ok {
		key = fl.Key
	}
	if r.isKnown(key) {
		return
	}
	desc, again := w.desc, 0
	for k := 0; k < 4; k++ {
		w2 := &W{r: r, id: w.id}
		if e2 := runCase(w2, i, f); e2 != nil {
			again++
			continue
		}
		if key == "memory" || key == "env" { // measurements and the environment can be noisy, results cannot
			r.mu.Lock()
			r.unrepro = append(r.unrepro, fmt.Sprintf("%s[%d]: %v", name, i, err))
			r.mu.Unlock()
			return
		}
	}
	detail := err.Error()
	if again < 4 {
		detail = fmt.Sprintf("(seen again in %d of 4 repetitions: the result varies) %s", again, detail)
	}
	r.report(Violation{Space: name, Index: i, Key: key, Detail: detail, Case: desc})
}

func (r *Run) isKnown(key string) bool {
	if key == "" {
		return false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.known[key]; ok {
		r.knownHit[key] = true
		return true
	}
	return false
}

func (r *Run) report(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	v.Prop, v.Tier = r.Prop, r.Tier
	r.viol = append(r.viol, v)
	if len(r.viol) >= 6 {
		r.stop.Store(true)
	}
}

// ---- known findings ----

func (r *Run) loadKnown() {
	r.known = map[string]string{}
	r.knownHit = map[string]bool{}
	f, err := os.Open(filepath.Join(r.Root, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=C08 key=<key> <what>
		if !strings.HasPrefix(l, "known: property="+r.Prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+r.Prop+" ")
		if !strings.HasPrefix(rest, "key=") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(rest, "key="), " ", 2)
		what := ""
		if len(parts) == 2 {
			what = parts[1]
		}
		r.known[parts[0]] = what
	}
}

// ---- finish ----

func (r *Run) countStates() int64 {
	var n int64
	for i := range r.states {
		n += int64(len(r.states[i].m))
	}
	return n
}

type propDef struct {
	level string
	rule  string
	notes []string
	run   func(r *Run)
}

func (r *Run) finish(def propDef) int {
	wall := time.Since(r.start).Seconds()
	sort.Slice(r.viol, func(a, b int) bool {
		if r.viol[a].Space != r.viol[b].Space {
			return r.viol[a].Space < r.viol[b].Space
		}
		return r.viol[a].Index < r.viol[b].Index
	})
	if r.only != "" {
		if len(r.viol) > 0 {
			return 1
		}
		return 0
	}
	sort.Strings(r.samples)
	cov := map[string]any{
		"samples": r.samples,
		"spaces":  r.spaces,
	}
	if def.level == "model_checking" {
		cov["states"] = r.countStates()
		cov["transitions"] = r.trans.Load()
		cov["traces_validated_against_impl"] = r.traces.Load()
	} else {
		cov["evaluations"] = r.evals.Load()
		cov["distinct_nontrivial"] = r.countStates()
		cov["rule"] = def.rule
		cov["operations_executed"] = r.trans.Load()
	}
	cov["distinct_outcomes"] = r.nOutcomes.Load()
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": def.level,
		"coverage": cov, "wall_s": wall, "exhaustive": r.exhaustive,
		"assumptions": def.notes,
	}
	if len(r.unrepro) > 0 {
		ev["not_reproducible"] = r.unrepro
	}
	var vs []any
	seen := map[string]bool{}
	code := 0
	if len(r.viol) > 0 {
		os.MkdirAll(filepath.Join(r.Root, "out"), 0o755)
	}
	for i, v := range r.viol {
		if i >= 3 {
			break
		}
		path := filepath.Join("out", fmt.Sprintf("%s-%d.json", r.Prop, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(filepath.Join(r.Root, path), b, 0o644)
		d := v.Detail
		if len(d) > 1500 {
			d = d[:1500] + "..."
		}
		if !seen[v.Space] {
			fmt.Printf("%s: %s[%d]: %s\n  case: %s\n", r.Prop, v.Space, v.Index, d, clip(v.Case, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
		seen[v.Space] = true
		vs = append(vs, map[string]any{"replay": path, "detail": clip(v.Detail, 600)})
		code = 1
	}
	ev["violations"] = len(r.viol)
	if vs != nil {
		ev["violation_list"] = vs
	}
	var ks []string
	for k := range r.known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.Prop, k, r.known[k])
	}
	os.MkdirAll(filepath.Join(r.Root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(r.Root, "evidence", r.Prop+".json"), append(b, '\n'), 0o644)
	if code == 0 {
		fmt.Printf("%s %s ok: states=%d ops=%d traces=%d exhaustive=%v %.1fs\n", r.Prop, r.Tier, r.countStates(), r.trans.Load(), r.traces.Load(), r.exhaustive, wall)
	}
	return code
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- enumeration helpers ----

// Dec decodes an index as a mixed-radix number.
type Dec struct{ i int64 }

func (d *Dec) N(n int) int {
	v := int(d.i % int64(n))
	d.i /= int64(n)
	return v
}
func (d *Dec) B() bool { return d.N(2) == 1 }

func pow(b, e int) int64 {
	n := int64(1)
	for i := 0; i < e; i++ {
		n *= int64(b)
	}
	return n
}

// seqCount is the number of sequences of length 0..max over k symbols (shortest first).
func seqCount(k, max int) int64 {
	var n int64
	for l := 0; l <= max; l++ {
		n += pow(k, l)
	}
	return n
}

func seqAt(k int, i int64) []int {
	l := 0
	for i >= pow(k, l) {
		i -= pow(k, l)
		l++
	}
	out := make([]int, l)
	for j := l - 1; j >= 0; j-- {
		out[j] = int(i % int64(k))
		i /= int64(k)
	}
	return out
}

func prod(ns ...int) int64 {
	p := int64(1)
	for _, n := range ns {
		p *= int64(n)
	}
	return p
}

// perms calls f with every permutation of 0..n-1.
func permAt(n int, i int64) []int {
	el := make([]int, n)
	for k := range el {
		el[k] = k
	}
	out := make([]int, 0, n)
	for k := n; k > 0; k-- {
		j := int(i % int64(k))
		i /= int64(k)
		out = append(out, el[j])
		el = append(el[:j], el[j+1:]...)
	}
	return out
}

func fact(n int) int64 {
	p := int64(1)
	for i := 2; i <= n; i++ {
		p *= int64(i)
	}
	return p
}
