// Package core is the common part of the model-checking harness: it runs enumerated cases on all
// cores, counts what was covered, confirms and reports violations, and writes the evidence file.
package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Finding is one entry of /verif/known_findings.json.
type Finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Case     string `json:"case"`   // regular expression over the failing case's id
	Message  string `json:"message"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type finding struct {
	Finding
	reCase, reMsg *regexp.Regexp
	hits          int
}

// Check decides one property.
type Check struct {
	Property string
	// Level as in the manifest.
	Level string
	// Rule says how cases are made and what makes one non-trivial.
	Rule string
	// Assumptions the verdict rests on.
	Assumptions []string
	// Run enumerates the cases.
	Run func(r *Run)
}

// Run is the state of one run of one check.
type Run struct {
	Check    *Check
	Tier     string
	Seed     int
	Root     string // /verif
	deadline time.Time
	start    time.Time

	cases, steps, skipped, unstable atomic.Int64
	active                          sync.Map
	verbose                         bool
	stopped                         atomic.Bool
	truncated                       atomic.Bool

	states   [64]shard
	outcomes [64]shard

	mu        sync.Mutex
	samples   []any
	notes     []string
	extra     map[string]any
	viols     []viol
	findings  []*finding
	sampleIdx int
	spaces    []map[string]any
}

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

type viol struct {
	ID     string `json:"case"`
	Msg    string `json:"message"`
	Replay any    `json:"replay,omitempty"`
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func add(sh *[64]shard, s string) bool {
	h := hash(s)
	x := &sh[h%64]
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.m == nil {
		x.m = map[uint64]struct{}{}
	}
	if _, ok := x.m[h]; ok {
		return false
	}
	x.m[h] = struct{}{}
	return true
}

func count(sh *[64]shard) int {
	n := 0
	for i := range sh {
		n += len(sh[i].m)
	}
	return n
}

// Thorough says whether this is the deep tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Expired says whether the internal deadline has passed; the run then ends quietly and its evidence
// says that it was not exhaustive.
func (r *Run) Expired() bool {
	if r.stopped.Load() {
		return true
	}
	if time.Now().After(r.deadline) {
		r.truncated.Store(true)
		return true
	}
	return false
}

// Enough ends the run early, after a violation in a check whose failing cases take long.
func (r *Run) Enough() { r.stopped.Store(true) }

// Note adds a remark to the evidence.
func (r *Run) Note(f string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := fmt.Sprintf(f, a...)
	for _, n := range r.notes {
		if n == s {
			return
		}
	}
	if len(r.notes) < 50 {
		r.notes = append(r.notes, s)
	}
}

// Space records a named part of the explored space, with its measured size.
func (r *Run) Space(name string, kv ...any) {
	m := map[string]any{"name": name}
	for i := 0; i+1 < len(kv); i += 2 {
		m[fmt.Sprint(kv[i])] = kv[i+1]
	}
	r.mu.Lock()
	r.spaces = append(r.spaces, m)
	r.mu.Unlock()
}

// Set puts a measured value in the evidence's coverage.
func (r *Run) Set(k string, v any) {
	r.mu.Lock()
	r.extra[k] = v
	r.mu.Unlock()
}

// T is handed to the body of a case.
type T struct {
	r    *Run
	out  strings.Builder
	quit bool // re-run for confirmation: do not count
}

// Step counts one transition of the implementation, compared with the model; state is the canonical
// form of the state reached.
func (t *T) Step(state string) {
	if t.quit {
		return
	}
	t.r.steps.Add(1)
	add(&t.r.states, state)
}

// Out adds to the observed outcome of the case (for counting distinct outcomes).
func (t *T) Out(f string, a ...any) { fmt.Fprintf(&t.out, f, a...) }

// Violation is what a case returns when the property does not hold on it.
type Violation struct {
	Msg string
}

func (v *Violation) Error() string { return v.Msg }

// V makes a violation.
func V(f string, a ...any) error { return &Violation{Msg: fmt.Sprintf(f, a...)} }

// Abort ends the run with an error exit, when the machinery itself is at fault.
func Abort(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "machinery error: "+f+"\n", a...)
	os.Exit(3)
}

func (r *Run) once(quit bool, body func(t *T) error) (t *T, err error) {
	t = &T{r: r, quit: quit}
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			err = V("panic: %v\n%s", p, trimStack(st))
		}
	}()
	err = body(t)
	return t, err
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	var out []string
	for i, l := range ls {
		if strings.Contains(l, "panic.go") || strings.Contains(l, "debug/stack.go") {
			continue
		}
		if i > 4 {
			out = append(out, l)
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Exec runs one case. A violation is confirmed by five more runs of the same case before it counts.
func (r *Run) Exec(id string, replay any, body func(t *T) error) bool {
	if r.Expired() {
		r.skipped.Add(1)
		return true
	}
	a := &running{id: id, since: time.Now(), body: body, replay: replay}
	r.active.Store(a, nil)
	t, err := r.once(false, body)
	r.active.Delete(a)
	r.cases.Add(1)
	add(&r.outcomes, t.out.String())
	r.sample(id, t.out.String())
	if err == nil {
		return true
	}
	same := 0
	for i := 0; i < 5; i++ {
		_, err2 := r.once(true, body)
		if err2 != nil {
			same++
		}
	}
	if same < 5 {
		r.unstable.Add(1)
		r.Note("unstable case (failed %d of 6 runs, not reported): %s: %s", same+1, id, err)
		return true
	}
	r.report(id, err.Error(), replay)
	return false
}

func (r *Run) sample(id, out string) {
	n := r.cases.Load()
	if n&(n-1) != 0 { // powers of two
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 24 {
		if len(out) > 400 {
			out = out[:400] + "..."
		}
		r.samples = append(r.samples, map[string]any{"case": id, "observed": out})
	}
}

func (r *Run) report(id, msg string, replay any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, f := range r.findings {
		if f.Status == "known" && f.reCase.MatchString(id) && f.reMsg.MatchString(msg) {
			f.hits++
			return
		}
	}
	if len(r.viols) < 200 {
		r.viols = append(r.viols, viol{ID: id, Msg: msg, Replay: replay})
	}
	if len(r.viols) >= 20 {
		r.stopped.Store(true)
	}
}

// Parallel calls f(i) for all i in [0,n) on all cores.
func (r *Run) Parallel(n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	w := runtime.GOMAXPROCS(0)
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1) - 1)
				if i >= n || r.Expired() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

func (r *Run) loadFindings() {
	b, err := os.ReadFile(filepath.Join(r.Root, "known_findings.json"))
	if err != nil {
		return
	}
	var fs []Finding
	if err := json.Unmarshal(b, &fs); err != nil {
		Abort("known_findings.json: %v", err)
	}
	for _, f := range fs {
		if f.Property != r.Check.Property {
			continue
		}
		r.findings = append(r.findings, &finding{Finding: f,
			reCase: regexp.MustCompile(f.Case), reMsg: regexp.MustCompile(f.Message)})
	}
}

// Main runs the check named on the command line.
func Main(checks ...*Check) {
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	root := flag.String("root", "/verif", "")
	budget := flag.Int("budget", 0, "seconds before the run stops exploring")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	if os.Getenv("VERIF_CHILD") == "" {
		os.Exit(parent(*prop, *root))
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var c *Check
	for _, x := range checks {
		if x.Property == *prop {
			c = x
		}
	}
	if c == nil {
		Abort("no check for %q", *prop)
	}
	r := &Run{Check: c, Tier: *tier, Seed: seed, Root: *root, start: time.Now(), extra: map[string]any{}}
	if *budget == 0 {
		*budget = 240
		if *tier == "thorough" {
			*budget = 3600
		}
	}
	r.deadline = r.start.Add(time.Duration(*budget) * time.Second)
	r.loadFindings()
	if os.Getenv("VERIF_GC") == "" {
		debug.SetGCPercent(400)
	}
	r.verbose = *verbose
	go r.watch()
	c.Run(r)
	os.Exit(r.finish(*verbose))
}

// parent runs the check in a child process, so that a crash of the code under test that cannot be
// caught (a panic on one of its own goroutines, a fatal runtime error) is an answer too.
func parent(prop, root string) int {
	var tail string
	for i := 0; i < 2; i++ {
		cmd := exec.Command(os.Args[0], os.Args[1:]...)
		cmd.Env = append(os.Environ(), "VERIF_CHILD=1")
		cmd.Stdout = os.Stdout
		var buf tailBuffer
		cmd.Stderr = &buf
		err := cmd.Run()
		if err == nil {
			return 0
		}
		ee, ok := err.(*exec.ExitError)
		if !ok {
			fmt.Fprintln(os.Stderr, "cannot run the check:", err)
			return 3
		}
		tail = buf.String()
		if ee.ExitCode() != 2 || !(strings.Contains(tail, "fatal error:") || strings.Contains(tail, "panic:")) {
			os.Stderr.WriteString(tail)
			return ee.ExitCode()
		}
	}
	evdir := filepath.Join(root, "evidence")
	os.MkdirAll(evdir, 0755)
	replay := filepath.Join(evdir, "replay-"+prop+".json")
	b, _ := json.MarshalIndent(map[string]any{"property": prop, "crash": tail, "command": os.Args[1:]}, "", " ")
	os.WriteFile(replay, b, 0644)
	ev, _ := json.MarshalIndent(map[string]any{"property": prop, "tier": os.Getenv("VERIF_TIER"), "seed": 1, "level": "model_checking",
		"coverage":    map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 1, "samples": []any{tail}, "rule": "the code under test crashed, twice; see the replay file", "exhaustive": false},
		"assumptions": []string{}, "wall_s": 0, "violations": 1}, "", " ")
	os.WriteFile(filepath.Join(evdir, prop+".json"), ev, 0644)
	fmt.Println("the code under test crashed:\n" + tail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	return 1
}

// tailBuffer keeps the start and the end of what is written to it.
type tailBuffer struct{ b []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 64<<10 {
		t.b = append(append([]byte{}, t.b[:8<<10]...), t.b[len(t.b)-(16<<10):]...)
	}
	return len(p), nil
}

func (t *tailBuffer) String() string { return string(t.b) }

// hangAfter is how long a case may take; the longest take well under a second.
const hangAfter = 100 * time.Second

// watch reports a case that does not end.
func (r *Run) watch() {
	for {
		time.Sleep(5 * time.Second)
		var hung *running
		r.active.Range(func(k, _ any) bool {
			if a := k.(*running); time.Since(a.since) > hangAfter {
				hung = a
			}
			return hung == nil
		})
		if hung == nil {
			continue
		}
		done := make(chan struct{})
		go func() { r.once(true, hung.body); close(done) }()
		select {
		case <-done:
			continue
		case <-time.After(60 * time.Second):
		}
		if _, ok := r.active.Load(hung); !ok {
			continue
		}
		buf := make([]byte, 1<<16)
		r.report(hung.id, "the case does not end: "+string(buf[:runtime.Stack(buf, true)]), hung.replay)
		os.Exit(r.finish(r.verbose))
	}
}

type running struct {
	id     string
	since  time.Time
	body   func(t *T) error
	replay any
}

func (r *Run) finish(verbose bool) int {
	sort.SliceStable(r.viols, func(i, j int) bool { return len(r.viols[i].ID) < len(r.viols[j].ID) })
	evdir := filepath.Join(r.Root, "evidence")
	os.MkdirAll(evdir, 0755)
	replay := ""
	if len(r.viols) > 0 {
		replay = filepath.Join(evdir, "replay-"+r.Check.Property+".json")
		b, _ := json.MarshalIndent(map[string]any{"property": r.Check.Property, "tier": r.Tier, "violations": r.viols}, "", " ")
		os.WriteFile(replay, b, 0644)
	}
	for _, f := range r.findings {
		if f.Status == "known" && f.hits > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases): %s\n", f.Property, f.ID, f.hits, f.What)
		}
	}
	kf := []any{}
	for _, f := range r.findings {
		if f.Status == "known" {
			kf = append(kf, map[string]any{"id": f.ID, "cases": f.hits})
		}
	}
	cov := map[string]any{
		"distinct_nontrivial":           count(&r.outcomes),
		"rule":                          r.Check.Rule,
		"states":                        count(&r.states),
		"transitions":                   r.steps.Load(),
		"traces_validated_against_impl": r.cases.Load(),
		"exhaustive":                    !r.truncated.Load() && r.unstable.Load() == 0 && len(r.viols) == 0,
		"samples":                       r.samples,
		"spaces":                        r.spaces,
		"notes":                         append([]string{}, r.notes...),
		"known_findings_seen":           kf,
		"cases_skipped_at_deadline":     r.skipped.Load(),
		"unstable_cases":                r.unstable.Load(),
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": r.Check.Property, "tier": r.Tier, "seed": r.Seed, "level": r.Check.Level,
		"coverage": cov, "assumptions": append([]string{}, r.Check.Assumptions...),
		"wall_s": time.Since(r.start).Seconds(), "violations": len(r.viols),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		Abort("evidence: %v", err)
	}
	if err := os.WriteFile(filepath.Join(evdir, r.Check.Property+".json"), b, 0644); err != nil {
		Abort("evidence: %v", err)
	}
	fmt.Printf("%s %s: %d cases, %d distinct outcomes, %d states, %d transitions, unstable=%d, truncated=%v, %.1fs\n",
		r.Check.Property, r.Tier, r.cases.Load(), count(&r.outcomes), count(&r.states), r.steps.Load(),
		r.unstable.Load(), r.truncated.Load(), time.Since(r.start).Seconds())
	if verbose || len(r.viols) > 0 {
		for _, n := range r.notes {
			fmt.Println("note:", n)
		}
	}
	if len(r.viols) == 0 {
		return 0
	}
	for i, v := range r.viols {
		if i >= 5 {
			fmt.Printf("... and %d more\n", len(r.viols)-i)
			break
		}
		fmt.Printf("case %s\n  %s\n", v.ID, strings.ReplaceAll(v.Msg, "\n", "\n  "))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Check.Property, replay)
	return 1
}

// Keys returns the sorted keys of a map.
func Keys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
