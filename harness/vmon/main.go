// vmon runs the runtime monitors: one property per process.
//
//	vmon -prop ID            supervisor: runs itself with -child and turns crashes,
//	                         race reports and deadlocks into verdicts
//	vmon -prop ID -child     executes the workload under the monitors
//
// Exit status: 0 held on everything observed, 1 violation, 2 inconclusive.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop is one property with its workload and monitors.
type Prop struct {
	ID    string
	Rule  string
	Quick int // cases in the quick tier
	Thoro int // cases in the thorough tier
	// Serial runs the cases one after another (for monitors that watch process-wide state such as the heap).
	Serial bool
	Case   func(c *C)
	// Post runs after all cases, for monitors over the whole run.
	Post func(r *Run)
	// Need lists features that have to be observed at least so often, or the run is inconclusive.
	Need map[string]int64
	// Assumptions go to the evidence file.
	Assume []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Violation is one refuted case.
type Violation struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Case     int      `json:"case"`
	Sig      string   `json:"signature"`
	Detail   string   `json:"detail"`
	Trace    []string `json:"trace,omitempty"`
}

// Run is the state of one run of one property.
type Run struct {
	P    *Prop
	Seed uint64
	Tier string
	N    int

	mu       sync.Mutex
	cov      map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	viol     []Violation
	known    map[string]int
	evals    int64
	checks   int64
	progress *os.File
	store    map[string]any // for Post
	start    time.Time
	stopped  atomic.Bool
}

// C is the context of one case.
type C struct {
	*Run
	R     *Rand
	Case  int
	trace []string
	feat  map[string]int64
	hash  uint64
	nchk  int64
	heavy bool
	mute  bool // what goes wrong now is about another property
}

type abortCase struct{}

// Fail records a violation and ends the case.
func (c *C) Fail(sig, format string, args ...any) {
	if c.mute {
		c.Skip("other property: " + sig)
	}
	c.Report(sig, format, args...)
	panic(abortCase{})
}

// Report records a violation.
func (c *C) Report(sig, format string, args ...any) {
	if c.mute {
		c.Feat("other property: " + sig)
		return
	}
	v := Violation{Property: c.P.ID, Seed: c.Seed, Tier: c.Tier, Case: c.Case, Sig: sig,
		Detail: clip(fmt.Sprintf(format, args...), 4000), Trace: tail(c.trace, 400)}
	c.mu.Lock()
	defer c.mu.Unlock()
	if isKnown(c.P.ID, sig) {
		c.known[sig]++
		return
	}
	if len(c.viol) < 20 {
		c.viol = append(c.viol, v)
	}
}

// Check counts one oracle decision and fails the case if it is false.
func (c *C) Check(ok bool, sig, format string, args ...any) {
	c.nchk++
	if !ok {
		c.Fail(sig, format, args...)
	}
}

// Skip ends the case without a verdict: something went wrong that another property is about.
func (c *C) Skip(why string) {
	c.Feat("skipped: " + why)
	panic(abortCase{})
}

// Thorough tells the tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Feat counts an observation.
func (c *C) Feat(name string) { c.feat[name]++ }

// FeatN counts n observations.
func (c *C) FeatN(name string, n int) { c.feat[name] += int64(n) }

// Mix adds to the fingerprint that tells distinct cases apart.
func (c *C) Mix(args ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, c.hash, "|")
	for _, a := range args {
		fmt.Fprint(h, a, "|")
	}
	c.hash = h.Sum64()
}

// Logf adds a line to the trace of this case.
func (c *C) Logf(format string, args ...any) {
	if len(c.trace) < 20000 {
		c.trace = append(c.trace, clip(fmt.Sprintf(format, args...), 400))
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func tail(t []string, n int) []string {
	if len(t) > n {
		return append([]string{"..."}, t[len(t)-n:]...)
	}
	return append([]string(nil), t...)
}

func (r *Run) runCase(i, worker int) {
	c := &C{Run: r, R: NewRand(r.Seed, r.P.ID, i), Case: i, feat: map[string]int64{}}
	r.note(worker, i)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortCase); !ok {
				c.Report("panic", "panic: %v\n%s", e, clip(string(debug.Stack()), 3500))
			}
		}
		r.mu.Lock()
		r.evals++
		r.checks += c.nchk
		for k, v := range c.feat {
			r.cov[k] += v
		}
		if c.hash != 0 {
			r.distinct[c.hash] = struct{}{}
		}
		if len(r.samples) < 3 && len(c.trace) > 0 {
			r.samples = append(r.samples, fmt.Sprintf("case %d: %s", i, clip(strings.Join(c.trace, " ; "), 1500)))
		}
		if len(r.viol) > 0 {
			r.stopped.Store(true)
		}
		r.mu.Unlock()
		r.note(worker, -1)
	}()
	r.P.Case(c)
}

// post runs a monitor over the whole run; a violation it reports is attributed to case -1.
func (r *Run) post(f func(c *C)) {
	c := &C{Run: r, R: NewRand(r.Seed, r.P.ID, -1), Case: -1, feat: map[string]int64{}}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortCase); !ok {
				c.Report("panic", "panic: %v\n%s", e, clip(string(debug.Stack()), 3500))
			}
		}
		r.mu.Lock()
		r.checks += c.nchk
		for k, v := range c.feat {
			r.cov[k] += v
		}
		r.mu.Unlock()
	}()
	f(c)
}

// note writes which case a worker is executing to the progress file, for the supervisor.
func (r *Run) note(worker, c int) {
	if r.progress != nil {
		r.progress.WriteAt([]byte(fmt.Sprintf("%12d\n", c)), int64(worker)*13)
	}
}

// out is the standard output of the monitors; what the code under test prints goes nowhere.
var out = os.Stdout

func child(p *Prop, seed uint64, tier, evidence, progress, replay string, workers int) int {
	n := p.Quick
	if tier == "thorough" {
		n = p.Thoro
	}
	if k, err := strconv.Atoi(os.Getenv("VMON_CASES")); err == nil && k < n { // for tools/mutate
		n = k
	}
	r := &Run{P: p, Seed: seed, Tier: tier, N: n, cov: map[string]int64{}, distinct: map[uint64]struct{}{},
		known: map[string]int{}, store: map[string]any{}, start: time.Now()}
	if progress != "" {
		f, err := os.OpenFile(progress, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
		if err == nil {
			r.progress = f
		}
	}
	if replay == "-1" { // a violation of the whole run
		replay = ""
	}
	if replay != "" {
		i, err := strconv.Atoi(replay)
		if err != nil {
			fmt.Fprintln(out, "bad replay case:", err)
			return 2
		}
		r.runCase(i, 0)
	} else {
		if p.Serial || workers < 1 {
			workers = 1
		}
		var next atomic.Int64
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for !r.stopped.Load() {
					i := int(next.Add(1)) - 1
					if i >= n {
						return
					}
					r.runCase(i, w)
				}
			}(w)
		}
		wg.Wait()
	}
	if p.Post != nil && len(r.viol) == 0 && replay == "" {
		p.Post(r)
	}
	return r.finish(evidence, replay != "")
}

func (r *Run) finish(evidence string, replay bool) int {
	var missing []string
	for k, v := range r.P.Need {
		if r.cov[k] < v {
			missing = append(missing, fmt.Sprintf("%s: %d of %d", k, r.cov[k], v))
		}
	}
	sort.Strings(missing)

	if evidence != "" && !replay {
		known := []string{}
		for s, n := range r.known {
			known = append(known, fmt.Sprintf("%s (%d times)", s, n))
		}
		sort.Strings(known)
		ev := map[string]any{
			"property": r.P.ID, "tier": r.Tier, "seed": r.Seed, "level": "exploration",
			"coverage": map[string]any{
				"evaluations":         r.evals,
				"distinct_nontrivial": len(r.distinct),
				"rule":                r.P.Rule,
				"samples":             r.samples,
				"oracle_decisions":    r.checks,
				"observed":            r.cov,
				"known_findings_seen": known,
				"noise_points_passed": noiseHits(),
			},
			"assumptions": r.P.Assume,
			"wall_s":      time.Since(r.start).Seconds(),
			"violations":  len(r.viol),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(evidence), 0o755)
		if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(out, "cannot write evidence:", err)
			return 2
		}
	}

	if len(r.viol) > 0 {
		sort.SliceStable(r.viol, func(i, j int) bool { return r.viol[i].Case < r.viol[j].Case })
		announce(r.viol[0])
		return 1
	}
	for sig, text := range knownFor(r.P.ID) {
		if r.known[sig] > 0 {
			fmt.Fprintf(out, "KNOWN-FINDING: property=%s %s (seen %d times in this run)\n", r.P.ID, text, r.known[sig])
		} else if !replay {
			fmt.Fprintf(out, "note: listed finding %s/%s was not observed in this run\n", r.P.ID, sig)
		}
	}
	if len(missing) > 0 && !replay {
		fmt.Fprintf(out, "INCONCLUSIVE property=%s too little observed: %s\n", r.P.ID, strings.Join(missing, ", "))
		return 2
	}
	fmt.Fprintf(out, "HELD property=%s cases=%d decisions=%d distinct=%d in %.1fs\n", r.P.ID, r.evals, r.checks,
		len(r.distinct), time.Since(r.start).Seconds())
	return 0
}

// announce writes the replay file and the VIOLATION line.
func announce(v Violation) {
	dir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", v.Property, v.Seed, v.Case))
	b, _ := json.MarshalIndent(v, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(out, "cannot write replay file:", err)
	}
	fmt.Fprintf(out, "%s: case %d: %s\n", v.Sig, v.Case, clip(v.Detail, 2000))
	fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", v.Property, path)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	prop := flag.String("prop", "", "property id")
	seed := flag.Uint64("seed", 1, "seed of every random choice")
	tier := flag.String("tier", "quick", "quick or thorough")
	evidence := flag.String("evidence", "", "evidence file")
	isChild := flag.Bool("child", false, "run the workload in this process")
	progress := flag.String("progress", "", "progress file")
	replay := flag.String("replay", "", "case number (child) or replay file (supervisor)")
	workers := flag.Int("workers", runtime.NumCPU(), "parallel cases")
	list := flag.Bool("list", false, "list properties")
	helper := flag.String("helper", "", "internal: run a helper process")
	flag.Parse()

	if *helper != "" {
		os.Exit(runHelper(*helper))
	}
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	p, ok := props[*prop]
	if !ok {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	if *isChild {
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = null
		}
		os.Exit(child(p, *seed, *tier, *evidence, *progress, *replay, *workers))
	}
	os.Exit(supervise(p, *seed, *tier, *evidence, *replay, *workers))
}

// split makes contexts for n goroutines of one case; join takes their counts back.
func (c *C) split(n int) []*C {
	l := make([]*C, n)
	for i := range l {
		l[i] = &C{Run: c.Run, R: c.R.Fork(), Case: c.Case, feat: map[string]int64{}}
	}
	return l
}

func (c *C) join(l []*C) {
	for i, x := range l {
		for k, v := range x.feat {
			c.feat[k] += v
		}
		c.nchk += x.nchk
		for _, t := range x.trace {
			c.trace = append(c.trace, fmt.Sprintf("goroutine %d: %s", i, t))
		}
	}
}
