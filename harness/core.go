// Command zzverif is the runtime monitor of freerware/negotiator: it drives
// the real code of /repo with generated, hostile and concurrent workloads and
// decides each property of /verif/properties.jsonl with an oracle over what it
// observed. See /verif/DESIGN.md.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Rand is a small deterministic generator (splitmix64), so that a case is
// fully determined by its seed, on every version of Go.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("Intn")
	}
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}

func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }
func (r *Rand) P(percent int) bool   { return r.Intn(100) < percent }
func (r *Rand) Bool() bool           { return r.U64()&1 == 0 }

func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func pick[T any](r *Rand, s []T) T { return s[r.Intn(len(s))] }

func pickOf[T any](r *Rand, s ...T) T { return s[r.Intn(len(s))] }

func shuffled[T any](r *Rand, s []T) []T {
	out := make([]T, 0, len(s))
	for _, i := range r.Perm(len(s)) {
		out = append(out, s[i])
	}
	return out
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Sub is one workload of a property.
type Sub struct {
	Name            string
	Quick, Thorough int // number of cases per tier.
	Serial          bool
	Run             func(*Case)
}

// Property is a property with the workloads that decide it.
type Property struct {
	ID   string
	Rule string
	Subs []Sub
	// MinEvents lists event counters that must not be zero for the run to say
	// anything; otherwise the verdict is inconclusive.
	MinEvents []string
	// More multiplies the number of cases of the quick tier, for what is fast.
	More int
	// Enough is the number of violations that ends the run early, if set.
	Enough int
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

// Case is a single execution of a workload.
type Case struct {
	Prop, Sub string
	Idx       int
	Seed      uint64
	Thorough  bool
	R         *Rand

	run    *run
	fails  []violation
	desc   []string
	trace  []string
	notes  map[string]int
	sigs   []uint64
	sample any
	skips  []string
	evals  int
	hung   bool
}

type violation struct {
	Property string   `json:"property"`
	Sub      string   `json:"workload"`
	Idx      int      `json:"case"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Key      string   `json:"key,omitempty"`
	What     string   `json:"what"`
	Context  []string `json:"context"`
}

// Fail reports a violation of the property in this case.
func (c *Case) Fail(format string, args ...any) { c.FailKey("", format, args...) }

// FailKey reports a violation identified by a key, which the known findings
// file can list.
func (c *Case) FailKey(key, format string, args ...any) {
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	c.fails = append(c.fails, violation{
		Property: c.Prop, Sub: c.Sub, Idx: c.Idx, Seed: c.Seed, Tier: tier, Key: key,
		What:    fmt.Sprintf(format, args...),
		Context: append([]string{}, c.desc...),
	})
}

// Desc adds context that is written with a violation.
func (c *Case) Desc(format string, args ...any) {
	c.desc = append(c.desc, fmt.Sprintf(format, args...))
}

// Eval counts executions of the code under test that were judged.
func (c *Case) Eval(n int) { c.evals += n }

// Count counts observed events.
func (c *Case) Count(name string) { c.notes[name]++ }

// CountN counts observed events.
func (c *Case) CountN(name string, n int) { c.notes[name] += n }

// Nontrivial records the signature of a case that counts as non-trivial.
func (c *Case) Nontrivial(parts ...string) { c.sigs = append(c.sigs, hash64(parts...)) }

// Skip records that the oracle cannot judge (part of) this case.
func (c *Case) Skip(reason string) { c.skips = append(c.skips, reason) }

// Sample offers a case to be written out in the evidence.
func (c *Case) Sample(v any) {
	if c.sample == nil {
		c.sample = v
	}
}

type run struct {
	prop     *Property
	seed     uint64
	thorough bool

	mu         sync.Mutex
	evals      int
	cases      int
	distinct   map[uint64]struct{}
	events     map[string]int
	skips      map[string]int
	samples    []any
	violations []violation
	perSub     map[string]int

	knownKeys map[string]string
	fresh     int         // violations that aren't known findings.
	stop      atomic.Bool // enough is known.
	active    []activity

	max       int      // violations that end the run early.
	args      []string // of a process that executes the same cases.
	childStep int      // 1 + the step to perform; 0 is all of them.
}

// inFreshProcess performs a step of this case in a process of its own and
// provides what that prints. The workload has to call childStep.
func (c *Case) inFreshProcess(step int) string { return c.inProcess(step, 1) }

// inProcess is inFreshProcess on that many processors.
func (c *Case) inProcess(step, procs int) string {
	args := append(append([]string{}, c.run.args...), "-child", fmt.Sprintf("%s:%d:%d", c.Sub, c.Idx, step))
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+strconv.Itoa(procs))
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	must(err)
	return string(out)
}

// childStep is the only step to perform in this process, if there is one.
func (c *Case) childStep() (int, bool) { return c.run.childStep - 1, c.run.childStep > 0 }

// activity is what a worker does since when.
type activity struct {
	mu    sync.Mutex
	c     *Case
	since time.Time
}

func (a *activity) set(c *Case) {
	a.mu.Lock()
	a.c, a.since = c, time.Now()
	a.mu.Unlock()
}

// hangs is how long a case, which takes milliseconds, can take at most.
const hangs = 150 * time.Second

func (rn *run) exec(sub *Sub, idx, worker int) *Case {
	seed := hash64(rn.prop.ID, sub.Name, strconv.FormatUint(rn.seed, 10), strconv.Itoa(idx))
	c := &Case{Prop: rn.prop.ID, Sub: sub.Name, Idx: idx, Seed: seed, Thorough: rn.thorough,
		R: NewRand(seed), run: rn, notes: map[string]int{}}
	if worker >= 0 {
		rn.active[worker].set(c)
		defer rn.active[worker].set(nil)
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if hp, ok := p.(harnessError); ok {
					fmt.Fprintf(os.Stderr, "harness error in %s/%s case %d: %v\n", c.Prop, c.Sub, idx, hp)
					os.Exit(3)
				}
				// application panics are recovered where they are expected, so
				// this is a panic of the code under test outside of Negotiate.
				c.Fail("panic: %v\n%s", p, debug.Stack())
			}
		}()
		sub.Run(c)
	}()
	return c
}

// harnessError is a panic value for a failure of the harness itself.
type harnessError string

func must(err error) {
	if err != nil {
		panic(harnessError(err.Error()))
	}
}

func (rn *run) merge(c *Case) {
	rn.mu.Lock()
	defer rn.mu.Unlock()
	rn.cases++
	rn.perSub[c.Sub]++
	rn.evals += c.evals
	for _, s := range c.sigs {
		rn.distinct[s] = struct{}{}
	}
	for k, n := range c.notes {
		rn.events[k] += n
	}
	for _, s := range c.skips {
		rn.skips[s]++
	}
	if c.sample != nil && len(rn.samples) < 6 && (len(rn.samples) == 0 || c.Idx%7 == 3) {
		rn.samples = append(rn.samples, map[string]any{"workload": c.Sub, "case": c.Idx, "observed": c.sample})
	}
	rn.violations = append(rn.violations, c.fails...)
	for _, v := range c.fails {
		if _, ok := rn.knownKeys[v.Key]; !ok || v.Key == "" {
			rn.fresh++
		}
	}
	if rn.fresh >= rn.max || c.hung {
		rn.stop.Store(true)
	}
}

func main() {
	var (
		propID   = flag.String("prop", "", "property to decide")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seed     = flag.Int64("seed", 1, "seed of every random choice")
		evidence = flag.String("evidence", "", "evidence file to write")
		replays  = flag.String("replays", "", "directory to write replay files to")
		known    = flag.String("known", "", "known findings file")
		replay   = flag.String("replay", "", "replay file to run instead")
		scale    = flag.Float64("scale", 1, "scales the number of cases")
		list     = flag.Bool("list", false, "list the properties")
		raceFlag = flag.String("racelog", "", "log_path of the race detector")
		verbose  = flag.Bool("v", false, "print more violations")
		most     = flag.Int("max", 200, "number of violations that ends the run early")
		child    = flag.String("child", "", "perform one step of one case (workload:case:step) in this process and print what is observed")
	)
	flag.Parse()
	debug.SetGCPercent(400)
	raceLog = *raceFlag
	if *list {
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}

	var only *violation
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var file struct {
			violation
			RunSeed int64 `json:"run_seed"`
		}
		if err = json.Unmarshal(b, &file); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		only = &file.violation
		*propID, *tier, *seed = file.Property, file.Tier, file.RunSeed
	}

	p, ok := properties[*propID]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *propID)
		os.Exit(2)
	}
	started := time.Now()
	rn := &run{prop: p, seed: uint64(*seed), thorough: *tier == "thorough",
		distinct: map[uint64]struct{}{}, events: map[string]int{}, skips: map[string]int{}, perSub: map[string]int{},
		knownKeys: readKnown(*known, p.ID), active: make([]activity, runtime.GOMAXPROCS(0))}
	done := func() int {
		return rn.finish(started, *tier, *seed, *evidence, *replays, only != nil, *verbose)
	}
	go func() {
		// a case that doesn't end would be the end of the run.
		for range time.Tick(time.Second) {
			for i := range rn.active {
				a := &rn.active[i]
				a.mu.Lock()
				c, since := a.c, a.since
				a.mu.Unlock()
				if c != nil && time.Since(since) > hangs {
					rn.mu.Lock()
					rn.violations = append(rn.violations, violation{Property: c.Prop, Sub: c.Sub, Idx: c.Idx, Seed: c.Seed, Tier: *tier,
						What: fmt.Sprintf("the code under test doesn't return (after %v)", hangs)})
					os.Exit(done())
				}
			}
		}
	}()

	rn.max = *most
	if p.Enough > 0 {
		rn.max = min(rn.max, p.Enough)
	}
	rn.args = []string{"-prop", p.ID, "-tier", *tier, "-seed", strconv.FormatInt(*seed, 10)}
	if *child != "" {
		f := strings.Split(*child, ":")
		idx, err1 := strconv.Atoi(f[1])
		step, err2 := strconv.Atoi(f[2])
		must(err1)
		must(err2)
		rn.childStep = step + 1
		for i := range p.Subs {
			if p.Subs[i].Name == f[0] {
				for _, v := range rn.exec(&p.Subs[i], idx, 0).fails {
					fmt.Printf("failed: %s", v.What)
				}
			}
		}
		return
	}

	for i := range p.Subs {
		sub := &p.Subs[i]
		if only != nil {
			if sub.Name == only.Sub {
				rn.merge(rn.exec(sub, only.Idx, 0))
			}
			continue
		}
		n := sub.Quick
		if rn.thorough {
			n = sub.Thorough
		}
		if !sub.Serial {
			if rn.thorough {
				n *= 2
			} else {
				n *= 3 * max(1, p.More)
			}
		}
		if *scale != 1 && n > 1 {
			n = int(float64(n) * *scale)
		}
		workers := runtime.GOMAXPROCS(0)
		if sub.Serial {
			workers = 1
		}
		var next int64 = -1
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for !rn.stop.Load() {
					idx := int(atomic.AddInt64(&next, 1))
					if idx >= n {
						return
					}
					rn.merge(rn.exec(sub, idx, w))
				}
			}(w)
		}
		wg.Wait()
	}
	rn.mu.Lock()
	os.Exit(done())
}

// readKnown reads the keys of the known findings of a property.
func readKnown(path, prop string) map[string]string {
	keys := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return keys
	}
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		// known: property=<id> key=<key> <what fails>
		if len(f) >= 4 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			keys[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return keys
}

func (rn *run) finish(started time.Time, tier string, seed int64, evidence, replays string, replaying, verbose bool) int {
	sort.SliceStable(rn.violations, func(i, j int) bool {
		a, b := rn.violations[i], rn.violations[j]
		if a.Sub != b.Sub {
			return a.Sub < b.Sub
		}
		return a.Idx < b.Idx
	})
	knownKeys := rn.knownKeys
	seenKnown := map[string]int{}
	var fresh []violation
	for _, v := range rn.violations {
		if _, ok := knownKeys[v.Key]; ok && v.Key != "" {
			seenKnown[v.Key]++
			continue
		}
		fresh = append(fresh, v)
	}
	var keys []string
	for k := range seenKnown {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s, %d observations]\n", rn.prop.ID, knownKeys[k], k, seenKnown[k])
	}

	var missing []string
	for _, e := range rn.prop.MinEvents {
		if rn.events[e] == 0 {
			missing = append(missing, e)
		}
	}

	if evidence != "" {
		coverage := map[string]any{
			"evaluations":         rn.evals,
			"distinct_nontrivial": len(rn.distinct),
			"rule":                rn.prop.Rule,
			"samples":             rn.samples,
			"cases":               rn.cases,
			"cases_per_workload":  rn.perSub,
			"observed_events":     rn.events,
			"not_judged":          rn.skips,
			"known_findings_seen": seenKnown,
		}
		ev := map[string]any{
			"property": rn.prop.ID, "tier": tier, "seed": seed, "level": "exploration",
			"coverage": coverage, "wall_s": time.Since(started).Seconds(), "violations": len(fresh),
			"assumptions": assumptions,
		}
		b, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return 3
		}
		if err = os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return 3
		}
	}

	max := 3
	if verbose {
		max = 20
	}
	for i, v := range fresh {
		if i >= max {
			fmt.Printf("... and %d more violations\n", len(fresh)-max)
			break
		}
		path := "-"
		if replays != "" && !replaying {
			path = filepath.Join(replays, fmt.Sprintf("%s-%s-%d.json", v.Property, v.Sub, v.Idx))
			b, _ := json.MarshalIndent(struct {
				violation
				RunSeed int64 `json:"run_seed"`
			}{v, seed}, "", " ")
			_ = os.MkdirAll(replays, 0o755)
			if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
			}
		}
		fmt.Printf("%s/%s case %d: %s\n", v.Property, v.Sub, v.Idx, v.What)
		for _, d := range v.Context {
			fmt.Printf("    %s\n", d)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %d violations, %.1fs\n",
		rn.prop.ID, tier, seed, rn.cases, rn.evals, len(rn.distinct), len(fresh), time.Since(started).Seconds())
	if len(fresh) > 0 {
		return 1
	}
	if len(missing) > 0 && !replaying {
		fmt.Printf("INCONCLUSIVE property=%s: never observed %s\n", rn.prop.ID, strings.Join(missing, ", "))
		return 4
	}
	return 0
}

var assumptions = []string{
	"The Go toolchain, its standard library, x/text, tally, zap and yaml.v2 behave as documented.",
	"What was not executed was not checked: the claim is limited to the cases counted here.",
}
