package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The driver runs many simulations, each in a process of its own, and reports.

const realComponents = "real code: the adapter's server, strategies, validators, keysets, clients, policy store, controllers, initializer, handlers, config, crypto, client-go's informers, reflectors, work queues and REST client, go-jose/jwt-go, securecookie, net/http client logic above the transport, gRPC message types; " +
	"stubs: the Kubernetes API server, the identity providers, users and browsers, the network below http.Transport.RoundTrip, the system clock (testing/synctest), the operating system's random source, signals, gRPC transport and Mixer (requests enter at HandleAuthnZ)"

type outcome struct {
	sc     *Scenario
	res    *Result
	crash  string // what ended the process, if it ended early
	stderr string
}

func self() string { p, _ := os.Executable(); return p }

// execOne runs one scenario in a fresh process.
func execOne(bin string, sc *Scenario, trace bool, limit time.Duration, env ...string) *outcome {
	b, _ := json.Marshal(sc)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	args := []string{"run", "-"}
	if trace {
		args = append(args, "-trace")
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = append(append(os.Environ(), "GOTRACEBACK=all"), env...)
	t0 := time.Now()
	err := cmd.Run()
	o := &outcome{sc: sc, stderr: errb.String()}
	var r Result
	if json.Unmarshal(out.Bytes(), &r) == nil && err == nil {
		r.WallMs = time.Since(t0).Milliseconds()
		if ru, ok := cmd.ProcessState.SysUsage().(*syscall.Rusage); ok {
			r.MaxRSSMB = ru.Maxrss / 1024
		}
		o.res = &r
		return o
	}
	if ctx.Err() != nil {
		o.crash = "the process did not finish"
		return o
	}
	o.crash = firstCrashLine(o.stderr)
	if o.crash == "" {
		o.crash = fmt.Sprint(err)
	}
	return o
}

// firstCrashLine: the reason a process died, without addresses.
func firstCrashLine(s string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			site := ""
			for _, x := range lines[i:] {
				if strings.Contains(x, "app-identity-and-access-adapter/adapter/") && !strings.HasPrefix(x, "\t") {
					site = x
					if j := strings.LastIndex(site, "("); j > 0 {
						site = site[:j]
					}
					break
				}
			}
			if j := strings.Index(l, "[recovered]"); j > 0 {
				l = l[:j]
			}
			return strings.TrimSpace(l) + ifs(site != "", " in "+site, "")
		}
	}
	return ""
}

const runLimit = 100 * time.Second

// evaluate runs a scenario (twice, if it compares two random sources).
func evaluate(sc *Scenario, trace bool) *outcome {
	o := execOne(self(), sc, trace, runLimit)
	if o.res == nil && o.crash == "the process did not finish" {
		o.res = &Result{Seed: sc.Seed, Profile: sc.Profile, Violations: []*Violation{{Props: ps("C13 C15"), Kind: "hang", Msg: "the simulated process stopped making progress"}}}
	} else if o.res == nil {
		o.res = &Result{Seed: sc.Seed, Profile: sc.Profile}
		if strings.Contains(o.crash, "panic: ") || strings.Contains(o.crash, "fatal error: ") || strings.Contains(o.crash, "stack exceeds") {
			if strings.Contains(o.stderr, "verif.local/sim/main.") && !strings.Contains(o.crash, " in ") && !strings.Contains(o.crash, "deadlock") {
				o.res.HarnessErr = o.crash + "\n" + o.stderr
			} else {
				o.res.Violations = []*Violation{{Props: ps("C15"), Kind: "crash", Msg: o.crash}}
			}
		} else {
			o.res.HarnessErr = o.crash + "\n" + o.stderr
		}
	}
	if sc.Dual && o.res.HarnessErr == "" && o.crash == "" {
		c := *sc
		c.Entropy = mix(sc.Seed, 0xd0a1) | 1
		o2 := execOne(self(), &c, false, runLimit)
		if o2.res != nil {
			seen := map[string]bool{}
			for _, s := range append(o.res.Sessions, o.res.States...) {
				seen[s] = true
			}
			n, same := 0, ""
			for _, s := range o2.res.Sessions {
				if seen[s] {
					n++
					same = s
				}
			}
			st, sameState := 0, ""
			for _, s := range o2.res.States {
				if seen[s] {
					st++
					sameState = s
				}
			}
			o.res.Hash = mix(o.res.Hash, o2.res.Hash)
			if st > 0 {
				o.res.Violations = append(o.res.Violations, &Violation{Props: ps("C06"), Kind: "state does not depend on the system's random source",
					Msg: fmt.Sprintf("%d state parameters, %q among them, came out again in a second run that differs only in what the system random source returned: whoever knows the clock can forge them", st, sameState)})
			}
			if n > 0 {
				o.res.Violations = append(o.res.Violations, &Violation{Props: ps("C07"), Kind: "session id does not depend on the system's random source",
					Msg: fmt.Sprintf("%d session ids, %q among them, came out again in a second run that differs only in what the system random source returned: they follow from the clock and from values already handed out", n, same)})
			}
			if o.res.Checks != nil {
				o.res.Checks["C07.dual"] += len(o2.res.Sessions)
				o.res.Checks["C06.dual"] += len(o2.res.States)
			}
		}
	}
	return o
}

func match(r *Result, prop, kind string) *Violation {
	if r == nil {
		return nil
	}
	for _, v := range r.Violations {
		if kind != "" && v.Kind != kind {
			continue
		}
		for _, p := range v.Props {
			if p == prop {
				return v
			}
		}
	}
	return nil
}

type known struct{ prop, kind, text string }

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), "|", 3)
		if len(f) == 3 {
			out = append(out, known{strings.TrimPrefix(strings.TrimSpace(f[0]), "property="), strings.TrimSpace(f[1]), strings.TrimSpace(f[2])})
		}
	}
	return out
}

func (kn known) matches(prop string, v *Violation) bool {
	return kn.prop == prop && v.Kind == kn.kind && strings.Contains(v.Msg, kn.text)
}

// fresh: whether a result has a violation of prop that is not a known finding.
func fresh(r *Result, prop string, kn []known) bool {
	for _, v := range r.Violations {
		if match(&Result{Violations: []*Violation{v}}, prop, "") == nil {
			continue
		}
		hit := false
		for _, x := range kn {
			hit = hit || x.matches(prop, v)
		}
		if !hit {
			return true
		}
	}
	return false
}

type options struct {
	prop, tier, verif string
	seed              uint64
	seconds           int
	runs              int
	race              string
	buildS            float64
}

func driverCheck(args []string) {
	o := options{prop: args[0], tier: "quick", verif: "/verif", seed: 1, seconds: 40, runs: 1 << 30}
	for _, a := range args[1:] {
		n, v, _ := strings.Cut(a, "=")
		switch n {
		case "-tier":
			o.tier = v
		case "-verif":
			o.verif = v
		case "-seed":
			var s int64
			fmt.Sscan(v, &s)
			o.seed = uint64(s)
		case "-seconds":
			fmt.Sscan(v, &o.seconds)
		case "-runs":
			fmt.Sscan(v, &o.runs)
		case "-race":
			o.race = v
		case "-build":
			fmt.Sscan(v, &o.buildS)
		}
	}
	os.Exit(check(o))
}

// scenarioFor makes the i-th scenario of a check.
func scenarioFor(prop string, seed uint64, i int) *Scenario {
	prof := prop
	if i%6 == 5 { // the other mixes reach this property too
		var all []string
		for p := range profiles() {
			all = append(all, p)
		}
		sort.Strings(all)
		prof = all[(i/6)%len(all)]
	}
	s := mix(hashStr(prop), seed, uint64(i))
	if s == 0 {
		s = 1
	}
	sc := generate(prof, s)
	sc.Dual = prop == "C07" && i%3 == 0 || prop == "C06" && i%8 == 0
	return sc
}

func check(o options) int {
	t0 := time.Now()
	deadline := t0.Add(time.Duration(o.seconds) * time.Second)
	kn := loadKnown(filepath.Join(o.verif, "known-findings.txt"))
	workers := runtime.NumCPU()
	var mu sync.Mutex
	next := 0
	tot := newTotals()
	var bad *outcome
	badI := -1
	var badV *Violation
	knownHit := map[string]int{}
	var harness []string
	stop := false
	unrepeated := 0
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				if stop || i >= o.runs || i >= workers && time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				next++
				mu.Unlock()
				sc := scenarioFor(o.prop, o.seed, i)
				r := evaluate(sc, false)
				if fresh(r.res, o.prop, kn) && !fresh(evaluate(sc, false).res, o.prop, kn) {
					// every report has to be reproducible
					mu.Lock()
					unrepeated++
					mu.Unlock()
					r.res.Violations = nil
				}
				mu.Lock()
				tot.add(r.res, i)
				if r.res.HarnessErr != "" {
					harness = append(harness, fmt.Sprintf("profile %s seed %d: %s", sc.Profile, sc.Seed, r.res.HarnessErr))
				}
				for _, v := range r.res.Violations {
					mine := false
					for _, p := range v.Props {
						mine = mine || p == o.prop
					}
					if !mine {
						tot.other[strings.Join(v.Props, "+")+" "+v.Kind]++
						continue
					}
					skip := false
					for _, x := range kn {
						if x.matches(o.prop, v) {
							knownHit[x.kind+": "+x.text]++
							skip = true
						}
					}
					if !skip && (badI < 0 || i < badI) {
						bad, badI, badV = r, i, v
						stop = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searched := time.Since(t0)
	// the same seed must give the same execution
	det, diff := 0, 0
	if bad == nil {
		n := 4
		if o.tier == "thorough" {
			n = 32
		}
		for i := 0; i < n && i < next; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := evaluate(scenarioFor(o.prop, o.seed, i), false)
				mu.Lock()
				det++
				if r.res.Hash != tot.hashes[i] {
					diff++
				}
				mu.Unlock()
			}()
		}
		wg.Wait()
	}
	races := raceStats{}
	if o.race != "" && bad == nil {
		bad, badV = raceSearch(o, kn, &races)
		harness = append(harness, races.failed...)
	}
	for _, x := range kn {
		if x.prop == o.prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%d times in this run)\n", o.prop, x.kind, x.text, knownHit[x.kind+": "+x.text])
		}
	}
	rc := 0
	viol := 0
	if bad != nil {
		viol = 1
		rc = 1
		fmt.Printf("violation: %s: %s\n", badV.Kind, badV.Msg)
		path := report(o, bad, badV)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
	} else if len(harness) > 0 {
		rc = 2
		fmt.Fprintln(os.Stderr, "harness error:", harness[0])
	}
	if unrepeated > 0 {
		fmt.Fprintf(os.Stderr, "%d reports did not come up again when their run was repeated, and are dropped\n", unrepeated)
	}
	if diff > 0 {
		fmt.Fprintf(os.Stderr, "%d of %d repeated runs differed\n", diff, det)
	}
	writeEvidence(o, tot, t0, searched, next, viol, det, diff, unrepeated, races)
	fmt.Printf("%s: %d simulated runs in %.1f s, %.0f simulated hours, %d interleavings, %d violations\n", o.prop, tot.runs, searched.Seconds(), tot.sim/3600, len(tot.scheds), viol)
	return rc
}

type totals struct {
	runs                                       int
	sim                                        float64
	steps, switches                            uint64
	stalls, calls, requests, maxReady, nontriv int
	scheds                                     map[uint64]struct{}
	pairs                                      map[uint64]struct{}
	faults, ops, checks, other, profiles       map[string]int
	hashes                                     map[int]uint64
	samples                                    []interface{}
	maxRSS                                     int64
}

func newTotals() *totals {
	return &totals{scheds: map[uint64]struct{}{}, pairs: map[uint64]struct{}{}, faults: map[string]int{}, ops: map[string]int{}, checks: map[string]int{}, other: map[string]int{}, profiles: map[string]int{}, hashes: map[int]uint64{}}
}

func addMap(a, b map[string]int) {
	for x, n := range b {
		a[x] += n
	}
}

func (t *totals) add(r *Result, i int) {
	t.runs++
	t.sim += r.SimSeconds
	t.steps += r.Steps
	t.switches += r.Switches
	t.stalls += r.Stalls
	t.calls += r.Calls
	t.requests += r.Requests
	t.maxReady = max(t.maxReady, r.MaxReady)
	t.maxRSS = max(t.maxRSS, r.MaxRSSMB)
	if _, ok := t.scheds[r.SchedHash]; !ok {
		t.scheds[r.SchedHash] = struct{}{}
		if r.Requests > 0 && r.Switches > 20 && len(r.Checks) > 5 {
			t.nontriv++
		}
	}
	for _, p := range r.Pairs {
		t.pairs[p] = struct{}{}
	}
	addMap(t.faults, r.Faults)
	addMap(t.ops, r.Ops)
	addMap(t.checks, r.Checks)
	t.profiles[r.Profile]++
	t.hashes[i] = r.Hash
	if len(t.samples) < 3 && r.Requests > 0 {
		t.samples = append(t.samples, map[string]interface{}{"profile": r.Profile, "seed": fmt.Sprint(r.Seed), "simulated_seconds": r.SimSeconds, "steps": r.Steps, "context_switches": r.Switches,
			"requests": r.Requests, "outbound_calls": r.Calls, "operations": r.Ops, "faults": r.Faults, "schedule_hash": fmt.Sprintf("%016x", r.SchedHash), "oracle_decisions": r.Checks})
	}
}

func writeEvidence(o options, t *totals, t0 time.Time, searched time.Duration, seeds, viol, det, diff, unrepeated int, races raceStats) {
	own := map[string]int{}
	for c, n := range t.checks {
		if strings.HasPrefix(c, o.prop+".") {
			own[c] = n
		}
	}
	cov := map[string]interface{}{
		"evaluations":         t.runs,
		"distinct_nontrivial": t.nontriv,
		"rule": "one evaluation is one simulated run of the adapter in its own process: a scenario (configuration, operations, faults) and every scheduling choice are functions of the profile and the seed; " +
			"a run counts as distinct by the hash of its sequence of (activity, program point) scheduling decisions, and as non-trivial if it served requests, switched activities more than 20 times and the oracle took more than 5 kinds of decision",
		"samples":                        t.samples,
		"seeds":                          seeds,
		"runs_per_hour":                  int(float64(t.runs) / searched.Seconds() * 3600),
		"simulated_seconds":              int(t.sim),
		"simulated_seconds_per_wall":     int(t.sim / searched.Seconds()),
		"scheduling_decisions":           t.steps,
		"context_switches":               t.switches,
		"distinct_schedules":             len(t.scheds),
		"distinct_switch_pairs":          len(t.pairs),
		"switch_pair_measure":            "pairs of program points (last executed of the activity switched from, next of the activity switched to)",
		"thread_stalls":                  t.stalls,
		"max_runnable_activities":        t.maxReady,
		"requests":                       t.requests,
		"outbound_calls":                 t.calls,
		"faults_injected":                t.faults,
		"operations":                     t.ops,
		"oracle_decisions_this_property": own,
		"oracle_decisions_all":           t.checks,
		"runs_by_profile":                t.profiles,
		"violations_of_other_properties": t.other,
		"determinism_reruns":             det,
		"determinism_differences":        diff,
		"components":                     realComponents,
		"build_seconds":                  o.buildS,
		"peak_rss_mb_of_a_run":           t.maxRSS,
	}
	if unrepeated > 0 {
		cov["reports_not_repeated"] = unrepeated
	}
	if o.race != "" {
		cov["race_detector_runs"] = races.runs
		cov["race_detector_reports_raw"] = races.raw
		cov["race_detector_reports"] = races.reports
		cov["race_detector_reports_not_repeated"] = races.unrepeated
		cov["race_detector_simulated_seconds"] = int(races.sim)
	}
	ev := map[string]interface{}{"property": o.prop, "tier": o.tier, "seed": int64(o.seed), "level": "exploration", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": viol,
		"assumptions": []string{
			"the simulated Kubernetes API server and identity providers behave as the real ones do outside injected faults",
			"preemption happens at statement boundaries of the adapter and at its blocking operations; dependencies run to their next blocking operation",
			"simulated adapter instances share the adapter's package-level state",
			"requests enter at HandleAuthnZ; the gRPC transport and Mixer are not exercised",
		}}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		_ = os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(o.verif, "evidence", o.prop+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
}

// ---------------------------------------------------------------- reports

// Replay is a replay file.
type Replay struct {
	Property   string
	Kind       string
	Message    string
	Props      []string
	Race       bool `json:",omitempty"`
	Seed       uint64
	ResultHash uint64
	Shrunk     string
	Scenario   *Scenario
	Faults     []string // calls hit by an injected fault
	Schedule   []string // what happened, in order, up to the violation
}

func report(o options, bad *outcome, v *Violation) string {
	dir := filepath.Join(o.verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", o.prop, bad.sc.Seed))
	rp := &Replay{Property: o.prop, Kind: v.Kind, Message: v.Msg, Props: v.Props, Seed: bad.sc.Seed, Scenario: bad.sc, Race: v.Kind == "data race"}
	if rp.Race {
		raceReport(o, bad, v, rp)
		writeReplay(path, rp)
		return path
	}
	m := &minimiser{prop: o.prop, kind: v.Kind, deadline: time.Now().Add(60 * time.Second)}
	before := countOps(bad.sc)
	sc := m.shrink(bad.sc)
	r := evaluate(sc, true)
	if w := match(r.res, o.prop, v.Kind); w != nil {
		rp.Message, rp.Props = w.Msg, w.Props
	}
	rp.Scenario = sc
	rp.ResultHash = r.res.Hash
	rp.Shrunk = fmt.Sprintf("%d of %d operations left, after %d trial runs", countOps(sc), before, m.trials)
	for _, l := range r.res.Trace {
		if strings.Contains(l, " net ") && strings.HasSuffix(l, "]") && !strings.HasSuffix(l, "[]") {
			rp.Faults = append(rp.Faults, strings.TrimSpace(l))
		}
	}
	// keep the schedule up to the violation
	end := len(r.res.Trace)
	for i, l := range r.res.Trace {
		if strings.Contains(l, " VIOLATION ") && strings.Contains(l, v.Kind) {
			end = i + 1
			break
		}
	}
	rp.Schedule = r.res.Trace[:end]
	if len(rp.Schedule) > 6000 {
		rp.Schedule = rp.Schedule[len(rp.Schedule)-6000:]
	}
	writeReplay(path, rp)
	return path
}

func writeReplay(path string, rp *Replay) {
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err)
		os.Exit(2)
	}
}

func countOps(sc *Scenario) int {
	n := 0
	for i := range sc.Phases {
		n += len(sc.Phases[i].Ops)
	}
	return n
}

// minimiser shrinks a failing scenario. Random choices are keyed by the names
// of operations and calls, so removing one leaves the others as they were.
type minimiser struct {
	prop, kind string
	deadline   time.Time
	trials     int
	race, msg  string // a data race: the binary that shows it, and the race
}

func (m *minimiser) fails(sc *Scenario) bool {
	if m.race != "" {
		r, _ := raceEval(m.race, sc)
		return matchMsg(r.res, m.msg) != nil
	}
	return match(evaluate(sc, false).res, m.prop, m.kind) != nil
}

// first of the candidates, in order, that still fails; they run in parallel.
func (m *minimiser) first(cs []*Scenario) int {
	for lo := 0; lo < len(cs); {
		if time.Now().After(m.deadline) {
			return -1
		}
		hi := min(len(cs), lo+runtime.NumCPU())
		ok := make([]bool, hi-lo)
		var wg sync.WaitGroup
		for i := lo; i < hi; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); ok[i-lo] = m.fails(cs[i]) }()
		}
		wg.Wait()
		m.trials += hi - lo
		for i, y := range ok {
			if y {
				return lo + i
			}
		}
		lo = hi
	}
	return -1
}

func clone(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	var c Scenario
	_ = json.Unmarshal(b, &c)
	return &c
}

func withoutOps(sc *Scenario, drop map[[2]int]bool) *Scenario {
	c := clone(sc)
	for i := range c.Phases {
		var ops []Op
		for j := range c.Phases[i].Ops {
			if !drop[[2]int{i, j}] {
				ops = append(ops, c.Phases[i].Ops[j])
			}
		}
		c.Phases[i].Ops = ops
	}
	return c
}

func (m *minimiser) shrink(sc *Scenario) *Scenario {
	cur := clone(sc)
	// whole phases, last ones first
	for changed := true; changed; {
		changed = false
		var cs []*Scenario
		for i := len(cur.Phases) - 1; i >= 1; i-- {
			c := clone(cur)
			if i == len(cur.Phases)-1 {
				c.Phases = c.Phases[:i]
			} else {
				c.Phases = append(c.Phases[:i:i], c.Phases[i+1:]...)
			}
			cs = append(cs, c)
		}
		if i := m.first(cs); i >= 0 {
			cur, changed = cs[i], true
		}
	}
	// operations
	for chunk := (countOps(cur) + 1) / 2; chunk >= 1; {
		var all [][2]int
		for i := range cur.Phases {
			for j := range cur.Phases[i].Ops {
				all = append(all, [2]int{i, j})
			}
		}
		var cs []*Scenario
		for lo := len(all); lo > 0; lo -= chunk {
			drop := map[[2]int]bool{}
			for _, x := range all[max(0, lo-chunk):lo] {
				drop[x] = true
			}
			cs = append(cs, withoutOps(cur, drop))
		}
		if i := m.first(cs); i >= 0 {
			cur = cs[i]
			if n := countOps(cur); chunk > (n+1)/2 {
				chunk = max(1, (n+1)/2)
			}
			continue
		}
		if chunk == 1 {
			break
		}
		chunk = (chunk + 1) / 2
	}
	// the environment
	tries := []func(*Scenario){
		func(c *Scenario) { c.Knobs.Stall = 0 },
		func(c *Scenario) { c.Knobs.Stall, c.Knobs.YieldCold, c.Knobs.YieldHot = 0, 0, 0 },
		func(c *Scenario) { c.Knobs.YieldCold = 0 },
		func(c *Scenario) { c.Knobs.Changes = 0 },
		func(c *Scenario) { c.Knobs.Sched = "fifo" },
		func(c *Scenario) { c.Knobs.StaleList = 0 },
		func(c *Scenario) { c.Knobs.WatchLagMs = 0 },
		func(c *Scenario) { c.Knobs.NetJitterMs = 0 },
		func(c *Scenario) { c.World.Instances = 1 },
	}
	for _, f := range tries {
		c := clone(cur)
		f(c)
		if marshal(c) != marshal(cur) && m.first([]*Scenario{c}) == 0 {
			cur = c
		}
	}
	// faults
	r := evaluate(cur, true)
	var keys []string
	for _, l := range r.res.Trace {
		f := strings.Fields(l)
		if len(f) > 2 && f[1] == "net" && strings.HasSuffix(l, "]") && !strings.HasSuffix(l, "[]") {
			keys = append(keys, f[2])
		}
	}
	if len(keys) > 0 {
		c := clone(cur)
		c.NoFault = append(c.NoFault, keys...)
		if m.first([]*Scenario{c}) == 0 {
			cur = c
		} else if len(keys) <= 60 {
			for _, key := range keys {
				c := clone(cur)
				c.NoFault = append(c.NoFault, key)
				if m.first([]*Scenario{c}) == 0 {
					cur = c
				}
			}
		}
	}
	return cur
}

// driverMin shrinks the first violation of a generated or stored scenario: sim
// min PROFILE SEED [KIND]. The scenario goes to standard output.
func driverMin(args []string) {
	sc := generate(args[0], seedArg(args[1]))
	sc.Dual = args[0] == "C07"
	o := evaluate(sc, false)
	for _, v := range o.res.Violations {
		if len(args) > 2 && v.Kind != args[2] {
			continue
		}
		m := &minimiser{prop: v.Props[0], kind: v.Kind, deadline: time.Now().Add(2 * time.Minute)}
		fmt.Println(marshal(m.shrink(sc)))
		return
	}
	fmt.Fprintln(os.Stderr, "no such violation")
	os.Exit(1)
}

func driverReplay(args []string) {
	b, err := os.ReadFile(args[0])
	var rp Replay
	if err == nil {
		err = json.Unmarshal(b, &rp)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if rp.Race {
		os.Exit(replayRace(args, &rp))
	}
	o := evaluate(rp.Scenario, true)
	for _, l := range o.res.Trace {
		fmt.Println(l)
	}
	v := match(o.res, rp.Property, rp.Kind)
	switch {
	case v == nil:
		fmt.Println("not reproduced")
		os.Exit(0)
	case o.res.Hash == rp.ResultHash:
		fmt.Printf("reproduced exactly (result hash %016x)\n", o.res.Hash)
	default:
		fmt.Printf("reproduced, with a different execution (hash %016x, recorded %016x: the code has changed)\n", o.res.Hash, rp.ResultHash)
	}
	fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.Kind, v.Msg, rp.Property, args[0])
	os.Exit(1)
}
