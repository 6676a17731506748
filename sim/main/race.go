package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Data races (part of C15): the same simulation, built with the race detector
// over everything but the harness. The simulated scheduler parks and wakes
// goroutines without ordering them, so two conflicting accesses count as a race
// whenever the adapter itself does not order them, whichever ran first.

type raceStats struct {
	runs, raw, reports, unrepeated int
	sim                            float64
	failed                         []string
}

type race struct{ pair, text string }

var (
	accessRE  = regexp.MustCompile(`(?m)^(?:Previous )?(?:[Rr]ead|[Ww]rite|atomic [a-z]+|Previous [a-z ]+) at 0x[0-9a-f]+ by (?:main )?goroutine[^\n]*:\n((?:  [^\n]*\n)*)`)
	adapterFn = "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter"
)

// frames of one access, innermost first.
func raceFrames(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "      ") || strings.TrimSpace(l) == "" {
			continue
		}
		l = strings.TrimSpace(l)
		if j := strings.LastIndex(l, "("); j > 0 {
			l = l[:j]
		}
		out = append(out, l)
	}
	return out
}

// owner is the innermost frame outside the standard library. Functions of the
// harness are not instrumented, so that they can be missing from a stack: what
// they do themselves has a frame main.X on top or no frame below the standard
// library's, and what they do on behalf of an outbound request has frames of
// net/http.
func raceOwner(fr []string) string {
	for _, f := range fr {
		if strings.HasPrefix(f, "main.") || strings.HasPrefix(f, "verif.local/") {
			return ""
		}
		first, _, _ := strings.Cut(f, "/")
		if strings.Contains(first, ".") && strings.Contains(f, "/") {
			return f // a module path
		}
		pkg, _, _ := strings.Cut(f, ".")
		switch pkg {
		case "net/http", "fmt", "time", "context", "net/http/internal":
			return ""
		}
	}
	return ""
}

// adapterRaces extracts the races that have the adapter's code on at least one
// side and none of the harness's.
func adapterRaces(log string) (raw int, out []race) {
	seen := map[string]bool{}
	for _, rep := range strings.Split(log, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		raw++
		ms := accessRE.FindAllStringSubmatch(rep, -1)
		if len(ms) != 2 {
			continue
		}
		a, b := raceOwner(raceFrames(ms[0][1])), raceOwner(raceFrames(ms[1][1]))
		if a == "" || b == "" || !strings.HasPrefix(a, adapterFn) && !strings.HasPrefix(b, adapterFn) {
			continue
		}
		p := []string{shortFn(a), shortFn(b)}
		sort.Strings(p)
		key := p[0] + " and " + p[1]
		if !seen[key] {
			seen[key] = true
			out = append(out, race{key, strings.TrimSpace(rep)})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].pair < out[j].pair })
	return raw, out
}

func shortFn(s string) string {
	s = strings.TrimPrefix(s, adapterFn+"/")
	return strings.TrimSuffix(strings.TrimSuffix(s, "()"), "(")
}

// raceEval runs a scenario in the race build.
func raceEval(bin string, sc *Scenario) (*outcome, int) {
	dir, err := os.MkdirTemp("", "simrace")
	if err != nil {
		return &outcome{sc: sc, res: &Result{HarnessErr: err.Error()}}, 0
	}
	defer os.RemoveAll(dir)
	o := execOne(bin, sc, false, 2*runLimit, "GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path="+filepath.Join(dir, "r"))
	if o.res == nil {
		o.res = &Result{Seed: sc.Seed, Profile: sc.Profile, HarnessErr: o.crash}
	}
	o.res.Violations = nil
	fs, _ := filepath.Glob(filepath.Join(dir, "r.*"))
	log := ""
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		log += string(b)
	}
	raw, rs := adapterRaces(log)
	for _, r := range rs {
		o.res.Violations = append(o.res.Violations, &Violation{Props: ps("C15"), Kind: "data race", Msg: r.pair})
		o.stderr += r.text + "\n"
	}
	return o, raw
}

// raceScenario: one adapter that never restarts, for simulated instances share
// the adapter's package-level state, which separate processes do not.
func raceScenario(seed uint64, i int) *Scenario {
	var all []string
	for p := range profiles() {
		all = append(all, p)
	}
	sort.Strings(all)
	s := mix(hashStr("race"), seed, uint64(i))
	prof := "race"
	if i%2 == 1 {
		prof = all[(i/2)%len(all)]
	}
	sc := generate(prof, s|1)
	if i%8 == 0 {
		// the cookie keys are made while requests are already there
		for j := range sc.Phases[0].Ops {
			if o := &sc.Phases[0].Ops[j]; o.Kind == "boot" {
				o.At = 0
			}
		}
		f := Op{ID: 1 << 20, Kind: "fault", Fault: &Fault{Host: kubeHost, Inst: -1, Mode: "err500", Match: "secrets", Pct: 100, DurMs: 100 + int(s%3000)}}
		sc.Phases[0].Ops = append([]Op{f}, sc.Phases[0].Ops...)
	}
	sc.World.Instances = 1
	for p := range sc.Phases {
		var ops []Op
		for _, o := range sc.Phases[p].Ops {
			switch o.Kind {
			case "crash", "sigterm":
				continue
			case "boot":
				if o.Inst != 0 {
					continue
				}
			}
			o.Inst, o.CbInst = 0, 0
			ops = append(ops, o)
		}
		sc.Phases[p].Ops = ops
	}
	return sc
}

func raceSearch(o options, kn []known, st *raceStats) (*outcome, *Violation) {
	secs := 25
	if o.tier == "thorough" {
		secs = 240
	}
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := 0
	var bad *outcome
	var badV *Violation
	badI := -1
	workers := runtime.NumCPU()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				if badI >= 0 || i >= workers && time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				next++
				mu.Unlock()
				sc := raceScenario(o.seed, i)
				r, raw := raceEval(o.race, sc)
				var again *outcome
				if fresh(r.res, "C15", kn) {
					again, _ = raceEval(o.race, sc)
				}
				mu.Lock()
				st.runs++
				st.raw += raw
				st.sim += r.res.SimSeconds
				if r.res.HarnessErr != "" {
					st.failed = append(st.failed, r.res.HarnessErr)
				}
				for _, v := range r.res.Violations {
					st.reports++
					if !fresh(&Result{Violations: []*Violation{v}}, "C15", kn) {
						continue
					}
					if matchMsg(again.res, v.Msg) == nil {
						st.unrepeated++
						continue
					}
					if badI < 0 || i < badI {
						bad, badV, badI = r, v, i
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return bad, badV
}

func matchMsg(r *Result, msg string) *Violation {
	for _, v := range r.Violations {
		if v.Msg == msg {
			return v
		}
	}
	return nil
}

func raceReport(o options, bad *outcome, v *Violation, rp *Replay) {
	m := &minimiser{prop: o.prop, kind: v.Kind, deadline: time.Now().Add(60 * time.Second), race: o.race, msg: v.Msg}
	before := countOps(bad.sc)
	sc := m.shrink(bad.sc)
	r, _ := raceEval(o.race, sc)
	if matchMsg(r.res, v.Msg) == nil {
		sc, r = bad.sc, bad
	}
	rp.Scenario, rp.ResultHash = sc, r.res.Hash
	rp.Shrunk = fmt.Sprintf("%d of %d operations left, after %d trial runs", countOps(sc), before, m.trials)
	rp.Schedule = strings.Split(r.stderr, "\n")
}

// replayRace re-runs a recorded race: sim replay FILE RACEBINARY.
func replayRace(args []string, rp *Replay) int {
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "a data race is replayed with the race build: sim replay FILE RACEBINARY")
		return 2
	}
	for i := 0; i < 3; i++ {
		r, _ := raceEval(args[1], rp.Scenario)
		if r.res.HarnessErr != "" {
			fmt.Fprintln(os.Stderr, r.res.HarnessErr)
			return 2
		}
		if matchMsg(r.res, rp.Message) == nil {
			continue
		}
		fmt.Println(r.stderr)
		if r.res.Hash == rp.ResultHash {
			fmt.Printf("reproduced exactly (result hash %016x)\n", rp.ResultHash)
		} else {
			fmt.Printf("reproduced, with a different execution (hash %016x, recorded %016x)\n", r.res.Hash, rp.ResultHash)
		}
		fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", rp.Kind, rp.Message, rp.Property, args[0])
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

// driverRaces surveys: sim races RACEBINARY SEED N
func driverRaces(args []string) {
	var seed uint64
	var n int
	fmt.Sscan(args[1], &seed)
	fmt.Sscan(args[2], &n)
	var mu sync.Mutex
	var wg sync.WaitGroup
	pairs := map[string]string{}
	count := map[string]int{}
	next := 0
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= n {
					return
				}
				r, _ := raceEval(args[0], raceScenario(seed, i))
				mu.Lock()
				if r.res.HarnessErr != "" {
					count["HARNESS "+r.res.HarnessErr]++
				}
				for _, v := range r.res.Violations {
					count[v.Msg]++
					if pairs[v.Msg] == "" {
						pairs[v.Msg] = fmt.Sprintf("run %d\n%s", i, r.stderr)
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for p, c := range count {
		fmt.Println(c, p)
		fmt.Println(pairs[p])
	}
	fmt.Println("runs", n)
}
