package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
)

// Result is what one simulated run reports.
type Result struct {
	Seed       uint64
	Profile    string
	Violations []*Violation `json:",omitempty"`
	HarnessErr string       `json:",omitempty"`
	SimSeconds float64
	Steps      uint64
	Switches   uint64
	Stalls     int
	MaxReady   int
	SchedHash  uint64
	Hash       uint64 // of everything observable in the run
	Pairs      []uint64
	Calls      int
	Requests   int
	Faults     map[string]int
	Ops        map[string]int
	Checks     map[string]int
	Sessions   []string `json:",omitempty"`
	States     []string `json:",omitempty"`
	Trace      []string `json:",omitempty"`
	WallMs     int64
	MaxRSSMB   int64
}

var curScenario *Scenario

func buildResult() *Result {
	r := &Result{Seed: curScenario.Seed, Profile: curScenario.Profile, Violations: violations, HarnessErr: harnessErr, SimSeconds: now().Seconds(),
		Steps: k.steps, Switches: k.switches, Stalls: k.stalls, MaxReady: k.maxReady, SchedHash: k.schedHash, Calls: len(calls), Requests: len(reqs),
		Faults: faultCount, Ops: opStats, Checks: checks, Sessions: sessionVals, States: stateVals}
	for p := range k.pairs {
		r.Pairs = append(r.Pairs, p)
	}
	sort.Slice(r.Pairs, func(a, b int) bool { return r.Pairs[a] < r.Pairs[b] })
	draws, picks := runtime.SimDraws()
	h := mix(k.schedHash, k.steps, draws, picks, uint64(now()), uint64(len(calls)))
	for _, rq := range reqs {
		h = mix(h, hashStr(rq.resp.String()), uint64(rq.start), uint64(rq.end))
	}
	for _, cl := range calls {
		h = mix(h, hashStr(cl.key+cl.path+cl.fault), uint64(cl.start), uint64(cl.status))
	}
	for _, v := range violations {
		h = mix(h, hashStr(fmt.Sprint(*v)))
	}
	r.Hash = h
	if k.traceOn || traceDraws {
		r.Trace = k.trace
	}
	return r
}

var resultFile *os.File

func writeResult() {
	runtime.SimStop()
	b, err := json.Marshal(buildResult())
	if err != nil {
		fmt.Fprintln(os.Stderr, "result:", err)
		os.Exit(3)
	}
	resultFile.Write(b)
	resultFile.Close()
}

func sortStrings(s []string) { sort.Strings(s) }
