package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
)

// driverSurvey runs N seeds of each profile and lists what the oracle says:
// sim survey N FIRST [PROFILE...]
func driverSurvey(args []string) {
	var n, first int
	fmt.Sscan(args[0], &n)
	fmt.Sscan(args[1], &first)
	profs := args[2:]
	if len(profs) == 0 {
		for p := range profiles() {
			profs = append(profs, p)
		}
		sort.Strings(profs)
	}
	type job struct {
		p string
		s uint64
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	var mu sync.Mutex
	count := map[string]int{}
	ex := map[string]string{}
	tot := newTotals()
	wall := map[string]int64{}
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				sc := generate(j.p, j.s)
				sc.Dual = j.p == "C07"
				o := evaluate(sc, false)
				mu.Lock()
				tot.add(o.res, tot.runs)
				wall[j.p] += o.res.WallMs
				seen := map[string]bool{}
				for _, v := range o.res.Violations {
					key := strings.Join(v.Props, "+") + " | " + v.Kind
					if !seen[key] {
						seen[key] = true
						count[key]++
						if ex[key] == "" {
							ex[key] = fmt.Sprintf("%s %d @%.3f %s", j.p, j.s, v.At, v.Msg)
						}
					}
				}
				if o.res.HarnessErr != "" {
					l := o.res.HarnessErr
					if len(l) > 100 {
						l = l[:100]
					}
					count["HARNESS "+l]++
					ex["HARNESS "+l] = fmt.Sprintf("%s %d %s", j.p, j.s, o.res.HarnessErr)
				}
				mu.Unlock()
			}
		}()
	}
	for i := 0; i < n; i++ {
		for _, p := range profs {
			ch <- job{p, uint64(first + i)}
		}
	}
	close(ch)
	wg.Wait()
	var keys []string
	for x := range count {
		keys = append(keys, x)
	}
	sort.Slice(keys, func(a, b int) bool { return count[keys[a]] > count[keys[b]] })
	for _, x := range keys {
		m := ex[x]
		if len(m) > 700 {
			m = m[:700]
		}
		fmt.Printf("%5d %s\n      %s\n", count[x], x, m)
	}
	var cs []string
	for c, x := range tot.checks {
		cs = append(cs, fmt.Sprintf("%s=%d", c, x))
	}
	sort.Strings(cs)
	fmt.Println(strings.Join(cs, " "))
	fmt.Println("faults", tot.faults)
	fmt.Println("wall ms per run", wall, "runs", tot.runs, "max rss", tot.maxRSS)
}
