package main

import (
	"fmt"
	"os"
	"runtime"
	"sync/atomic"
	"time"
	"unsafe"

	"verif.local/simrt"
)

// The kernel owns the schedule. Every goroutine of the adapter runs until it
// reaches a yield point or a seam; there it may be parked. When everything is
// parked or blocked, the kernel picks one parked task, by the run's seed.
// Nothing here uses locks or channels: there is one processor, goroutines are
// switched only by the runtime's cooperative scheduler, and the race build must
// not see any ordering that the adapter's own code does not create.

// ctx is one activity: an instance's background work, or one request.
type ctx struct {
	tag    uintptr
	inst   *instance
	req    *Req // nil: background
	yields uint64
	mark   time.Duration // start of the present count of statements
	base   uint64        // statements before
	calls  uint64
	parks  uint64
	prio   uint64
	stall  time.Duration
	label  string

	kubeCalls  int
	idpCalls   int
	keyCalls   int // calls about the key secret
	faults     int
	delay      time.Duration // network delay injected into this activity's own calls
	codePosts  map[string]int
	userinfoOK map[string]bool // tokens the provider confirmed in this activity
	faulted    []*hostState
}

func (c *ctx) bg() bool { return c.req == nil }

type task struct {
	g         unsafe.Pointer
	c         *ctx
	site      uint32
	notBefore time.Duration
	seq       uint64
	prio      uint64
}

const (
	siteNet   = 1<<31 + iota // outbound request about to be delivered
	siteResp                 // response about to be delivered
	siteStart                // a request arrives
	siteBody                 // body read
	siteGo                   // a goroutine has been started
	siteRand  = 1<<32 - 1    // inside the math/rand stand-in
)

var k struct {
	seed     uint64
	knobs    Knobs
	ctxs     []*ctx
	ready    []*task
	mainG    unsafe.Pointer
	idle     bool
	steps    uint64
	switches uint64
	progress uint64 // steps when the last request was answered
	seq      uint64
	start    time.Time
	finished bool

	schedHash   uint64
	pairs       map[uint64]struct{}
	lastSite    uint32
	lastTag     uintptr
	stalls      int
	traceOn     bool
	tracing     bool
	trace       []string
	traceTail   int
	siteClass   []uint8
	maxReady    int
	changePoint map[uint64]bool
}

func now() time.Duration { return time.Since(k.start) }

func mix(h uint64, vs ...uint64) uint64 {
	for _, v := range vs {
		h ^= v + 0x9e3779b97f4a7c15 + h<<6 + h>>2
		h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
		h = (h ^ (h >> 27)) * 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// rnd is the value of the named random choice of this run.
func rnd(name string, vs ...uint64) uint64 { return mix(mix(k.seed, hashStr(name)), vs...) }

func curCtx() *ctx {
	t := runtime.SimTag()
	if t == 0 || int(t) > len(k.ctxs) {
		return nil
	}
	return k.ctxs[t-1]
}

func newCtx(in *instance, label string) *ctx {
	c := &ctx{inst: in, label: label, codePosts: map[string]int{}, userinfoOK: map[string]bool{}}
	k.ctxs = append(k.ctxs, c)
	c.tag = uintptr(len(k.ctxs))
	c.prio = rnd("prio", hashStr(label))
	return c
}

// traceBracket keeps what tracing does (drawing random numbers, calling the
// adapter's own String and Error methods) out of the run.
func traceBracket() func() {
	saved, was := runtime.SimSave(), k.tracing
	k.tracing = true
	return func() {
		runtime.SimRestore(saved)
		k.tracing = was
	}
}

var traceDraws = os.Getenv("VERIF_DRAWS") != ""

func tracef(format string, a ...interface{}) {
	if traceDraws && !k.traceOn {
		x, y := runtime.SimDraws()
		k.trace = append(k.trace, fmt.Sprintf("{%d %d} ", x, y)+format)
		return
	}
	if !k.traceOn {
		return
	}
	defer traceBracket()()
	l := fmt.Sprintf("%12.6f ", now().Seconds()) + fmt.Sprintf(format, a...)
	if traceDraws {
		x, y := runtime.SimDraws()
		l += fmt.Sprintf(" {%d %d}", x, y)
	}
	k.trace = append(k.trace, l)
}

// hook is called in front of every statement of the adapter.
func hook(site uint32) {
	t := runtime.SimTag()
	if t == 0 || k.finished || k.tracing {
		return
	}
	c := k.ctxs[t-1]
	c.yields++
	if c.yields&0xffff == 0 && now() > c.mark+time.Hour {
		c.mark, c.base = now(), c.yields
	}
	if c.yields-c.base > 3_000_000 {
		violate(ps("C13 C15"), "livelock", "%s executed %d statements without finishing", c.label, c.yields)
		finish()
	}
	if c.inst.dead { // nothing of it runs any more
		runtime.SimPark()
		return
	}
	p := uint64(k.knobs.YieldCold)
	slow := uint64(k.knobs.Stall)
	if site == siteGo {
		p, slow = uint64(k.knobs.YieldHot), slow*20
	} else if site < uint32(len(k.siteClass)) && k.siteClass[site] != 0 || site == siteRand {
		p = uint64(k.knobs.YieldHot)
	}
	if p == 0 {
		return
	}
	h := mix(k.seed, 0x1e1d, hashStr(c.label), c.yields)
	if h%1000 >= p {
		return
	}
	var nb time.Duration
	if (h>>32)%10000 < slow && c.stall < time.Duration(k.knobs.StallMaxMs)*4*time.Millisecond {
		d := stallLen(h)
		c.stall += d
		k.stalls++
		nb = now() + d
		tracef("stall %s %v at %s", c.label, d, siteName(site))
	}
	park(c, site, nb)
}

func stallLen(h uint64) time.Duration {
	max := uint64(k.knobs.StallMaxMs)
	sh := (h >> 20) % 8
	ms := max >> sh
	if ms == 0 {
		ms = 1
	}
	return time.Duration(1+(h>>40)%ms) * time.Millisecond
}

// park blocks the calling goroutine until the kernel picks it.
func park(c *ctx, site uint32, notBefore time.Duration) {
	k.seq++
	c.parks++
	t := &task{g: runtime.SimG(), c: c, site: site, notBefore: notBefore, seq: k.seq}
	t.prio = c.prio
	k.ready = append(k.ready, t)
	wakeKernel()
	runtime.SimPark()
}

// waiter is a goroutine blocked on something the simulator will signal.
type waiter struct {
	g   unsafe.Pointer
	set bool
}

func (w *waiter) wait() {
	w.g = runtime.SimG()
	w.set = true
	runtime.SimPark()
}

func (w *waiter) wake() {
	if w.set {
		w.set = false
		runtime.SimReady(w.g)
	}
}

// sleepUntilOrWake blocks until wake or until the simulated time t.
func (w *waiter) waitUntil(t time.Duration) (timedOut bool) {
	d := t - now()
	if d <= 0 {
		return true
	}
	fired := false
	tm := time.AfterFunc(d, func() {
		if w.set {
			fired = true
			w.wake()
		}
	})
	w.wait()
	tm.Stop()
	return fired
}

func wakeKernel() {
	if k.idle {
		k.idle = false
		runtime.SimReady(k.mainG)
	}
}

// loop is the scheduler; it runs on the bubble's main goroutine.
func loop() {
	k.mainG = runtime.SimG()
	for {
		runtime.SimWait()
		if k.finished {
			return
		}
		if len(k.ready) == 0 {
			k.idle = true
			runtime.SimPark()
			k.idle = false
			continue
		}
		// runnable now?
		n := now()
		best := -1
		cnt := 0
		var first time.Duration = 1<<62 - 1
		k.steps++
		for i, t := range k.ready {
			if t.c.inst.dead {
				best = i
				cnt = 1
				break
			}
			if t.notBefore > n {
				if t.notBefore < first {
					first = t.notBefore
				}
				continue
			}
			cnt++
			if best < 0 || better(t, k.ready[best], cnt) {
				best = i
			}
		}
		if cnt > k.maxReady {
			k.maxReady = cnt
		}
		if best < 0 {
			// everything is stalled: let time pass, but react to new tasks
			k.idle = true
			tm := time.AfterFunc(first-n, wakeKernel)
			runtime.SimPark()
			k.idle = false
			tm.Stop()
			continue
		}
		t := k.ready[best]
		k.ready = append(k.ready[:best], k.ready[best+1:]...)
		if k.changePoint[k.steps] {
			t.c.prio = uint64(len(k.changePoint)) - 1
			t.c.prio = mix(k.seed, k.steps) >> 40
		}
		if t.c.tag != k.lastTag {
			k.switches++
			k.pairs[uint64(k.lastSite)<<32|uint64(t.site)] = struct{}{}
		}
		k.lastTag, k.lastSite = t.c.tag, t.site
		k.schedHash = mix(k.schedHash, uint64(t.c.tag), uint64(t.site))
		if k.traceOn {
			tracef("run %s at %s", t.c.label, siteName(t.site))
		}
		if k.steps > k.progress+uint64(k.knobs.MaxSteps) {
			violate(ps("C13 C15"), "the adapter does not come to rest", "%d steps without an end; last: %s at %s", k.knobs.MaxSteps, t.c.label, siteName(t.site))
			fatal("")
		}
		runtime.SimReady(t.g)
		// distinct clock readings, and a chance for timers to fire; a crowd
		// shares the processors of a machine, not a single slow one
		tick := uint64(k.knobs.TickUs) / uint64(1+cnt/8)
		time.Sleep(time.Duration(1+mix(k.seed, 7, k.steps)%max(tick, 1)) * time.Microsecond)
	}
}

// better decides which of two runnable tasks goes first; cnt is the number of
// runnable tasks seen so far, including t.
func better(t, b *task, cnt int) bool {
	switch k.knobs.Sched {
	case "fifo":
		return t.seq < b.seq
	case "prio": // priorities per activity, changed at seeded points
		if t.prio != b.prio {
			return t.prio > b.prio
		}
		return t.seq < b.seq
	case "bglast":
		if t.c.bg() != b.c.bg() {
			return b.c.bg()
		}
	case "bgfirst":
		if t.c.bg() != b.c.bg() {
			return t.c.bg()
		}
	}
	// uniformly random
	return mix(k.seed, 11, k.steps, uint64(cnt))%uint64(cnt) == 0
}

var harnessErr string

func fatal(format string, a ...interface{}) {
	harnessErr = fmt.Sprintf(format, a...)
	finish()
}

// finish ends the run: the result is written and the process exits.
func finish() {
	k.finished = true
	cleanup()
	writeResult()
	os.Exit(0)
}

func startKernel(sc *Scenario) {
	k.seed = sc.Seed
	k.knobs = sc.Knobs
	k.pairs = map[uint64]struct{}{}
	k.siteClass = make([]uint8, len(siteTab))
	for i := range k.siteClass {
		if mix(k.seed, 0x51fe, uint64(i))%100 < uint64(k.knobs.HotPct) {
			k.siteClass[i] = 1
		}
	}
	k.changePoint = map[uint64]bool{}
	for i := 0; i < k.knobs.Changes; i++ {
		k.changePoint[rnd("change", uint64(i))%6000] = true
	}
	simrt.EpochValue = mix(k.seed, 0xe90c) | 1
	simrt.Hook = hook
	runtime.SimGo = func() { hook(siteGo) }
}

var inRun atomic.Bool

func siteName(s uint32) string {
	switch s {
	case siteNet:
		return "net:request"
	case siteResp:
		return "net:response"
	case siteStart:
		return "arrival"
	case siteBody:
		return "net:body"
	case siteGo:
		return "go"
	}
	if s == siteRand {
		return "rand"
	}
	if int(s) < len(siteTab) {
		x := siteTab[s]
		return fmt.Sprintf("%s:%d(%s)", x.File, x.Line, x.Func)
	}
	return fmt.Sprint(s)
}
