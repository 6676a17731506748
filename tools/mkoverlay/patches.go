package main

type patch struct {
	mod     string // module@version the file belongs to; empty: GOROOT
	file    string
	subst   [][2]string
	content string
}

const simRuntime = `package runtime

import (
	"internal/abi"
	"internal/runtime/sys"
	"unsafe"
)

// Added by /verif: the simulator's hooks into the runtime. All of it is inert
// until SimStart is called.

var simOn bool
var simShuffle bool
var simState uint64
var simDraws uint64

// SimStart makes every random choice of the runtime (map iteration, select,
// run queue, math/rand) a function of seed; shuffle randomises the run queue.
func SimStart(seed uint64, shuffle bool) {
	simState = seed
	simState2 = seed ^ 0x5bd1e995a5a5a5a5
	simState3 = seed ^ 0x3c6ef372a54ff53a
	simDraws = 0
	simShuffle = shuffle
	simOn = true
}

func SimStop() { simOn = false; simShuffle = false }

func SimDraws() (uint64, uint64) { return simDraws, simPicks }

var simPicks uint64

// SimSave and SimRestore bracket code, such as tracing, whose draws must leave
// no mark on the run. Nothing in between may block.
func SimSave() [2]uint64     { return [2]uint64{simState, simDraws} }
func SimRestore(s [2]uint64) { simState, simDraws = s[0], s[1] }

// simDet: whether the calling code is part of the simulated program (or of the
// process's initialisation), so that its random draws have to repeat.
//
//go:nosplit
func simDet() bool {
	gp := getg()
	if gp.m == nil || gp != gp.m.curg {
		return false
	}
	return simOn && gp.bubble != nil || !simOn && gp.goid == 1
}

// simRandn stands in for the two draws of the runtime that a program can see
// besides those of maps and math/rand: the order in which select looks at its
// cases and that of timers due at the same instant. (The rest of cheaprand's
// users are caches and profiles.)
func simRandn(n uint32) uint32 {
	if simDet() {
		return uint32(simNext()>>33) % n
	}
	return cheaprandn(n)
}

var simState3 uint64

// simPick draws for the run queue, from a stream of its own.
//
//go:nosplit
func simPick(n uint32) uint32 {
	simPicks++
	simState3 += 0x9e3779b97f4a7c15
	z := simState3
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return uint32((z ^ (z >> 31)) >> 33) % n
}

//go:nosplit
func simNext() uint64 {
	simDraws++
	simState += 0x9e3779b97f4a7c15
	z := simState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

var simState2 uint64

// SimRand fills b from the run's seed; it stands in for the system's random
// source. It reports false when no run is active.
func SimRand(b []byte) bool {
	if !simOn {
		return false
	}
	for i := range b {
		simState2 += 0x9e3779b97f4a7c15
		z := simState2
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		b[i] = byte((z ^ (z >> 31)) >> 24)
	}
	return true
}

// SimEntropy reseeds the stand-in for the system's random source.
func SimEntropy(s uint64) { simState2 = s }

// SimTag is a goroutine-local value inherited by goroutines started with go.
func SimTag() uintptr     { return getg().simtag }
func SimSetTag(t uintptr) { getg().simtag = t }

// SimLive lists the goroutines started by tagged code which are not over: their
// tags and where they were started.
func SimLive(tags, starts []uintptr) int {
	n := 0
	forEachG(func(gp *g) {
		if s := readgstatus(gp) &^ _Gscan; gp.simtag != 0 && s != _Gdead && s != _Gidle && n < len(tags) {
			tags[n], starts[n] = gp.simtag, gp.gopc
			n++
		}
	})
	return n
}

// SimG identifies the calling goroutine for SimReady.
func SimG() unsafe.Pointer { return unsafe.Pointer(getg()) }

// SimPark blocks the calling goroutine until SimReady; it creates no
// happens-before edge for the race detector.
func SimPark() {
	gopark(nil, nil, waitReasonSynctestChanReceive, traceBlockGeneric, 1)
}

func SimReady(g unsafe.Pointer) {
	goready((*guintptrG)(g), 1)
}

type guintptrG = g

// SimGo, when set, is called at the start of every goroutine that tagged code
// starts with a go statement.
var SimGo func()

type simClosure struct {
	fn   uintptr
	orig *funcval
}

func simGoStart() {
	c := (*simClosure)(unsafe.Pointer(sys.GetClosurePtr()))
	SimGo()
	orig := c.orig
	f := *(*func())(unsafe.Pointer(&orig))
	f()
}

// simStartPC keeps wrapped goroutines from looking like the runtime's own.
func simStartPC(fn *funcval) uintptr {
	if fn.fn == abi.FuncPCABIInternal(simGoStart) {
		return (*simClosure)(unsafe.Pointer(fn)).orig.fn
	}
	return fn.fn
}

func simWrapGo(gp *g, fn *funcval) *funcval {
	if !simOn || SimGo == nil || gp.simtag == 0 || fn == nil {
		return fn
	}
	return (*funcval)(unsafe.Pointer(&simClosure{fn: abi.FuncPCABIInternal(simGoStart), orig: fn}))
}

// SimBubble and SimWait are testing/synctest's Run and Wait.
func SimBubble(f func()) { synctestRun(f) }
func SimWait()           { synctestWait() }
`

var patches = []patch{
	{file: "src/runtime/zz_verifsim.go", content: simRuntime},
	{file: "src/runtime/rand.go", subst: [][2]string{
		// process-wide hash seeds and startup randomness: constant
		{"\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i*7 + 1)\n\t}\n\tglobalRand.state.Init(*seed)\n"},
		{"\tmp := getg().m\n\tc := &mp.chacha8\n", "\tif simDet() {\n\t\treturn simNext()\n\t}\n\tmp := getg().m\n\tc := &mp.chacha8\n"},
	}},
	{file: "src/runtime/select.go", subst: [][2]string{
		{"\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := simRandn(uint32(norder + 1))\n"},
	}},
	{file: "src/runtime/time.go", subst: [][2]string{
		{"\t\t\tt.rand = cheaprand()\n", "\t\t\tt.rand = simRandn(1<<32 - 1)\n"},
	}},
	{file: "src/runtime/runtime2.go", subst: [][2]string{
		{"\tbubble  *synctestBubble\n", "\tbubble  *synctestBubble\n\tsimtag  uintptr\n"},
		{"\twaitReasonSynctestRun:           true,\n\twaitReasonSynctestWait:          true,\n", `	waitReasonSynctestRun:           true,
	waitReasonSynctestWait:          true,
	// Added by /verif: everything that can wake these waits is in the bubble.
	waitReasonSelect:            true,
	waitReasonChanReceive:       true,
	waitReasonChanSend:          true,
	waitReasonSyncMutexLock:     true,
	waitReasonSyncRWMutexRLock:  true,
	waitReasonSyncRWMutexLock:   true,
	waitReasonSyncWaitGroupWait: true,
`},
	}},
	{file: "src/runtime/proc.go", subst: [][2]string{
		{"newg.startpc = fn.fn\n", "newg.startpc = simStartPC(fn)\n"},
		{"\tpc := sys.GetCallerPC()\n\tsystemstack(func() {\n\t\tnewg := newproc1(fn, gp, pc, false, waitReasonZero)\n", "\tpc := sys.GetCallerPC()\n\tfn = simWrapGo(gp, fn)\n\tsystemstack(func() {\n\t\tnewg := newproc1(fn, gp, pc, false, waitReasonZero)\n"},
		{"\t\tnewg.bubble = callergp.bubble\n", "\t\tnewg.bubble = callergp.bubble\n\t\tnewg.simtag = callergp.simtag\n"},
		{"const randomizeScheduler = raceenabled\n", "const randomizeScheduler = false\n"},
		{"func retake(now int64) uint32 {\n\tn := 0\n", "func retake(now int64) uint32 {\n\tif simOn {\n\t\treturn 0\n\t}\n\tn := 0\n"},
		{"\tif randomizeScheduler && next && randn(2) == 0 {\n", "\tif simShuffle && next && (gp.bubble == nil || simPick(2) == 0) {\n"},
		{"\t\tgp := pp.runq[h%uint32(len(pp.runq))].ptr()\n\t\tif atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume\n", `		if simShuffle && t-h > 1 {
			// Added by /verif: one P, so nobody else touches this queue.
			// Goroutines of the runtime go first and cost no draw.
			o := h
			for o != t && pp.runq[o%uint32(len(pp.runq))].ptr().bubble != nil {
				o++
			}
			if o == t {
				o = h + simPick(t-h)
			}
			pp.runq[h%uint32(len(pp.runq))], pp.runq[o%uint32(len(pp.runq))] = pp.runq[o%uint32(len(pp.runq))], pp.runq[h%uint32(len(pp.runq))]
		}
		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
`},
	}},
	{file: "src/runtime/synctest.go", subst: [][2]string{
		// Waiting for quiescence is the simulator's business and orders nothing
		// in the simulated program.
		{"\tif raceenabled {\n\t\traceacquireg(gp, gp.bubble.raceaddr())\n\t}\n}\n\nfunc synctestwait_c", "}\n\nfunc synctestwait_c"},
	}},
	{file: "src/sync/pool.go", subst: [][2]string{
		// With one P, pools would order nearly everything with everything.
		{"\tif race.Enabled {\n\t\tif runtime_randn(4) == 0 {\n", "\tif race.Enabled {\n\t\tif true {\n"},
	}},
	{file: "src/internal/sync/mutex.go", subst: [][2]string{
		// starvation mode depends on the wall clock
		{"starvationThresholdNs = 1e6", "starvationThresholdNs = 1 << 62"},
	}},
	{file: "src/time/time.go", subst: [][2]string{
		// every simulated machine has a wall clock of its own
		{"func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n", `func Now() Time {
	sec, nsec, mono := runtimeNow()
	if SimSkew != nil && mono == 0 {
		// unlike in a plain bubble, times have a monotonic reading
		mono = (sec-946684800)*1e9 + int64(nsec) + 1 + startNano
		if d := SimSkew(); d != 0 {
			n := sec*1e9 + int64(nsec) + d
			sec, nsec = n/1e9, int32(n%1e9)
		}
	}
`},
		{"// Now returns the current local time.\n", "// SimSkew, added by /verif, is what the wall clock of the calling code is ahead, in\n// nanoseconds.\nvar SimSkew func() int64\n\n// Now returns the current local time.\n"},
	}},
	{file: "src/os/signal/signal.go", subst: [][2]string{
		{"func Notify(c chan<- os.Signal, sig ...os.Signal) {\n", "func Notify(c chan<- os.Signal, sig ...os.Signal) {\n\tif SimNotify != nil && SimNotify(c, sig) {\n\t\treturn\n\t}\n"},
		{"// Notify causes package signal to relay incoming signals to c.\n", "// SimNotify, added by /verif, lets the simulator deliver signals.\nvar SimNotify func(c chan<- os.Signal, sig []os.Signal) bool\n\n// Notify causes package signal to relay incoming signals to c.\n"},
	}},
	{file: "src/net/http/roundtrip.go", subst: [][2]string{
		{"// RoundTrip implements the [RoundTripper] interface.\n//\n// For", "// SimRoundTrip, added by /verif, is the simulated network.\nvar SimRoundTrip func(*Request) (*Response, error)\n\n// RoundTrip implements the [RoundTripper] interface.\n//\n// For"},
		{"\treturn t.roundTrip(req)\n", "\tif SimRoundTrip != nil {\n\t\treturn SimRoundTrip(req)\n\t}\n\treturn t.roundTrip(req)\n"},
	}},
	{file: "src/crypto/internal/sysrand/rand.go", subst: [][2]string{
		{"import (\n\t\"os\"\n", "import (\n\t\"os\"\n\t\"runtime\"\n"},
		{"func Read(b []byte) {\n", "func Read(b []byte) {\n\tif runtime.SimRand(b) {\n\t\treturn\n\t}\n"},
	}},
	{mod: "k8s.io/apimachinery@v0.0.0-20190612125636-6a5db36e93ad", file: "pkg/util/wait/wait.go", subst: [][2]string{
		// do not tick for days for a consumer that has ended with its instance
		{"\t\t\tfor {\n\t\t\t\tselect {\n\t\t\t\tcase <-tick.C:\n", "\t\t\tdrops := 0\n\t\t\tfor {\n\t\t\t\tif drops > 20000 {\n\t\t\t\t\ttick.Stop()\n\t\t\t\t}\n\t\t\t\tdrops++\n\t\t\t\tselect {\n\t\t\t\tcase <-tick.C:\n"},
		{"\t\t\t\t\tcase ch <- struct{}{}:\n", "\t\t\t\t\tcase ch <- struct{}{}:\n\t\t\t\t\t\tdrops = 0\n"},
	}},
	{mod: "k8s.io/klog@v0.3.1", file: "klog.go", subst: [][2]string{
		{"\tgo logging.flushDaemon()\n", ""},
		{"alsoToStderr bool) {\n", "alsoToStderr bool) {\n\tif s != fatalLog {\n\t\treturn\n\t}\n"},
	}},
	{mod: "github.com/golang/glog@v0.0.0-20160126235308-23def4e6c14b", file: "glog.go", subst: [][2]string{
		{"\tgo logging.flushDaemon()\n", ""},
		{"alsoToStderr bool) {\n", "alsoToStderr bool) {\n\tif s != fatalLog {\n\t\treturn\n\t}\n"},
	}},
	{mod: "k8s.io/client-go@v0.0.0-20190612125919-5c45477a8ae7", file: "util/workqueue/queue.go", subst: [][2]string{
		// a metrics-only ticker (the metrics are no-ops here)
		{"\tgo t.updateUnfinishedWorkLoop()\n\treturn t\n", "\tif SimNewQueue == nil {\n\t\tgo t.updateUnfinishedWorkLoop()\n\t}\n\treturn t\n"},
		{"const defaultUnfinishedWorkUpdatePeriod", "// SimNewQueue is added by /verif.\nvar SimNewQueue func(Interface)\n\nconst defaultUnfinishedWorkUpdatePeriod"},
	}},
	{mod: "k8s.io/client-go@v0.0.0-20190612125919-5c45477a8ae7", file: "util/workqueue/delaying_queue.go", subst: [][2]string{
		// let the simulator shut down the queues of a stopped instance (in
		// production the end of the process does that)
		{"\tgo ret.waitingLoop()\n", "\tif SimNewQueue != nil {\n\t\tSimNewQueue(ret)\n\t}\n\tgo ret.waitingLoop()\n"},
	}},
}
