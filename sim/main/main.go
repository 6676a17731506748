// Command sim runs the adapter in a deterministic simulation.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"

	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
	utilruntime "k8s.io/apimachinery/pkg/util/runtime"
	"k8s.io/client-go/util/workqueue"
)

type siteInfo struct {
	File string
	Line int
	Func string
}

var siteTab []siteInfo

var exitPanic = errors.New("fatal log entry: the process would exit")

// logCore swallows the adapter's log. A fatal entry ends the process; here it
// ends the goroutine that boots the instance.
type logCore struct{}

func (logCore) Enabled(l zapcore.Level) bool        { return l >= zapcore.InfoLevel }
func (c logCore) With([]zapcore.Field) zapcore.Core { return c }
func (c logCore) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if c.Enabled(e.Level) {
		return ce.AddCore(e, c)
	}
	return ce
}
func (logCore) Write(e zapcore.Entry, f []zapcore.Field) error {
	if k.traceOn {
		done := traceBracket()
		enc := zapcore.NewMapObjectEncoder()
		for _, x := range f {
			x.AddTo(enc)
		}
		l := "?"
		if c := curCtx(); c != nil {
			l = c.label
		}
		tracef("log %s: %s %v", l, e.Message, enc.Fields)
		done()
	}
	if e.Level >= zapcore.FatalLevel {
		panic(exitPanic)
	}
	return nil
}
func (logCore) Sync() error { return nil }

func usage() {
	fmt.Fprintln(os.Stderr, `usage: sim gen PROFILE SEED
       sim run SCENARIO.json [-trace]       (result on standard output)
       sim one PROFILE SEED [-trace]
       sim check PROPERTY ...               (see driver.go)
       sim replay FILE`)
	os.Exit(2)
}

func loadSites() {
	exe, _ := os.Executable()
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "sites.json"))
	if err == nil {
		err = json.Unmarshal(b, &siteTab)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "sites:", err)
		os.Exit(3)
	}
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	args := os.Args[2:]
	flag := func(name string) bool {
		for i, a := range args {
			if a == name {
				args = append(args[:i:i], args[i+1:]...)
				return true
			}
		}
		return false
	}
	switch os.Args[1] {
	case "gen":
		sc := generate(args[0], seedArg(args[1]))
		b, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(b))
	case "one":
		k.traceOn = flag("-trace")
		resultFile = os.Stdout
		b, _ := json.Marshal(generate(args[0], seedArg(args[1]))) // as a check hands it over
		var sc Scenario
		json.Unmarshal(b, &sc)
		simulate(&sc)
	case "run":
		k.traceOn = flag("-trace")
		resultFile = os.Stdout
		f := os.Stdin
		if args[0] != "-" {
			var err error
			if f, err = os.Open(args[0]); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		}
		var sc Scenario
		if err := json.NewDecoder(f).Decode(&sc); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		simulate(&sc)
	case "check":
		driverCheck(args)
	case "survey":
		driverSurvey(args)
	case "races":
		driverRaces(args)
	case "min":
		driverMin(args)
	case "replay":
		driverReplay(args)
	default:
		usage()
	}
}

func seedArg(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		usage()
	}
	return n
}

const kubeconfig = `apiVersion: v1
kind: Config
clusters: [{name: c, cluster: {server: "http://kube.sim"}}]
contexts: [{name: c, context: {cluster: c, user: u}}]
current-context: c
users: [{name: u, user: {}}]
`

// simulate runs one scenario; it does not return.
func simulate(sc *Scenario) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0 // sampling draws random numbers
	loadSites()
	curScenario = sc
	world = &sc.World
	findShared(sc)
	for _, x := range sc.NoFault {
		noFault[x] = true
	}
	dir := filepath.Join(os.TempDir(), fmt.Sprintf("simkc.%d", os.Getpid()))
	if err := os.MkdirAll(dir, 0o700); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	kc := filepath.Join(dir, "kubeconfig")
	if err := os.WriteFile(kc, []byte(kubeconfig), 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Setenv("KUBECONFIG", kc)
	cleanup = func() { os.RemoveAll(dir) }
	zap.ReplaceGlobals(zap.New(logCore{}))
	http.SimRoundTrip = roundTrip
	workqueue.SimNewQueue = func(workqueue.Interface) {}
	// The library's own error handlers pace themselves by the clock they read at
	// package initialisation (real time) while holding a lock, and log to files.
	utilruntime.ErrorHandlers = []func(error){func(err error) {
		if k.traceOn {
			tracef("kube client error: %v", err)
		}
		time.Sleep(time.Millisecond)
	}}
	installSignals()
	for i := 0; i < world.Instances; i++ {
		d := time.Duration(0)
		if i < len(world.Skew) {
			d = time.Duration(world.Skew[i]) * time.Millisecond
		}
		clocks = append(clocks, []clockSet{{-forever, d}})
	}
	time.SimSkew = func() int64 {
		if c := curCtx(); c != nil && c.inst != nil {
			cs := clocks[c.inst.idx]
			return int64(cs[len(cs)-1].ahead)
		}
		return 0
	}
	setupIdps(world)
	setupKube()
	for i := 0; i < world.Browsers; i++ {
		browsers = append(browsers, &browser{idx: i, user: fmt.Sprintf("user%d", i), jar: map[string]map[string]string{}})
	}
	insts = make([]*instance, world.Instances)
	warm()
	runtime.SimStart(sc.Seed, true)
	if sc.Entropy != 0 {
		runtime.SimEntropy(sc.Entropy)
	}
	runtime.SimBubble(func() {
		startKernel(sc)
		k.start = time.Now()
		go func() {
			runScenario(sc)
			finish()
		}()
		loop()
		select {}
	})
}

// warm fills the caches of the standard library that draw a random number when
// they are first used, so that it makes no difference whether tracing or the
// adapter gets there first.
func warm() {
	type t struct {
		A map[string]interface{} `json:"a"`
		B []*t
	}
	v := &t{A: map[string]interface{}{"x": 1}, B: []*t{{}}}
	b, _ := json.Marshal(v)
	json.Unmarshal(b, &t{})
	enc := zapcore.NewMapObjectEncoder()
	for _, f := range []zapcore.Field{zap.Error(fmt.Errorf("x: %w", os.ErrExist)), zap.Any("a", v), zap.String("s", ""), zap.Reflect("r", v)} {
		f.AddTo(enc)
	}
	_ = fmt.Sprintf("%v %+v %s %T", enc.Fields, v, v, v)
}

var cleanup = func() {}
