package main

import (
	"context"
	"fmt"
	"net/http"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/gogo/protobuf/types"
	policyapi "istio.io/api/policy/v1beta1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// instance is one adapter process. idx is its place in the deployment, inc
// counts its starts.
type instance struct {
	idx, inc   int
	dead       bool
	up         bool
	termed     bool
	bootAt     time.Duration
	upAt       time.Duration
	base       time.Duration // everything older than this has been superseded in this instance
	a          *adapter.AppidAdapter
	ready      chan struct{} // closed by the boot; orders it before requests
	bgctx      *ctx
	waiters    []*waiter
	sigs       []chan<- os.Signal
	upWait     []*waiter
	exited     string
	settled    bool // at rest at least once since it came up
	answers    map[string]*answer
	keysSeen   bool // has read or created the key secret
	keysSeenAt time.Duration
}

// clockSet: from a time on the wall clock of a machine is ahead by this much.
type clockSet struct{ at, ahead time.Duration }

var clocks [][]clockSet // by instance

// ahead: the least and most that the instance's wall clock is ahead in [from, to].
func (in *instance) ahead(from, to time.Duration) (lo, hi time.Duration) {
	first := true
	cs := clocks[in.idx]
	for i, c := range cs {
		if c.at > to || i+1 < len(cs) && cs[i+1].at < from {
			continue
		}
		if first || c.ahead < lo {
			lo = c.ahead
		}
		if first || c.ahead > hi {
			hi = c.ahead
		}
		first = false
	}
	return
}

var insts []*instance // current incarnation of each place
var allInsts []*instance

func bootInstance(idx int) {
	inc := 0
	if insts[idx] != nil {
		if !insts[idx].dead {
			return
		}
		inc = insts[idx].inc + 1
	}
	in := &instance{idx: idx, inc: inc, bootAt: now(), base: lastSettle, ready: make(chan struct{}), answers: map[string]*answer{}}
	insts[idx] = in
	allInsts = append(allInsts, in)
	in.bgctx = newCtx(in, fmt.Sprintf("i%d.%d", idx, inc))
	tracef("boot instance %d.%d", idx, inc)
	go func() {
		runtime.SimSetTag(in.bgctx.tag)
		defer func() {
			if r := recover(); r != nil {
				if r == exitPanic {
					in.exited = "fatal log"
					return
				}
				onPanic(in.bgctx, r, debug.Stack())
			}
		}()
		cfg := config.NewConfig()
		cfg.AdapterPort = 0
		cfg.HashKeySize.Value, cfg.BlockKeySize.Value = in.keySizes()
		s, err := adapter.NewAppIDAdapter(cfg)
		if in.dead || k.finished {
			return
		}
		if err != nil {
			in.exited = err.Error()
			return
		}
		in.a = s.(*adapter.AppidAdapter)
		close(in.ready)
		in.up = true
		in.upAt = now()
		tracef("instance %d.%d serves", idx, inc)
		for _, w := range in.upWait {
			w.wake()
		}
		in.upWait = nil
	}()
}

// keySizes: the key sizes this instance is configured with; a new deployment
// may set others than the one that created the keys.
func (in *instance) keySizes() (int, int) {
	if !world.NewSizes || (in.idx+in.inc)%2 == 0 {
		return world.HashKey, world.BlockKey
	}
	if world.HashKey == 32 {
		return 64, 32
	}
	return 32, 16
}

// waitUp blocks until the instance serves, at most d.
func (in *instance) waitUp(d time.Duration) bool {
	if in.dead || in.up {
		return in.up && !in.dead
	}
	w := &waiter{}
	in.upWait = append(in.upWait, w)
	w.waitUntil(now() + d)
	return in.up && !in.dead
}

func crashInstance(idx int) {
	in := insts[idx]
	if in == nil || in.dead {
		return
	}
	in.dead = true
	in.up = false
	tracef("crash instance %d.%d", in.idx, in.inc)
	countFault("process:crash")
	for _, w := range kube.watchers {
		if w.c.inst == in {
			w.closed = true
		}
	}
	for _, w := range in.waiters {
		w.wake()
	}
	for _, w := range in.upWait {
		w.wake()
	}
	wakeKernel()
}

func sigterm(idx int) {
	in := insts[idx]
	if in == nil || in.dead || in.termed {
		return
	}
	in.termed = true
	countFault("process:sigterm")
	for _, c := range in.sigs {
		select {
		case c <- syscall.SIGTERM:
		default:
		}
	}
}

func installSignals() {
	signal.SimNotify = func(c chan<- os.Signal, sig []os.Signal) bool {
		x := curCtx()
		if x == nil {
			return false
		}
		for _, s := range sig {
			if s == syscall.SIGTERM {
				x.inst.sigs = append(x.inst.sigs, c)
			}
		}
		return true
	}
}

// Req is one request as Mixer hands it to the adapter.
type Req struct {
	NS, Svc, Path, Method string
	Cookies, Authz        string
	Code, State, Err      string
	Variant               string
	Probe                 bool

	inst         *instance
	ctx          *ctx
	start, end   time.Duration
	startN       uint64
	endN         uint64
	knownAtStart map[string]bool
	resp         *Resp
	browser      *browser
	sess         *session // presented session, if the simulator knows it
	access       *tokInfo
	id           *tokInfo
	hasID        bool
	malformed    bool // authorization header is unusable by construction
}

func (r *Req) host() string { return svcHost(r.NS, r.Svc) }
func (r *Req) url() string  { return r.scheme() + "://" + r.host() + r.Path }

func (r *Req) scheme() string {
	if r.Svc == "svc2" {
		return "http"
	}
	return "https"
}

func svcHost(ns, svc string) string {
	if svc == "svc1" {
		return svc + "." + ns + ".sim:8443"
	}
	return svc + "." + ns + ".sim"
}

// Resp is the adapter's answer.
// answer is one that the adapter has declared valid for a while.
type answer struct {
	rs    Resp
	until time.Duration
	uses  int32
}

type Resp struct {
	Down, Hung, Crashed, Panicked bool

	Err       string // gRPC error
	Code      int32
	Msg       string
	Direct    bool
	HTTPCode  int
	Location  string
	SetCookie string
	WWWAuth   string
	Out       bool
	Authz     string
	SessCk    string
}

func (r *Resp) failed() bool { return r.Down || r.Hung || r.Crashed || r.Panicked }
func (r *Resp) ok() bool     { return !r.failed() && r.Err == "" && r.Code == 0 }
func (r *Resp) redirect() bool {
	return !r.failed() && r.Err == "" && r.Direct && r.HTTPCode == int(policyapi.Found)
}
func (r *Resp) denied() bool { return !r.ok() && !r.redirect() }

func (r *Resp) String() string {
	switch {
	case r.Down:
		return "instance down"
	case r.Hung:
		return "no answer"
	case r.Crashed:
		return "instance crashed"
	case r.Panicked:
		return "panic"
	case r.Err != "":
		return "error: " + r.Err
	case r.ok():
		if r.Out {
			return "OK with tokens " + short(r.Authz) + " cookie=" + short(r.SessCk)
		}
		return "OK"
	case r.Direct:
		return fmt.Sprintf("direct %d location=%s set-cookie=%s www-authenticate=%s msg=%s", r.HTTPCode, r.Location, short(r.SetCookie), r.WWWAuth, r.Msg)
	}
	return fmt.Sprintf("status %d %s", r.Code, r.Msg)
}

func short(s string) string {
	if len(s) > 60 {
		return s[:28] + "..." + s[len(s)-28:]
	}
	return s
}

const hangLimit = 300 * time.Second

var reqs []*Req

// issue sends rq to in, waits for the answer and has it judged.
func issue(in *instance, label string, rq *Req) *Resp {
	rs := &Resp{}
	rq.resp = rs
	rq.inst = in
	if in == nil || in.dead || !in.waitUp(120*time.Second) {
		rs.Down = true
		return rs
	}
	c := newCtx(in, label)
	c.req = rq
	rq.ctx = c
	w := &waiter{}
	in.waiters = append(in.waiters, w)
	done := false
	reqs = append(reqs, rq)
	go func() {
		runtime.SimSetTag(c.tag)
		park(c, siteStart, 0)
		if in.dead {
			return
		}
		k.seq++
		rq.startN = k.seq
		rq.start = now()
		beginReq(rq)
		tracef("request %s to instance %d: %s %s%s %s", label, in.idx, rq.Method, rq.host(), rq.Path, rq.Variant)
		r := &Resp{}
		callAdapter(in, c, rq, r)
		if in.dead || k.finished {
			return
		}
		runtime.SimSetTag(0)
		*rs = *r
		done = true
		w.wake()
	}()
	deadline := now() + hangLimit
	for !done && !in.dead && now() < deadline {
		w.waitUntil(deadline)
	}
	rq.end = now()
	if !done {
		if in.dead {
			rs.Crashed = true
		} else {
			rs.Hung = true
		}
	}
	tracef("answer %s: %s", label, rs)
	endReq(rq)
	return rs
}

func callAdapter(in *instance, c *ctx, rq *Req, rs *Resp) {
	defer func() {
		if r := recover(); r != nil {
			rs.Panicked = true
			onPanic(c, r, debug.Stack())
		}
	}()
	m := &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Name:   "sim",
		Target: &authnz.TargetMsg{Namespace: rq.NS, Service: rq.Svc, Path: rq.Path, Method: rq.Method},
		Request: &authnz.RequestMsg{Scheme: rq.scheme(), Host: rq.host(), Path: rq.Path,
			Headers: &authnz.HeadersMsg{Cookies: rq.Cookies, Authorization: rq.Authz},
			Params:  &authnz.QueryParamsMsg{Code: rq.Code, State: rq.State, Error: rq.Err},
		},
	}}
	switch rq.Variant {
	case "no:headers":
		m.Instance.Request.Headers = nil
	case "no:target":
		m.Instance.Target = nil
	case "no:params":
		m.Instance.Request.Params = nil
	case "no:request":
		m.Instance.Request = nil
	case "no:instance":
		m.Instance = nil
	}
	<-in.ready
	// the proxy answers for the adapter while an answer is declared valid
	attrs := m.String()
	if a := in.answers[attrs]; a != nil && now() < a.until && a.uses > 0 {
		a.uses--
		tracef("%s: answered by the proxy, as before", c.label)
		*rs = a.rs
		return
	}
	resp, err := in.a.HandleAuthnZ(context.Background(), m)
	if err != nil {
		rs.Err = err.Error()
		return
	}
	if resp != nil && resp.Result != nil && resp.Result.ValidDuration > 0 && resp.Result.ValidUseCount > 1 {
		defer func() {
			in.answers[attrs] = &answer{rs: *rs, until: now() + resp.Result.ValidDuration, uses: resp.Result.ValidUseCount - 1}
		}()
	}
	if resp == nil || resp.Result == nil {
		rs.Err = "empty answer"
		return
	}
	rs.Code = resp.Result.Status.Code
	rs.Msg = resp.Result.Status.Message
	for _, d := range resp.Result.Status.Details {
		var dr policyapi.DirectHttpResponse
		if types.Is(d, &dr) {
			if err := types.UnmarshalAny(d, &dr); err == nil {
				rs.Direct = true
				rs.HTTPCode = int(dr.Code)
				for n, v := range dr.Headers {
					switch strings.ToLower(n) {
					case "location":
						rs.Location = v
					case "set-cookie":
						rs.SetCookie = v
					case "www-authenticate":
						rs.WWWAuth = v
					}
				}
			}
		}
	}
	if resp.Output != nil {
		rs.Out = true
		rs.Authz = resp.Output.Authorization
		rs.SessCk = resp.Output.SessionCookie
	}
}

func parseCookie(s string) *http.Cookie {
	if s == "" {
		return nil
	}
	ck, err := http.ParseSetCookie(s)
	if err != nil {
		return nil
	}
	return ck
}

// browser is a user agent with a cookie jar.
type browser struct {
	idx  int
	user string
	jar  map[string]map[string]string // host -> name -> value
	// what this browser has seen, for confused or malicious replays
	callbacks []savedCallback
	dropped   []savedCookie // session cookies removed by a logout
	oldState  []savedCookie
}

type savedCallback struct {
	ns, svc, path, code, state, cookies string
}

type savedCookie struct{ host, name, value string }

var browsers []*browser

func (b *browser) cookies(host string) string {
	var out []string
	names := make([]string, 0, len(b.jar[host]))
	for n := range b.jar[host] {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		out = append(out, n+"="+b.jar[host][n])
	}
	// cookies of the application
	own := []string{"", "", "", "app=1", "_ga=GA1.2.3-4", "theme=dark; lang=de_DE", "prefs={\"a\":1}", "oidc-cookie=no", "oidc-cookie-=x; sid=="}
	if x := own[rnd("app cookie", uint64(b.idx), hashStr(host))%uint64(len(own))]; x != "" {
		if i := int(rnd("app cookie place", uint64(b.idx), hashStr(host)) % uint64(len(out)+1)); true {
			out = append(out[:i:i], append([]string{x}, out[i:]...)...)
		}
	}
	return strings.Join(out, "; ")
}

// unkept: why a browser would not send a cookie back to path, of the same host,
// for at least that long.
func unkept(rq *Req, ck *http.Cookie, path string, atLeast time.Duration) string {
	cp := ck.Path
	if !strings.HasPrefix(cp, "/") {
		cp = "/"
		if i := strings.LastIndex(rq.Path, "/"); i > 0 {
			cp = rq.Path[:i]
		}
	}
	if path != cp && !(strings.HasPrefix(path, cp) && (strings.HasSuffix(cp, "/") || strings.HasPrefix(path[len(cp):], "/"))) {
		return fmt.Sprintf("cookie for %s is not sent to %s", cp, path)
	}
	host := strings.Split(rq.host(), ":")[0]
	if d := strings.TrimPrefix(ck.Domain, "."); d != "" && d != host && !strings.HasSuffix(host, "."+d) {
		return "cookie for the domain " + d
	}
	if ck.Secure && rq.scheme() == "http" {
		return "secure cookie over http"
	}
	lo, _ := rq.inst.ahead(rq.start, rq.end)
	at := k.start.Add(rq.start + lo)
	switch {
	case ck.MaxAge < 0 || ck.MaxAge > 0 && time.Duration(ck.MaxAge)*time.Second < atLeast-slack:
		return fmt.Sprintf("cookie kept for %d s, not %v", ck.MaxAge, atLeast)
	case ck.MaxAge == 0 && !ck.Expires.IsZero() && ck.Expires.Sub(at) < atLeast-slack:
		return fmt.Sprintf("cookie kept for %v, not %v", ck.Expires.Sub(at), atLeast)
	}
	return ""
}

func (b *browser) store(host, set string) {
	ck := parseCookie(set)
	if ck == nil {
		return
	}
	if b.jar[host] == nil {
		b.jar[host] = map[string]string{}
	}
	if !ck.Expires.IsZero() && ck.Expires.Before(time.Now()) {
		if v, ok := b.jar[host][ck.Name]; ok {
			b.dropped = append(b.dropped, savedCookie{host, ck.Name, v})
		}
		delete(b.jar[host], ck.Name)
		return
	}
	if v, ok := b.jar[host][ck.Name]; ok && v != ck.Value {
		b.oldState = append(b.oldState, savedCookie{host, ck.Name, v})
	}
	b.jar[host][ck.Name] = ck.Value
}
