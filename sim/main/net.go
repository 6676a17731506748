package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"
)

// The simulated network: every outbound call of the adapter and of client-go
// ends in net/http's Transport, whose RoundTrip the build redirects to
// roundTrip below.

type call struct {
	id       int
	c        *ctx
	key      string // stable name: activity label # running number
	method   string
	host     string
	path     string
	query    string
	hdr      http.Header
	body     []byte
	start    time.Duration
	handled  time.Duration // 0: never reached the server
	end      time.Duration
	fault    string
	status   int
	ok       bool // complete answer delivered
	consumed bool // and read to its end
	secret   map[string]string
	done     bool
	stream   *respBody
	note     string
	watch    bool
	reported bool
	answered bool          // a status line and headers arrived
	base     time.Duration // the instance had certainly applied everything older than this
	resent   bool          // net/http followed a redirect and sent the body again
	followed bool          // net/http followed a redirect: a GET without the original body
}

// leaked: the call (not a watch) is still going on, or its body was neither read
// nor closed.
func (cl *call) leaked() bool { return !cl.watch && (!cl.done || cl.stream != nil && !cl.stream.over) }

type reply struct {
	status int
	hdr    map[string]string
	body   []byte
	stream io.ReadCloser
}

var calls []*call

type hostState struct {
	faultsOpen   int
	lastFaultEnd time.Duration
}

func (h *hostState) open() {
	h.faultsOpen++
	anyFaultsOpen++
}

func (h *hostState) close() {
	h.faultsOpen--
	anyFaultsOpen--
	h.lastFaultEnd = now()
	anyFaultEnd = now()
}

var hosts = map[string]*hostState{}

func hostOf(h string, in *instance) *hostState {
	key := h
	if in != nil {
		key = fmt.Sprintf("%s@%d", h, in.idx)
	}
	s := hosts[key]
	if s == nil {
		s = &hostState{lastFaultEnd: -1}
		hosts[key] = s
	}
	return s
}

// healthy: no fault touched calls from in to host since t.
func healthy(host string, in *instance, t time.Duration) bool {
	s := hostOf(host, in)
	return s.faultsOpen == 0 && s.lastFaultEnd < t
}

var faultCount = map[string]int{}

func countFault(kind string) { faultCount[kind]++ }

var errReset = errors.New("read: connection reset by peer")

// waitDone blocks until the request is cancelled or d has passed (d<0: never).
func waitDone(req *http.Request, d time.Duration) error {
	if d < 0 {
		<-req.Context().Done()
		return req.Context().Err()
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-req.Context().Done():
		return req.Context().Err()
	case <-t.C:
		return errReset
	}
}

const stallLimit = 60 * time.Second // a real stack resets a dead connection eventually

var anon *ctx

func roundTrip(req *http.Request) (*http.Response, error) {
	c := curCtx()
	if c == nil {
		if anon == nil {
			anon = newCtx(&instance{idx: -1}, "anon")
		}
		c = anon
	}
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	if c.inst.dead || k.finished {
		return nil, waitDone(req, -1)
	}
	c.calls++
	cl := &call{id: len(calls), c: c, key: fmt.Sprintf("%s#%d", c.label, c.calls), method: req.Method, host: req.URL.Hostname(), path: req.URL.Path,
		query: req.URL.RawQuery, hdr: req.Header, body: body, start: now(), followed: req.Response != nil && req.Method == "GET", resent: req.Response != nil && len(body) > 0}
	cl.base = -1
	if c.inst.settled {
		cl.base = c.inst.base
	}
	calls = append(calls, cl)
	watch := strings.Contains(cl.query, "watch=")
	cl.watch = watch
	kube := cl.host == kubeHost
	if kube {
		c.kubeCalls++
	} else {
		c.idpCalls++
	}
	onSend(cl)
	r, err := deliver(cl, req, watch, kube)
	cl.done, cl.answered = true, err == nil
	cl.end = now()
	onDone(cl)
	if err != nil {
		tracef("net %s %s %s%s -> %v [%s]", cl.key, cl.method, cl.host, cl.path, err, cl.fault)
		return nil, err
	}
	tracef("net %s %s %s%s -> %d [%s]", cl.key, cl.method, cl.host, cl.path, r.StatusCode, cl.fault)
	return r, nil
}

func deliver(cl *call, req *http.Request, watch, kube bool) (*http.Response, error) {
	c := cl.c
	h := mix(k.seed, 0x7e7, hashStr(cl.key))
	fault := chooseFault(cl, h, watch)
	cl.fault = fault
	hs := hostOf(cl.host, c.inst)
	if fault != "" {
		c.faults++
		countFault(faultLabel(kube, watch) + ":" + fault)
		c.faulted = append(c.faulted, hs)
		hs.open()
		defer hs.close()
	}
	lat := func(h uint64) time.Duration {
		m := uint64(2000)
		if k.knobs.NetJitterMs > 0 && h%4 == 0 {
			m = uint64(k.knobs.NetJitterMs) * 1000
		}
		return time.Duration(50+(h>>8)%m) * time.Microsecond
	}
	l1, l2 := lat(h), lat(mix(h, 1))
	switch fault {
	case "slow":
		l2 += time.Duration(1000+(h>>13)%3000) * time.Millisecond
	case "tooslow":
		l2 += time.Duration(5200+(h>>13)%9000) * time.Millisecond
	case "lateslow": // the request itself arrives late
		l1 += time.Duration(1000+(h>>13)%7000) * time.Millisecond
	}
	c.delay += l1 + l2
	gone := func() error {
		if c.inst.dead {
			return waitDone(req, -1)
		}
		return req.Context().Err()
	}
	// a request or response in flight can be overtaken by the caller's timeout
	if err := netWait(c, siteNet, l1, req); err != nil {
		return nil, err
	}
	if err := gone(); err != nil {
		return nil, err
	}
	switch fault {
	case "refuse":
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connect: connection refused")}
	case "dns":
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("lookup: no such host")}
	case "reset":
		return nil, errReset
	case "stall":
		return nil, waitDone(req, stallFor(kube))
	}
	var rp *reply
	switch fault {
	case "err500":
		rp = &reply{status: []int{500, 502, 503, 429, 404, 403}[(h>>17)%6], body: []byte("upstream error\n"), hdr: map[string]string{"Content-Type": "text/plain"}}
		if kube {
			st := []int{500, 503, 504, 403}[(h>>17)%4]
			rp = &reply{status: st, body: []byte(fmt.Sprintf(`{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"injected","reason":"InternalError","code":%d}`, st)), hdr: jsonHdr}
		}
	case "errjson":
		rp = &reply{status: []int{400, 401, 500, 503}[(h>>17)%4], body: []byte(`{"error":"server_error","error_description":"injected"}`), hdr: jsonHdr}
	case "garbage":
		rp = &reply{status: 200, body: []byte(garbage[(h>>17)%uint64(len(garbage))]), hdr: jsonHdr}
	case "redirectloop":
		rp = &reply{status: []int{302, 302, 301, 303, 307, 308}[(h>>17)%6], body: []byte("x"), hdr: map[string]string{"Location": req.URL.String()}}
	case "redirect": // to somewhere else
		to := idps[(h>>21)%uint64(len(idps))].host
		if (h>>31)%2 == 0 {
			to = "evil.sim"
		}
		rp = &reply{status: []int{301, 302, 303, 307, 307, 308}[(h>>17)%6], body: []byte("x"), hdr: map[string]string{"Location": "http://" + to + []string{cl.path, "/c/x/token", "/collect"}[(h>>41)%3]}}
	default:
		cl.handled = now()
		if kube {
			rp = kubeServe(cl)
		} else {
			rp = idpServe(cl)
		}
	}
	stripped := fault == "strip" && rp.status == 200 && strip(cl, rp, h>>17)
	cl.status = rp.status
	if fault == "resplost" {
		return nil, waitDone(req, stallFor(kube))
	}
	if fault == "respreset" {
		return nil, errReset
	}
	if err := netWait(c, siteResp, l2, req); err != nil {
		return nil, err
	}
	if err := gone(); err != nil {
		return nil, err
	}
	res := &http.Response{StatusCode: rp.status, Status: fmt.Sprintf("%d %s", rp.status, http.StatusText(rp.status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Request: req, ContentLength: int64(len(rp.body))}
	for a, b := range rp.hdr {
		res.Header.Set(a, b)
	}
	if rp.stream != nil {
		res.ContentLength = -1
		res.Body = rp.stream
		cl.ok = true
		return res, nil
	}
	b := &respBody{cl: cl, req: req, r: bytes.NewReader(rp.body), n: len(rp.body), over: watch}
	switch fault {
	case "trunc":
		b.cut = 1 + int(h>>19)%len(rp.body)
		if b.cut >= len(rp.body) {
			b.cut = len(rp.body) - 1
		}
		b.cutErr = io.ErrUnexpectedEOF
	case "bodystall":
		b.cut = int(h>>19) % len(rp.body)
		b.stall = true
	default:
		cl.ok = !stripped
	}
	res.Body = b
	cl.stream = b
	return res, nil
}

// strip makes a good answer of the provider an incomplete one.
func strip(cl *call, rp *reply, h uint64) bool {
	what := []string{"issuer", "jwks_uri", "authorization_endpoint", "token_endpoint", "userinfo_endpoint"}[h%5]
	switch {
	case strings.HasSuffix(cl.path, "/token"):
		what = "access_token"
	case strings.HasSuffix(cl.path, "/keys"):
		what = "keys"
	}
	m := map[string]json.RawMessage{}
	if json.Unmarshal(rp.body, &m) != nil || m[what] == nil {
		return false
	}
	delete(m, what)
	b, err := json.Marshal(m)
	if err != nil {
		return false
	}
	rp.body = b
	return true
}

// netWait parks for at least d; the caller's own timeout may cut it short.
func netWait(c *ctx, site uint32, d time.Duration, req *http.Request) error {
	if d > 500*time.Millisecond {
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case <-req.Context().Done():
			return req.Context().Err()
		case <-t.C:
		}
		d = 0
	}
	park(c, site, now()+d)
	return nil
}

func faultLabel(kube, watch bool) string {
	if watch {
		return "kube-watch"
	}
	if kube {
		return "kube"
	}
	return "idp"
}

var jsonHdr = map[string]string{"Content-Type": "application/json"}

// bodies that are no valid answer to anything the adapter asks for
var garbage = []string{
	"<html><body>gateway error</body></html>",
	"{}",
	"null",
	"[]",
	"\"ok\"",
	"{\"keys\":\"none\"}",
	"{\"issuer\":\"http://x.sim\",\"jwks_uri\":\"http://evil.sim/keys\",\"authorization_endpoint\":\"http://evil.sim/authorize\",\"token_endpoint\":\"http://evil.sim/token\"}",
	"{\"issuer\":\"http://x.sim\",\"jwks_uri\":\"http://evil.sim/keys\"",
	"{\"access_token\":\"\",\"id_token\":\"\"}",
	"{\"access_token\":{\"a\":1}}",
	"{\"error\":\"temporarily_unavailable\"}",
	"\x00\x01\x02\x03",
	" ",
	"{\"keys\":{\"kid\":1}}",
}

type respBody struct {
	cl     *call
	req    *http.Request
	r      *bytes.Reader
	n      int
	cut    int
	cutErr error
	stall  bool
	read   int
	closed bool
	over   bool
}

func (b *respBody) finish() {
	b.over = true
}

func (b *respBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if b.cut > 0 || b.stall {
		if b.read >= b.cut {
			if b.stall {
				hs := hostOf(b.cl.host, b.cl.c.inst)
				hs.open()
				defer hs.close()
				return 0, waitDone(b.req, stallFor(b.cl.host == kubeHost))
			}
			return 0, b.cutErr
		}
		if len(p) > b.cut-b.read {
			p = p[:b.cut-b.read]
		}
	}
	n, err := b.r.Read(p)
	b.read += n
	if b.read == b.n {
		b.cl.consumed = true
	}
	if err == io.EOF {
		b.finish()
	}
	return n, err
}

func (b *respBody) Close() error {
	b.closed = true
	b.finish()
	return nil
}

// chooseFault: which fault, if any, hits this call.
func chooseFault(cl *call, h uint64, watch bool) string {
	for i := len(windows) - 1; i >= 0; i-- {
		w := windows[i]
		if w.Host != cl.host || w.Inst >= 0 && w.Inst != cl.c.inst.idx || now() < w.from || now() >= w.to {
			continue
		}
		if w.Match != "" && !strings.Contains(cl.path, w.Match) {
			continue
		}
		hh := mix(h, uint64(i), 0xfa)
		if int(hh%100) >= w.Pct || noFault[cl.key] {
			continue
		}
		m := w.Mode
		if m == "mix" {
			set := idpFaults
			if cl.host == kubeHost {
				set = kubeFaults
			}
			m = set[(hh>>9)%uint64(len(set))]
		}
		if watch && m != "refuse" && m != "err500" && m != "stall" {
			m = "refuse"
		}
		if m == "redirectloop" && mix(hh, 3)%2 == 0 {
			m = "redirect"
		}
		if m == "redirect" && !strings.HasSuffix(cl.path, "/token") && !strings.HasSuffix(cl.path, "/userinfo") {
			m = "redirectloop" // elsewhere, what a redirect leads to is the provider's word
		}
		if cl.host == kubeHost && (m == "redirect" || m == "strip" || m == "garbage" || m == "errjson" || m == "redirectloop") {
			m = "err500"
		}
		if m == "garbage" && cl.followed {
			m = "err500" // an answer 200 from a place redirected to would count as the provider's word
		}
		return m
	}
	return ""
}

var idpFaults = []string{"refuse", "reset", "stall", "err500", "errjson", "garbage", "trunc", "strip", "bodystall", "slow", "tooslow", "lateslow", "resplost", "respreset", "redirectloop"}
var kubeFaults = []string{"refuse", "reset", "err500", "slow", "resplost", "respreset", "trunc", "lateslow"}

type window struct {
	Fault
	from, to time.Duration
}

var windows []*window
var noFault = map[string]bool{}

// stallFor: a provider may accept a connection and never answer; a dead
// connection to the Kubernetes API is reset eventually (client-go sets no
// timeout of its own, the kernel's keep-alive ends it).
func stallFor(kube bool) time.Duration {
	if kube {
		return stallLimit
	}
	return -1
}
