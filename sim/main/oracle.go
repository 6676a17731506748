package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/gorilla/securecookie"
	"gopkg.in/mgo.v2/bson"
)

// The oracle: safety checks on every outbound call and every answer, and
// exact expectations where the model leaves only one correct behaviour.

type Violation struct {
	Props []string
	Kind  string
	Msg   string
	At    float64
}

var violations []*Violation

func violate(props []string, kind, format string, a ...interface{}) {
	v := &Violation{Kind: kind, Msg: fmt.Sprintf(format, a...), At: now().Seconds()}
	seen := map[string]bool{}
	for _, p := range props {
		if p != "" && !seen[p] {
			seen[p] = true
			v.Props = append(v.Props, p)
		}
	}
	sort.Strings(v.Props)
	tracef("VIOLATION %v %s: %s", v.Props, kind, v.Msg)
	if len(violations) < 40 {
		violations = append(violations, v)
	}
}

func ps(s string) []string { return strings.Fields(s) }

// checks counts the decisions the oracle took, by name.
var checks = map[string]int{}

func checked(name string) { checks[name]++ }

var lastSettle time.Duration = -1
var anyFaultEnd time.Duration = -1
var anyFaultsOpen int

// margin: how long a background activity may take to digest a failed call.
func margin() time.Duration {
	return 3*time.Second + 5*time.Duration(k.knobs.StallMaxMs)*time.Millisecond
}

const slack = 1100 * time.Millisecond // precision of token times

// ---------------------------------------------------------------- sessions

type session struct {
	value, client, cookie string
	inst                  *instance
	login                 *login
	access, id, refresh   *tokInfo
	issue                 int
	known                 bool // the adapter certainly holds exactly these tokens
	loggedOut             time.Duration
	logoutBegun           time.Duration
	made                  time.Duration
	refreshed             int
	changed               time.Duration // when the present tokens were first seen
	oldAccess, oldID      *tokInfo      // the tokens they replaced
}

var sessions = map[string]*session{} // by cookie value
var sessionVals []string             // in order

type stateRec struct {
	cookie, name, state, client string
	issued, issuedEnd           time.Duration // issued in this interval
	inst                        *instance
	rq                          *Req
	cfg                         *objVer
}

var stateByCookie = map[string]*stateRec{}
var statesSeen = map[string]bool{}
var stateVals []string

func cookieName(client string) string { return "oidc-cookie-" + url.QueryEscape(client) }

func (r *Req) cookie(name string) string {
	q := http.Request{Header: http.Header{"Cookie": {r.Cookies}}}
	c, err := q.Cookie(name)
	if err != nil {
		return ""
	}
	return c.Value
}

func (r *Req) isCallback() bool { return strings.HasSuffix(r.Path, cbSuffix) }
func (r *Req) isLogout() bool   { return strings.HasSuffix(r.Path, loSuffix) }
func (r *Req) exchanges() bool  { return r.isCallback() && r.Err == "" && r.Code != "" }

// open requests, for overlap questions
var openReqs []*Req

func beginReq(rq *Req) {
	openReqs = append(openReqs, rq)
	rq.knownAtStart = map[string]bool{}
	for _, v := range rq.cookieValues() {
		if s := sessions[v]; s != nil && s.known {
			rq.knownAtStart[v] = true
		}
	}
	if rq.isLogout() {
		for _, v := range rq.cookieValues() {
			if s := sessions[v]; s != nil && s.inst == rq.inst && s.logoutBegun < 0 && logsOut(rq, s) {
				s.logoutBegun = now()
			}
		}
	}
}

// logsOut: may (or will) this logout request end session s?
func logsOut(rq *Req, s *session) bool {
	if rq.cookie(cookieName(s.client)) != s.value {
		return false
	}
	return true
}

func (r *Req) cookieValues() []string {
	q := http.Request{Header: http.Header{"Cookie": {r.Cookies}}}
	var out []string
	for _, c := range q.Cookies() {
		out = append(out, c.Value)
	}
	return out
}

// overlapping: other requests at the same instance that present value and ran
// at some moment of rq.
func (rq *Req) overlapping(value string) []*Req {
	var out []*Req
	for _, o := range reqs {
		if o == rq || o.ctx == nil || o.inst != rq.inst || o.start == 0 && o.startN == 0 {
			continue
		}
		if o.endN != 0 && o.endN < rq.startN {
			continue
		}
		for _, v := range o.cookieValues() {
			if v == value {
				out = append(out, o)
				break
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- key knowledge

// stored: whether what cl fetched has certainly reached the key set by time at.
func stored(cl *call, at time.Duration) bool {
	if r := cl.c.req; r != nil {
		return r.endN != 0 && r.end < at
	}
	return cl.end+margin() < at
}

// knownKids: the keys the key set at host/path certainly holds at in at a time:
// those of the last complete fetch before, unless background work may have
// replaced the set.
func knownKids(in *instance, v *objVer, host, path string, at time.Duration) (map[string]bool, bool) {
	if sharedURLs[v.url()] {
		return nil, false
	}
	var kids map[string]bool
	ok, last := false, time.Duration(0)
	for _, f := range keyFetches[fetchKey(in, host, path)] {
		full := f.cl.ok && f.cl.consumed
		switch {
		case !v.sure(f.cl):
			kids, ok = nil, false
		case full && stored(f.cl, at):
			kids, ok, last = f.kids, true, f.cl.start
		case full && f.cl.start > at:
		case full && f.cl.c.bg() && v.from > in.base:
			ok = false // stored a little later
		case full:
			both := map[string]bool{}
			for id := range kids {
				both[id] = f.kids[id]
			}
			kids = both
		case f.cl.c.bg() && (!in.settled || v.from > in.base || f.cl.start < in.base):
			// the configuration was applied again and its fetch failed
			ok = false
		}
	}
	if !ok {
		return kids, ok
	}
	for _, cl := range calls {
		if cl.host == host && cl.path == path && cl.c.inst == in && cl.c.bg() && (!cl.ok || cl.handled == 0) && (!cl.done || cl.end > last) &&
			(!in.settled || v.from > in.base || cl.start < in.base) && cl.start <= at {
			return nil, false // applied again, after a stale list perhaps, and its fetch failed
		}
	}
	return kids, ok
}

// straggler: whether a key set that has (or lacks) kid may yet reach the
// instance at time at.
func straggler(in *instance, host, path, kid string, has bool, at time.Duration) bool {
	for _, f := range keyFetches[fetchKey(in, host, path)] {
		if f.kids[kid] == has && (!f.cl.done || !stored(f.cl, at)) {
			return true
		}
	}
	return false
}

type verdict int

const (
	unknown verdict = iota
	accept
	reject
)

func (v verdict) String() string { return [...]string{"unknown", "accept", "reject"}[v] }

// keysAt is where a configuration version gets its keys from.
func keysAt(v *objVer) (host, path string) {
	if v.jwt != nil {
		h, c := cfgOf(v.jwt.JwksURL)
		return h, "/j/" + c + "/keys"
	}
	h, c := cfgOf(v.oidc.DiscoveryURL)
	return h, "/c/" + c + "/keys"
}

// judge decides whether a JWT is valid under a configuration and rules for the
// whole of [start, end] at in.
func judge(in *instance, t *tokInfo, kind string, v *objVer, rules []Rule, start, end time.Duration) (verdict, string) {
	if t == nil || !t.jwt {
		return reject, "no token"
	}
	host, path := keysAt(v)
	p := idpOfHost(host)
	if p == nil {
		return reject, "unknown provider"
	}
	if !t.goodSig {
		return reject, "signature"
	}
	var key *idpKey
	for _, kk := range p.keys {
		if kk.kid == t.kid {
			key = kk
		}
	}
	if key == nil || t.idp != p.idx {
		return reject, "key of nobody the policy trusts"
	}
	if key.from > end {
		return reject, "key not published"
	}
	if t.odd {
		return unknown, "odd claims"
	}
	lo, hi := in.ahead(start, end)
	if t.exp <= start+lo-slack {
		return reject, "expired"
	}
	if t.nbf >= end+hi+slack {
		return reject, "not yet valid"
	}
	if !evalRules(rules, kind, t.claims) {
		return reject, "rules"
	}
	res := accept
	why := ""
	if t.exp <= end+hi+slack || t.nbf >= start+lo-slack {
		res, why = unknown, "time boundary"
	}
	kids, known := knownKids(in, v, host, path, start)
	if key.to <= end {
		// withdrawn: certain only if the instance has seen a key set without it
		if key.to < start && v.from <= in.base && in.settled && known && !kids[t.kid] && lacked(in, host, path, t.kid, key.to, start) && !straggler(in, host, path, t.kid, true, start) {
			return reject, "key withdrawn"
		}
		return unknown, "key withdrawn"
	}
	if known && kids[t.kid] {
		if straggler(in, host, path, t.kid, false, start) {
			return unknown, "older key set may arrive"
		}
		return res, why
	}
	if !healthy(host, in, start-margin()) {
		return unknown, "provider unhealthy"
	}
	for _, cl := range calls {
		if cl.host == host && cl.path == path && cl.c.inst == in && cl.start <= key.from+10*time.Millisecond && (!cl.done || !stored(cl, start)) {
			return unknown, "older key set may be shared"
		}
	}
	if key.from > start {
		return unknown, "key just published"
	}
	return res, why
}

// lacked: whether, before start, a request that is over had fetched the key set
// completely and without kid, in a fetch begun after t.
func lacked(in *instance, host, path, kid string, t, start time.Duration) bool {
	for _, f := range keyFetches[fetchKey(in, host, path)] {
		r := f.cl.c.req
		if f.cl.ok && f.cl.consumed && f.cl.start > t && f.cl.end < start && r != nil && r.endN != 0 && r.end < start && !f.kids[kid] {
			return true
		}
	}
	return false
}

// bearer: the verdict on the credentials of a request under a JWT policy.
func bearer(rq *Req, in *instance, v *objVer, pp *PathPolicy, end time.Duration) (verdict, string) {
	if v.absent {
		return reject, "configuration missing"
	}
	if rq.malformed || rq.Authz == "" {
		return reject, "no usable bearer token"
	}
	r, why := judge(in, rq.access, "access", v, pp.Rules, rq.start, end)
	if r == reject {
		return r, "access token: " + why
	}
	if rq.hasID {
		r2, why2 := judge(in, rq.id, "id", v, pp.Rules, rq.start, end)
		if r2 == reject {
			return r2, "ID token: " + why2
		}
		if r2 == unknown {
			r, why = r2, why2
		}
	}
	return r, why
}

// oidcRules: a policy's rules, or the documented default.
func oidcRules(pp *PathPolicy, v *objVer) []Rule {
	if pp.Rules != nil {
		return pp.Rules
	}
	return []Rule{{Claim: "aud", Match: "ANY", Values: []string{v.oidc.ClientID}}}
}

// ---------------------------------------------------------------- outbound calls

func onSend(cl *call) {
	if cl.host == kubeHost {
		return
	}
	c := cl.c
	checked("C12.outbound")
	isToken := strings.HasSuffix(cl.path, "/token")
	leakCheck(cl, isToken)
	if cl.resent {
		violate(ps("C12"), "request body sent on by a redirect", "%s: %s%s", c.label, cl.host, cl.path)
		return
	}
	if !isToken || cl.followed {
		return
	}
	rq := c.req
	if rq == nil {
		violate(ps("C12"), "token call outside a request", "%s sent %s to %s%s", c.label, cl.body, cl.host, cl.path)
		return
	}
	form, _ := url.ParseQuery(string(cl.body))
	id, secret := form.Get("client_id"), form.Get("client_secret")
	method := "client_secret_post"
	if u, p, ok := basicAuth(cl); ok {
		if secret != "" {
			violate(ps("C12"), "client secret sent by two methods", "%s: %s%s has an Authorization header and a client_secret parameter", c.label, cl.host, cl.path)
		}
		id, secret, method = u, p, "client_secret_basic"
	}
	// which configuration authorises this call?
	var cfg *objVer
	var mism []string
	versions := 0
	for _, a := range actions(rq.inst, rq.NS, rq.Svc, rq.Path, rq.Method, now()) {
		if a.typ() != "oidc" {
			continue
		}
		for _, v := range configs(rq.inst, rq.NS, a.pp, now()) {
			versions++
			if v.absent {
				continue
			}
			h, cf := cfgOf(v.oidc.DiscoveryURL)
			m := v.oidc.AuthMethod
			if m == "" {
				m = "client_secret_basic"
			}
			switch {
			case h != cl.host || cl.path != "/c/"+cf+"/token":
				mism = append(mism, "token endpoint")
			case v.oidc.ClientID != id:
				mism = append(mism, "client id "+id)
			case m != method:
				mism = append(mism, "authentication method "+method)
			case !secretAllowed(rq.inst, v, secret):
				mism = append(mism, "client secret "+secret)
			default:
				cfg = v
			}
		}
	}
	if cfg == nil {
		mismatch := "C12 C03"
		if versions > 1 {
			mismatch = "C12 C20"
		}
		violate(ps(mismatch), "token call not matching any configuration in force", "%s: %s%s client %s (%s): wrong %s", c.label, cl.host, cl.path, id, method, strings.Join(mism, "; "))
	}
	if form.Get("grant_type") == "refresh_token" {
		t := tokens[form.Get("refresh_token")]
		if t == nil || t.kind != "refresh" || t.login.client != id {
			violate(ps("C12"), "refresh token of another client", "%s sent refresh token %s as client %s", c.label, form.Get("refresh_token"), id)
			return
		}
		s := sessions[rq.cookie(cookieName(id))]
		if s == nil || s.login != t.login {
			violate(ps("C07 C12"), "refresh token of a session the request did not present", "%s sent refresh token of login %d", c.label, t.login.id)
		}
		return
	}
	checked("C12.code")
	code := form.Get("code")
	c.codePosts[code]++
	if c.codePosts[code] > 1 || len(c.codePosts) > 1 {
		violate(ps("C12"), "code sent more than once", "%s sent code %q %d times", c.label, code, c.codePosts[code])
	}
	if !rq.exchanges() || code != rq.Code {
		violate(ps("C12 C06"), "code the request does not carry", "%s sent code %q, the request has %q", c.label, code, rq.Code)
	}
	if form.Get("redirect_uri") != rq.url() {
		violate(ps("C12"), "wrong redirect_uri", "%s sent redirect_uri %q for %q", c.label, form.Get("redirect_uri"), rq.url())
	}
	if why := stateInvalid(rq, id); why != "" {
		violate(ps("C06"), "code exchanged without valid login state", "%s (%s) as client %s: %s", c.label, rq.Variant, id, why)
	}
	checked("C06.exchange")
}

// stateInvalid: why the login state a callback presents is certainly not good.
func stateInvalid(rq *Req, client string) string {
	v := rq.cookie(cookieName(client))
	st := stateByCookie[v]
	switch {
	case v == "":
		return "no state cookie"
	case st == nil:
		return "state cookie never issued"
	case st.name != cookieName(client):
		return "state cookie of " + st.name
	case rq.State == "" || rq.State != st.state:
		return fmt.Sprintf("state %q, sealed %q", rq.State, st.state)
	}
	lo, _ := rq.ctx.inst.ahead(rq.start, now())
	_, hi := st.inst.ahead(st.issued, st.issuedEnd)
	if rq.start+lo-st.issuedEnd-hi > time.Hour+2*time.Second {
		return "state expired"
	}
	return ""
}

// stateGood: the state is certainly good.
func stateGood(rq *Req, client string, end time.Duration) bool {
	st := stateByCookie[rq.cookie(cookieName(client))]
	if stateInvalid(rq, client) != "" {
		return false
	}
	_, hi := rq.ctx.inst.ahead(rq.start, end)
	lo, _ := st.inst.ahead(st.issued, st.issuedEnd)
	return end+hi-st.issued-lo < time.Hour-2*time.Second
}

func leakCheck(cl *call, isToken bool) {
	full := cl.host + cl.path + "?" + cl.query
	hdr := ""
	for _, n := range []string{"Authorization", "Cookie", "Referer", "X-Filter-Type"} {
		hdr += cl.hdr.Get(n) + "\n"
	}
	bad := func(what, s string) {
		if s == "" {
			return
		}
		if strings.Contains(full, s) || strings.Contains(full, url.QueryEscape(s)) {
			violate(ps("C12"), what+" in a URL", "%s: %s", cl.c.label, full)
		}
		if !isToken && (strings.Contains(hdr, s) || strings.Contains(string(cl.body), s)) {
			violate(ps("C12"), what+" sent elsewhere", "%s: %s", cl.c.label, full)
		}
	}
	if rq := cl.c.req; rq != nil && len(rq.Code) > 5 {
		bad("code", rq.Code)
	}
	for i := range world.Clients {
		for _, s := range world.Clients[i].Secrets {
			bad("client secret", s)
		}
	}
	for _, v := range sessionVals {
		if s := sessions[v]; s.refresh != nil {
			bad("refresh token", s.refresh.raw)
		}
	}
}

// secretReads: what reads of a client's secret returned at an instance.
type secretRead struct {
	in    *instance
	path  string
	start time.Duration
	ok    bool
	data  map[string]string
}

var secretReads []*secretRead

// secretAllowed: may version v be used with this client secret?
func secretAllowed(in *instance, v *objVer, secret string) bool {
	r := v.oidc.ClientSecretRef
	if r == nil || r.Name == "" || r.Key == "" {
		return secret == v.oidc.ClientSecret
	}
	path := "/api/v1/namespaces/" + v.ns + "/secrets/" + r.Name
	fallback := false
	for _, s := range secretReads {
		if s.in != in || s.path != path || s.start < v.from {
			continue
		}
		if s.ok && s.data[r.Key] != "" {
			if s.data[r.Key] == secret {
				return true
			}
		} else {
			fallback = true
		}
	}
	return fallback && secret == v.oidc.ClientSecret
}

// onDone: a call is over, with or without an answer.
func onDone(cl *call) {
	if cl.host == kubeHost && (strings.HasSuffix(cl.path, "/"+keySecretName) || cl.method == "POST" && strings.HasSuffix(cl.path, "/secrets")) {
		cl.c.keyCalls++
	}
	if cl.host == kubeHost && cl.method == "GET" && strings.Contains(cl.path, "/secrets/") {
		r := &secretRead{in: cl.c.inst, path: cl.path, start: cl.start}
		if cl.ok && cl.note == "found" {
			r.ok, r.data = true, cl.secret
		}
		secretReads = append(secretReads, r)
		if strings.HasSuffix(cl.path, "/"+keySecretName) && cl.ok && cl.note == "found" {
			cl.c.inst.sawKeys()
		}
	}
	if cl.host == kubeHost && cl.method == "POST" && strings.HasSuffix(cl.path, "/secrets") && cl.ok && cl.status == 201 {
		cl.c.inst.sawKeys()
	}
	if cl.answered && cl.status == 200 && strings.HasSuffix(cl.path, "/userinfo") {
		cl.c.userinfoOK[strings.TrimPrefix(cl.hdr.Get("Authorization"), "Bearer ")] = true
	}
}

func (in *instance) sawKeys() {
	if !in.keysSeen {
		in.keysSeen, in.keysSeenAt = true, now()
	}
}

// hadKeys: the adapter held the key pair when a request began.
func (in *instance) hadKeys(rq *Req) bool {
	return in.keysSeen && in.keysSeenAt+margin() <= rq.start
}

var keyPair map[string]string // the deployment's first complete key pair

func onSecretCreated(cl *call, key string, m map[string]string) {
	if key != keySecretNS+"/"+keySecretName {
		return
	}
	checked("C11.created")
	if hk, bk := cl.c.inst.keySizes(); len(m["HASH_KEY"]) != hk || len(m["BLOCK_KEY"]) != bk {
		violate(ps("C11"), "malformed key secret", "%s created keys of %d/%d bytes", cl.c.label, len(m["HASH_KEY"]), len(m["BLOCK_KEY"]))
	}
	keyPair = m
}

func onSecretTampered(cl *call) {
	violate(ps("C11"), "secret overwritten or deleted", "%s: %s %s", cl.c.label, cl.method, cl.path)
}

// ---------------------------------------------------------------- answers

// faultyNow: some fault was open during [t, now].
func anyFault(t time.Duration) bool { return anyFaultsOpen > 0 || anyFaultEnd >= t }

func (rq *Req) desc() string {
	return fmt.Sprintf("%s at instance %d: %s %s/%s %s%s", rq.ctx.label, rq.inst.idx, rq.Method, rq.NS, rq.Svc, rq.Path, ifs(rq.Variant != "", " ["+rq.Variant+"]", ""))
}

func ifs(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

func endReq(rq *Req) {
	in, rs := rq.inst, rq.resp
	k.seq++
	k.progress = k.steps
	rq.endN = k.seq
	for i, o := range openReqs {
		if o == rq {
			openReqs = append(openReqs[:i], openReqs[i+1:]...)
			break
		}
	}
	if rq.ctx != nil {
		for _, h := range rq.ctx.faulted {
			h.lastFaultEnd = now()
		}
	}
	for _, v := range rq.cookieValues() { // what happened to presented sessions
		if s := sessions[v]; s != nil && s.inst == in && !(rs.ok() && rs.Out) {
			defer func() { s.known = false }()
		}
	}
	if rs.Down || rs.Crashed || k.finished {
		return
	}
	checked("answers")
	dur := rq.end - rq.start
	kubeOK := healthy(kubeHost, in, rq.start-margin())
	if rs.Hung {
		if kubeOK {
			violate(unanswered(rq, "C13 C15"), "request never answered", "%s: no answer after %v", rq.desc(), dur)
		}
		return
	}
	if rs.Panicked {
		return
	}
	checked("C13.latency")
	if dur > 45*time.Second+5*time.Duration(k.knobs.StallMaxMs)*time.Millisecond && kubeOK {
		violate(unanswered(rq, "C13"), "request took too long", "%s: %v", rq.desc(), dur)
	}
	if strings.HasPrefix(rq.Variant, "no:") {
		if !rs.denied() {
			violate(ps("C01 C15"), "malformed request let through", "%s: %s", rq.desc(), rs)
		}
		return
	}
	if rq.Variant == "odd" {
		return
	}
	acts := actions(in, rq.NS, rq.Svc, rq.Path, rq.Method, rq.end)
	exact := len(acts) == 1 && !in.termed
	j := &judgement{rq: rq, rs: rs, in: in, acts: acts, exact: exact}
	switch {
	case rs.ok() && !rs.Out:
		j.plainOK()
	case rs.ok():
		j.sessionOK()
	case rs.redirect():
		j.redirected()
	default:
		j.deniedReq()
	}
	if exact {
		j.must()
	}
	j.either()
	if strings.Contains(rs.Location, "?") {
		j.leaks()
	}
}

type judgement struct {
	rq    *Req
	rs    *Resp
	in    *instance
	acts  []act
	exact bool
	sess  *session
}

func (j *judgement) props(base string) []string {
	p := ps(base)
	if anyFault(j.rq.start - margin()) {
		p = append(p, "C14")
	}
	if !strings.Contains(base, "C20") && j.during() {
		p = append(p, "C20")
	}
	for _, w := range windows {
		if w.Lasting && w.to > now() && w.from < lastSettle {
			p = append(p, "C13") // configuration handling has had time to get past the failing provider
			break
		}
	}
	return p
}

// unanswered: what else a request without a timely answer breaks, by what it
// was about and by what failed before it.
func unanswered(rq *Req, base string) []string {
	p := ps(base)
	if strings.HasPrefix(rq.Variant, "no:") || rq.Variant == "odd" {
		return p
	}
	in := rq.inst
	acts := actions(in, rq.NS, rq.Svc, rq.Path, rq.Method, rq.end)
	j := &judgement{rq: rq, rs: rq.resp, in: in, acts: acts}
	if j.during() {
		p = append(p, "C20")
	}
	if len(rq.ctx.faulted) == 0 && anyFault(rq.start-margin()) {
		p = append(p, "C14") // no call of its own failed
	}
	if rq.ctx.keyCalls > 0 || in.hadKeys(rq) && !healthy(kubeHost, in, rq.start-margin()) {
		p = append(p, "C11")
	}
	for _, a := range acts {
		switch a.typ() {
		case "none":
			p = append(p, "C02")
			continue
		case "jwt":
			p = append(p, "C04")
		case "oidc":
			p = append(p, "C10")
			if !in.hadKeys(rq) {
				p = append(p, "C11") // it needs the keys, which nothing keeps it from
			}
		}
		for _, v := range configs(in, rq.NS, a.pp, rq.end) {
			if v.absent {
				continue
			}
			host, path := keysAt(v)
			if fetchFailed(in, host, path) {
				p = append(p, "C05")
			}
			p = j.healed(p, v, host)
			if a.typ() == "oidc" {
				if s := sessions[rq.cookie(cookieName(v.oidc.ClientID))]; s != nil && s.inst == in {
					p = append(p, "C09")
				}
			}
		}
	}
	return p
}

// during: the answer may have been decided while a change was being applied.
func (j *judgement) during() bool {
	if len(j.acts) > 1 {
		return true
	}
	for _, a := range j.acts {
		if a.pp != nil && len(configs(j.in, j.rq.NS, a.pp, j.rq.end)) > 1 {
			return true
		}
	}
	// the same decision before and after, but by policies that change
	eps := lookupKeys(j.rq.Svc, j.rq.Path, j.rq.Method)
	for _, key := range objKeys {
		if !strings.HasPrefix(key, "policies|"+j.rq.NS+"/") {
			continue
		}
		vs := versions(j.in, key, j.rq.end)
		for _, v := range vs {
			for _, ep := range eps {
				if len(vs) > 1 && v.eps[ep] != nil {
					return true
				}
			}
		}
	}
	return false
}

func (j *judgement) leaks() {
	for i := range world.Clients {
		for _, s := range world.Clients[i].Secrets {
			if strings.Contains(j.rs.Location, s) {
				violate(ps("C12"), "client secret in a redirect", "%s: %s", j.rq.desc(), j.rs.Location)
			}
		}
	}
}

func (j *judgement) describe() string {
	var s []string
	for _, a := range j.acts {
		if a.pp == nil {
			s = append(s, "unprotected")
		} else {
			s = append(s, fmt.Sprintf("%s %s/%s via %s %s", a.pp.PolicyType, j.rq.NS, a.pp.Config, a.ep.path, a.ep.method))
		}
	}
	return strings.Join(s, " or ")
}

// plainOK: let through without tokens.
func (j *judgement) plainOK() {
	checked("C01.pass")
	var whys []string
	extra := "C01"
	for _, a := range j.acts {
		switch a.typ() {
		case "none":
			return
		case "jwt":
			for _, v := range configs(j.in, j.rq.NS, a.pp, j.rq.end) {
				r, why := bearer(j.rq, j.in, v, a.pp, j.rq.end)
				if r != reject {
					return
				}
				whys = append(whys, why)
				extra += " C04"
				if strings.Contains(why, "withdrawn") || strings.Contains(why, "not published") || strings.Contains(why, "nobody") {
					extra += " C05"
				}
				if v.absent {
					extra += " C03"
				}
			}
		case "oidc":
			whys = append(whys, "OIDC needs a session")
		}
	}
	if j.exact {
		extra += " C02 C03"
	}
	violate(j.props(extra), "let through without valid credentials", "%s; policy: %s; %s; credentials: %s", j.rq.desc(), j.describe(), strings.Join(whys, ", "), short(j.rq.Authz))
}

// sessionOK: forwarded with a session's tokens.
func (j *judgement) sessionOK() {
	rq, rs := j.rq, j.rs
	checked("C07.forward")
	f := strings.Split(rs.Authz, " ")
	if len(f) != 3 || f[0] != "Bearer" {
		violate(ps("C07 C01"), "forwarded without its tokens", "%s: Authorization %q", rq.desc(), short(rs.Authz))
		return
	}
	at, it := tokens[f[1]], tokens[f[2]]
	if at == nil || it == nil || at.kind != "access" || it.kind != "id" || at.login == nil || it.login == nil {
		violate(ps("C07 C01"), "forwarded with tokens nobody issued", "%s: %s", rq.desc(), short(rs.Authz))
		return
	}
	var whys []string
	props := map[string]bool{}
	for _, a := range j.acts {
		if a.typ() != "oidc" {
			whys = append(whys, "policy is "+a.typ())
			props["C02"], props["C01"] = true, a.pp != nil
			continue
		}
		for _, v := range configs(j.in, rq.NS, a.pp, rq.end) {
			if v.absent {
				whys = append(whys, "OIDC configuration missing")
				props["C01"], props["C03"] = true, true
				continue
			}
			val := rq.cookie(cookieName(v.oidc.ClientID))
			s := sessions[val]
			switch {
			case s == nil:
				whys = append(whys, "cookie is no session")
				props["C01"], props["C07"] = true, true
			case s.inst != j.in:
				whys = append(whys, "session of another adapter process")
				props["C07"] = true
			case s.login.client != v.oidc.ClientID:
				whys = append(whys, "session of another client")
				props["C01"], props["C07"] = true, true
			case s.login != at.login || s.login != it.login:
				whys = append(whys, fmt.Sprintf("tokens of login %d/%d (%s), session of login %d (%s)", at.login.id, it.login.id, at.login.user, s.login.id, s.login.user))
				props["C07"] = true
			case s.loggedOut >= 0 && s.loggedOut < rq.start:
				whys = append(whys, fmt.Sprintf("session was logged out at %v", s.loggedOut))
				props["C08"] = true
			default:
				why := j.tokensBad(a.pp, v, at, it)
				if why == "" {
					j.accepted(s, at, it)
					return
				}
				whys = append(whys, why)
				props["C01"] = true
				if at.issue > 1 || it.exp < rq.start {
					props["C09"] = true
				}
			}
		}
	}
	props["C20"] = j.during()
	var p []string
	for x, y := range props {
		if y {
			p = append(p, x)
		}
	}
	violate(p, "forwarded without a valid session", "%s: %s", rq.desc(), strings.Join(whys, ", "))
}

// tokensBad: why a session's tokens certainly must not be accepted.
func (j *judgement) tokensBad(pp *PathPolicy, v *objVer, at, it *tokInfo) string {
	rules := oidcRules(pp, v)
	if r, why := judge(j.in, it, "id", v, rules, j.rq.start, j.rq.end); r == reject && why != "key withdrawn" {
		return "identity token: " + why
	}
	if j.rq.ctx.userinfoOK[at.raw] {
		// confirmed by the provider: rules on its claims do not apply
		if !at.jwt && hasAccessSource(rules) {
			return "rules on an opaque access token"
		}
		return ""
	}
	if !at.jwt {
		return "opaque access token not confirmed by the provider"
	}
	if r, why := judge(j.in, at, "access", v, rules, j.rq.start, j.rq.end); r == reject && why != "key withdrawn" {
		return "access token: " + why
	}
	return ""
}

// accepted: the adapter has shown which tokens the session holds.
func (j *judgement) accepted(s *session, at, it *tokInfo) {
	checked("C09.served")
	if at.issue > s.issue {
		s.oldAccess, s.oldID, s.changed = s.access, s.id, now()
		s.access, s.id, s.issue = at, it, at.issue
		s.refreshed++
		checked("C09.refreshed")
		if at.refresh != nil {
			s.refresh = at.refresh
		}
	}
	if j.rs.SessCk != "" {
		ck := parseCookie(j.rs.SessCk)
		if ck == nil || ck.Name != cookieName(s.client) || ck.Value != s.value {
			violate(ps("C07 C09"), "session cookie changed by a refresh", "%s: %s", j.rq.desc(), j.rs.SessCk)
		} else {
			s.keptBy(j.rq, ck)
		}
	}
	s.known = true
	for _, o := range j.rq.overlapping(s.value) {
		if o.endN == 0 || !(o.resp.ok() && o.resp.Out) {
			s.known = false
		}
	}
	if s.logoutBegun >= 0 {
		s.known = false
	}
}

func (j *judgement) redirected() {
	rq, rs := j.rq, j.rs
	var whys []string
	oidc := false
	for _, a := range j.acts {
		if a.typ() != "oidc" {
			continue
		}
		oidc = true
		for _, v := range configs(j.in, rq.NS, a.pp, rq.end) {
			if v.absent {
				whys = append(whys, "configuration missing")
				continue
			}
			var why string
			switch {
			case rq.isLogout():
				why = j.logoutRedirect(a.pp, v)
			case rq.exchanges():
				why = j.callbackRedirect(a.pp, v)
			default:
				why = j.loginRedirect(a.pp, v)
			}
			if why == "" {
				return
			}
			whys = append(whys, why)
		}
	}
	if !oidc {
		violate(j.props(ifs(j.exact, "C02 C03", "C02")), "redirect where no OIDC policy applies", "%s; policy: %s: %s", rq.desc(), j.describe(), rs)
		return
	}
	if rq.isLogout() {
		violate(ps("C08 C10"), "wrong logout answer", "%s: %s; %s", rq.desc(), strings.Join(whys, ", "), rs)
		return
	}
	p := "C10"
	if strings.Contains(strings.Join(whys, " "), "authorization endpoint") {
		p += " C16"
	}
	if strings.Contains(strings.Join(whys, " "), "keys") {
		p += " C11"
	}
	if strings.Contains(strings.Join(whys, " "), "missing") {
		p += " C03"
	}
	if strings.Contains(strings.Join(whys, " "), "state") {
		p += " C06"
	}
	if strings.Contains(strings.Join(whys, " "), "session cookie") {
		p += " C06 C07"
	}
	if j.during() {
		p += " C20"
	}
	violate(ps(p), "wrong redirect", "%s: %s; location %s cookie %s", rq.desc(), strings.Join(whys, ", "), rs.Location, rs.SetCookie)
}

func (j *judgement) logoutRedirect(pp *PathPolicy, v *objVer) string {
	rq, rs := j.rq, j.rs
	checked("C08.logout")
	if want := strings.TrimSuffix(rq.Path, loSuffix); rs.Location != want {
		return fmt.Sprintf("location %q, want %q", rs.Location, want)
	}
	ck := parseCookie(rs.SetCookie)
	name := cookieName(v.oidc.ClientID)
	if ck == nil || ck.Name != name || ck.Path != "/" || !(ck.MaxAge < 0 || !ck.Expires.IsZero() && ck.Expires.Before(time.Now())) {
		return "no order to drop cookie " + name
	}
	if val := rq.cookie(name); val != "" {
		if s := sessions[val]; s != nil && s.inst == j.in && s.client == v.oidc.ClientID && s.loggedOut < 0 {
			// only when no other client of the candidates could have been meant
			s.loggedOut = rq.end
			s.known = false
		}
	}
	return ""
}

func (j *judgement) callbackRedirect(pp *PathPolicy, v *objVer) string {
	rq, rs := j.rq, j.rs
	checked("C06.completed")
	want := strings.TrimSuffix(rq.url(), cbSuffix)
	if pp.RedirectUri != "" {
		want = pp.RedirectUri
	}
	if rs.Location != want {
		return fmt.Sprintf("location %q, want %q", rs.Location, want)
	}
	ck := parseCookie(rs.SetCookie)
	if ck == nil || ck.Name != cookieName(v.oidc.ClientID) {
		return "no session cookie"
	}
	// a session came into being
	if why := stateInvalid(rq, v.oidc.ClientID); why != "" {
		violate(ps("C06"), "session without valid login state", "%s: %s", rq.desc(), why)
	}
	cr := codes[rq.Code]
	if cr == nil || cr.login.first == nil {
		violate(ps("C06 C01"), "session without tokens", "%s: code %q", rq.desc(), rq.Code)
		return ""
	}
	checked("C07.session")
	if old := sessions[ck.Value]; old != nil {
		violate(ps("C07"), "session id handed out twice", "%s: %q was given to login %d (%s), now to login %d (%s)", rq.desc(), ck.Value, old.login.id, old.login.user, cr.login.id, cr.login.user)
	}
	if statesSeen[ck.Value] {
		violate(ps("C07"), "session id equals a state", "%s: %q", rq.desc(), ck.Value)
	}
	if len(ck.Value) < 12 {
		violate(ps("C07"), "session id too short to be unguessable", "%s: %q", rq.desc(), ck.Value)
	}
	s := &session{value: ck.Value, client: v.oidc.ClientID, cookie: ck.Name, inst: j.in, login: cr.login, loggedOut: -1, logoutBegun: -1, made: now(), known: true}
	s.access, s.id, s.refresh, s.issue = cr.login.first.access, cr.login.first.id, cr.login.first.refresh, cr.login.first.access.issue
	s.keptBy(rq, ck)
	sessions[ck.Value] = s
	sessionVals = append(sessionVals, ck.Value)
	j.sess = s
	return ""
}

// keptBy: the browser has to keep a session's cookie while the session can be
// used, and for all paths: a logout drops it for all of them.
func (s *session) keptBy(rq *Req, ck *http.Cookie) {
	_, hi := s.inst.ahead(rq.start, rq.end)
	life := s.id.exp - rq.end - max(hi, 0)
	if s.refresh != nil {
		life = max(life, 0) + time.Hour
	}
	if why := unkept(rq, ck, "/", life); why != "" {
		violate(ps("C07 C08 C09"), "session cookie of no use", "%s: %s", rq.desc(), why)
	}
}

func (j *judgement) loginRedirect(pp *PathPolicy, v *objVer) string {
	rq, rs := j.rq, j.rs
	checked("C10.redirect")
	u, err := url.Parse(rs.Location)
	if err != nil {
		return "malformed location"
	}
	h, cf := cfgOf(v.oidc.DiscoveryURL)
	if u.Scheme+"://"+u.Host+u.Path != "http://"+h+"/c/"+cf+"/authorize" {
		return "not the authorization endpoint of " + v.oidc.DiscoveryURL
	}
	q := u.Query()
	scope := strings.Join(v.oidc.Scopes, " ")
	if len(v.oidc.Scopes) == 0 {
		scope = "openid profile email"
	}
	want := map[string]string{"client_id": v.oidc.ClientID, "response_type": "code", "scope": scope, "redirect_uri": rq.url() + cbSuffix}
	for _, n := range []string{"client_id", "response_type", "scope", "redirect_uri"} {
		if len(q[n]) != 1 || q.Get(n) != want[n] {
			return fmt.Sprintf("%s is %q, want %q", n, q[n], want[n])
		}
	}
	ck := parseCookie(rs.SetCookie)
	name := cookieName(v.oidc.ClientID)
	if ck == nil || ck.Name != name {
		return "no state cookie " + name
	}
	st := q.Get("state")
	if len(st) < 8 {
		return fmt.Sprintf("state %q", st)
	}
	if why := unkept(rq, ck, rq.Path+cbSuffix, time.Hour); why != "" {
		violate(ps("C10 C11"), "state cookie of no use", "%s: %s: %s", rq.desc(), why, rs.SetCookie)
	} else if ck.SameSite == http.SameSiteStrictMode {
		violate(ps("C10 C11"), "state cookie of no use", "%s: not sent with a callback from another site: %s", rq.desc(), rs.SetCookie)
	}
	checked("C11.sealed")
	kp := kube.secrets[keySecretNS+"/"+keySecretName]
	if kp == nil {
		return "state issued while the deployment has no keys"
	}
	var raw []byte
	if err := securecookie.New([]byte(kp["HASH_KEY"]), []byte(kp["BLOCK_KEY"])).Decode(name, ck.Value, &raw); err != nil {
		return "state not sealed with the deployment's keys: " + err.Error()
	}
	var sealed struct {
		Value      string
		Expiration time.Time
	}
	if err := bson.Unmarshal(raw, &sealed); err != nil || sealed.Value != st {
		return fmt.Sprintf("sealed state %q is not the state %q sent", sealed.Value, st)
	}
	if statesSeen[st] || sessions[st] != nil {
		violate(ps("C10 C06 C07"), "state not fresh", "%s: state %q was handed out before", rq.desc(), st)
	}
	statesSeen[st] = true
	stateVals = append(stateVals, st)
	stateByCookie[ck.Value] = &stateRec{cookie: ck.Value, name: name, state: st, client: v.oidc.ClientID, issued: rq.start, issuedEnd: rq.end, inst: j.in, rq: rq, cfg: v}
	return ""
}

// deniedReq: neither let through nor redirected.
func (j *judgement) deniedReq() {
	if j.rs.Direct && j.rs.WWWAuth != "" {
		for _, a := range j.acts {
			if a.typ() == "jwt" {
				return
			}
		}
		violate(j.props(ifs(j.exact, "C02 C03", "C02")), "bearer challenge where no JWT policy applies", "%s; policy: %s: %s", j.rq.desc(), j.describe(), j.rs)
	}
}

// must: the one correct answer, where there is only one.
func (j *judgement) must() {
	rq, rs, in := j.rq, j.rs, j.in
	a := j.acts[0]
	if a.pp == nil {
		checked("C02.open")
		if !(rs.ok() && !rs.Out) {
			violate(j.props("C02 C03"), "unprotected request not let through", "%s: %s", rq.desc(), rs)
		}
		j.quick(nil)
		return
	}
	checked("C02.exact")
	vs := configs(in, rq.NS, a.pp, rq.end)
	if len(vs) != 1 {
		return
	}
	v := vs[0]
	if v.absent {
		checked("C03.missing")
		if !rs.denied() {
			violate(j.props("C01 C03"), "answer without configuration", "%s; policy: %s: %s", rq.desc(), j.describe(), rs)
		}
		j.quick(nil)
		return
	}
	if a.typ() == "jwt" {
		j.mustJWT(a.pp, v)
	} else {
		j.mustOIDC(a.pp, v)
	}
}

// quick: nothing this request depends on is disturbed, so it must not wait.
func (j *judgement) quick(hosts []string) {
	if k.knobs.StallMaxMs > 100 {
		return
	}
	for _, h := range hosts {
		if !healthy(h, j.in, j.rq.start-margin()) {
			return
		}
	}
	checked("C14.quick")
	if d := j.rq.end - j.rq.start; d > 4*time.Second {
		violate(ps("C14"), "request waited for something it does not depend on", "%s took %v", j.rq.desc(), d)
	}
}

// healing: the extra properties a failed expectation speaks to.
func (j *judgement) healing(base string, v *objVer, host string) []string {
	return j.healed(j.props(base), v, host)
}

func (j *judgement) healed(p []string, v *objVer, host string) []string {
	if hs := hosts[fmt.Sprintf("%s@%d", host, j.in.idx)]; hs != nil && hs.lastFaultEnd >= 0 && (hs.lastFaultEnd >= v.from || hs.lastFaultEnd >= j.in.bootAt) {
		p = append(p, "C16")
	}
	return p
}

func (j *judgement) mustJWT(pp *PathPolicy, v *objVer) {
	rq, rs, in := j.rq, j.rs, j.in
	host, path := keysAt(v)
	r, why := bearer(rq, in, v, pp, rq.end)
	checked("C04." + r.String())
	if why != "" {
		checked("token " + r.String() + ": " + why)
	}
	switch r {
	case reject:
		if rs.ok() {
			return // reported by plainOK
		}
		if !rs.Direct || rs.HTTPCode < 400 || !strings.HasPrefix(rs.WWWAuth, "Bearer") {
			violate(j.props("C04"), "no bearer challenge", "%s (%s): %s", rq.desc(), why, rs)
		}
	case accept:
		if !rs.ok() {
			p := "C04 C03"
			if len(idpOfHost(host).keys) > 0 && (idpOfHost(host).signing > 0 || fetchFailed(in, host, path)) {
				p += " C05"
			}
			violate(j.healing(p, v, host), "valid bearer token refused", "%s key %s: %s", rq.desc(), rq.access.kid, rs)
		}
	}
	known := rq.access != nil
	if known {
		kids, ok := knownKids(in, v, host, path, rq.start)
		have := func(t *tokInfo) bool {
			return t != nil && kids[t.kid] && !straggler(in, host, path, t.kid, false, rq.start)
		}
		known = ok && have(rq.access) && (!rq.hasID || have(rq.id))
	}
	if r == reject && rq.access == nil || known {
		j.quick(nil)
	} else {
		j.quick([]string{host})
	}
}

func fetchFailed(in *instance, host, path string) bool {
	for _, cl := range calls {
		if cl.host == host && cl.path == path && cl.c.inst == in && cl.fault != "" {
			return true
		}
	}
	return false
}

// either: while a change is being applied, a request is decided as before it
// or as after it; where both demand the same, that has to happen.
func (j *judgement) either() {
	rq, rs, in := j.rq, j.rs, j.in
	if !in.settled || in.termed || len(j.acts) == 0 {
		return
	}
	want, n, host := "", 0, ""
	var of *objVer
	for _, a := range j.acts {
		if a.pp == nil {
			return
		}
		for _, v := range configs(in, rq.NS, a.pp, rq.end) {
			if v.absent {
				return
			}
			e := ""
			if a.typ() == "jwt" {
				if r, _ := bearer(rq, in, v, a.pp, rq.end); r == accept {
					e = "pass"
				}
			} else {
				e = j.oidcExpects(a.pp, v)
			}
			if e == "" || want != "" && e != want {
				return
			}
			want, of = e, v
			host, _ = keysAt(v)
			n++
		}
	}
	if n < 2 {
		return // see must
	}
	checked("C20.during")
	ok := false
	switch want {
	case "pass":
		ok = rs.ok()
	case "forward":
		ok = rs.ok() && rs.Out
	case "redirect":
		ok = rs.redirect() || rs.ok() && rs.Out
	}
	if !ok {
		violate(j.healing("C03 C20", of, host), "decided neither as before nor as after a change", "%s; policy: %s; both demand %s: %s", rq.desc(), j.describe(), want, rs)
	}
}

// oidcExpects: what certainly has to happen under this version, if anything.
func (j *judgement) oidcExpects(pp *PathPolicy, v *objVer) string {
	rq, in := j.rq, j.in
	client := v.oidc.ClientID
	host, _ := keysAt(v)
	idpOK := healthy(host, in, rq.start-margin())
	if rq.isLogout() {
		return "redirect"
	}
	if rq.isCallback() {
		return ""
	}
	val := rq.cookie(cookieName(client))
	s := sessions[val]
	if s == nil || s.inst != in || s.client != client || s.loggedOut >= 0 && s.loggedOut < rq.start {
		if (in.hadKeys(rq) || healthy(kubeHost, in, rq.start-margin())) && (idpOK || discoveryLoaded(in, v)) {
			return "redirect"
		}
		return ""
	}
	_, hi := in.ahead(rq.start, rq.end)
	if !s.wasKnown(rq) || !secretStable(in, v) || s.id.exp <= rq.end+max(hi, 0)+slack || s.access.exp <= rq.end+max(hi, 0)+slack {
		return ""
	}
	for _, o := range rq.overlapping(val) {
		if o.mayDisturb(s, v, pp) {
			return ""
		}
	}
	if s.refreshed > 0 && s.changed >= rq.start && (s.login.tainted || keyGone(s.oldAccess, rq.end) || keyGone(s.oldID, rq.end)) || !j.wouldAccept(pp, v, s.access, s.id, idpOK) {
		return ""
	}
	return "forward"
}

// discoveryLoaded: version v's discovery document is certainly loaded.
func discoveryLoaded(in *instance, v *objVer) bool {
	if sharedURLs[v.oidc.DiscoveryURL] {
		return false
	}
	h, cf := cfgOf(v.oidc.DiscoveryURL)
	ok := false
	for _, cl := range calls {
		if cl.host != h || cl.c.inst != in || cl.path != "/c/"+cf+"/.well-known/openid-configuration" {
			continue
		}
		ok = cl.ok && cl.consumed && cl.status == 200 && cl.fault != "garbage" && now()-cl.end > margin() && v.sure(cl)
		if cl.start >= in.base && !cl.ok {
			ok = false
		}
	}
	return ok
}

func (j *judgement) mustOIDC(pp *PathPolicy, v *objVer) {
	rq, rs, in := j.rq, j.rs, j.in
	client := v.oidc.ClientID
	host, _ := keysAt(v)
	idpOK := healthy(host, in, rq.start-margin())
	kubeOK := in.hadKeys(rq) || healthy(kubeHost, in, rq.start-margin())
	cd := clientDef(client)
	needs := []string{host, kubeHost}
	if in.hadKeys(rq) {
		needs = []string{host}
	}
	switch {
	case rq.isLogout():
		checked("C08.must")
		if !rs.redirect() {
			violate(j.props("C08 C10"), "logout not answered by a redirect", "%s: %s", rq.desc(), rs)
		}
		j.quick(nil)
		return
	case rq.isCallback() && rq.Err != "":
		if !rs.denied() {
			violate(ps("C06"), "error callback not denied", "%s: %s", rq.desc(), rs)
		}
		return
	case rq.exchanges():
		j.quick(needs)
		cr := codes[rq.Code]
		if cr == nil || !stateGood(rq, client, rq.end) {
			if stateInvalid(rq, client) != "" && !rs.denied() {
				violate(ps("C06"), "callback with bad state not denied", "%s: %s", rq.desc(), rs)
			}
			return
		}
		// everything right: the login must complete
		h, cf := cfgOf(v.oidc.DiscoveryURL)
		p := idpOfHost(h)
		l := cr.login
		if !idpOK || !kubeOK || cr.client != client || cr.cfg != cf || cr.redirect != rq.url() || cr.usedBy != "" && cr.usedBy != rq.ctx.label || rq.end-cr.issued > 9*time.Minute {
			return
		}
		if l.first == nil || l.first.mis != "" || p == nil || !secretStable(in, v) || !cd.acceptsSecret(wantSecret(in, v)) {
			if l.first == nil && secretStable(in, v) && cd.acceptsSecret(wantSecret(in, v)) {
				p := "C06 C12"
				if st := stateByCookie[rq.cookie(cookieName(client))]; st != nil && st.inst != in {
					p += " C11"
				}
				violate(j.healing(p, v, host), "valid login not exchanged", "%s: %s", rq.desc(), rs)
			}
			return
		}
		if !j.wouldAccept(pp, v, l.first.access, l.first.id, idpOK) {
			return
		}
		checked("C06.must")
		if !rs.redirect() {
			p := "C06"
			st := stateByCookie[rq.cookie(cookieName(client))]
			if st != nil && st.inst != in {
				p += " C11"
			}
			violate(j.healing(p, v, host), "valid login refused", "%s: %s", rq.desc(), rs)
		}
		return
	}
	val := rq.cookie(cookieName(client))
	s := sessions[val]
	if s == nil || s.inst != in || s.client != client || s.loggedOut >= 0 && s.loggedOut < rq.start {
		checked("C10.must")
		if !rs.redirect() && !(rs.ok() && rs.Out) && kubeOK && (idpOK || discoveryLoaded(in, v)) {
			p := "C10 C03"
			if rq.ctx.keyCalls > 0 || in.hadKeys(rq) && !healthy(kubeHost, in, rq.start-margin()) {
				p += " C11" // the keys it has, or those of the deployment, should do
			}
			violate(j.healing(p, v, host), "anonymous request not sent to log in", "%s: %s", rq.desc(), rs)
		}
		j.quick(needs)
		return
	}
	j.quick(needs)
	if !s.wasKnown(rq) || !secretStable(in, v) {
		return
	}
	for _, o := range rq.overlapping(val) {
		if o.mayDisturb(s, v, pp) {
			return
		}
	}
	lo, hi := in.ahead(rq.start, rq.end)
	if s.id.exp > rq.end+hi+slack {
		if s.access.exp <= rq.end+max(hi, 0)+slack || !j.wouldAccept(pp, v, s.access, s.id, idpOK) {
			return
		}
		if s.refreshed > 0 && s.changed >= rq.start && (s.login.tainted || keyGone(s.oldAccess, rq.end) || keyGone(s.oldID, rq.end)) {
			return // it may have seen the old tokens, whose keys are no longer published, or got bad ones for them
		}
		checked("C07.must")
		if !(rs.ok() && rs.Out) {
			violate(j.healing("C09 C08 C07", v, host), "valid session refused", "%s: %s (session of %s made %v)", rq.desc(), rs, s.login.user, s.made)
		}
		return
	}
	if s.id.exp > rq.start+lo-slack {
		return
	}
	// the identity token has expired: a refresh is due
	if s.refresh == nil || s.login.revoked || s.login.tainted || !idpOK || !cd.acceptsSecret(wantSecret(in, v)) || s.access.bad != "" {
		return
	}
	if s.refresh.used && s.refresh.usedBy != rq.ctx.label {
		return
	}
	if time.Duration(min(cd.IDTTL, cd.AccessTTL))*time.Second < rq.end-rq.start+max(hi, 0)+slack {
		return // to this adapter's clock the new tokens have expired already
	}
	if !s.access.jwt && s.access.exp < rq.end+max(hi, 0)+slack {
		return // nothing tells an expired opaque token from an invalid one
	}
	rules := oidcRules(pp, v)
	if hasAccessSource(rules) && !s.access.jwt || !evalRules(rules, "id", s.id.claims) || s.access.jwt && !evalRules(rules, "access", s.access.claims) {
		return
	}
	if _, why := judge(in, &tokInfo{jwt: true, goodSig: true, idp: s.id.idp, kid: s.id.kid, exp: forever, nbf: -forever, claims: s.id.claims}, "id", v, rules, rq.start, rq.end); why != "" {
		return
	}
	p := idpOfHost(host)
	if kk := p.keys[p.signing]; kk.from > rq.start-time.Second || kk.to <= rq.end || straggler(in, host, "/c/"+hostCfg(v)+"/keys", kk.kid, false, rq.start) {
		return
	}
	checked("C09.must")
	if !(rs.ok() && rs.Out) {
		violate(j.healing("C09", v, host), "expired session not refreshed", "%s: %s (session of %s, refresh mode %s, refreshed %d times)", rq.desc(), rs, s.login.user, cd.Refresh, s.refreshed)
	}
}

func hostCfg(v *objVer) string { _, c := cfgOf(v.oidc.DiscoveryURL); return c }

// wasKnown: the session's contents were certain when rq began and nothing
// later made them uncertain.
func (s *session) wasKnown(rq *Req) bool {
	return rq.knownAtStart[s.value] && s.logoutBegun < 0
}

// keyGone: the key t was signed with is no longer published.
func keyGone(t *tokInfo, at time.Duration) bool {
	if t == nil || !t.jwt {
		return false
	}
	for _, k := range idps[t.idp].keys {
		if k.kid == t.kid {
			return k.to <= at
		}
	}
	return true
}

// mayDisturb: could this concurrent request change or drop the session?
func (o *Req) mayDisturb(s *session, v *objVer, pp *PathPolicy) bool {
	if o.isLogout() || o.isCallback() {
		return true
	}
	end := now()
	if o.endN != 0 {
		end = o.end
		if o.resp != nil && !(o.resp.ok() && o.resp.Out) {
			return true
		}
	}
	host, _ := keysAt(v)
	_, hi := o.inst.ahead(o.start, end)
	if s.id.exp <= end+max(hi, 0)+slack || s.access.exp <= end+max(hi, 0)+slack || !healthy(host, o.inst, o.start-margin()) {
		return true
	}
	as := actions(o.inst, o.NS, o.Svc, o.Path, o.Method, end)
	if len(as) != 1 || as[0].pp == nil || fmt.Sprint(*as[0].pp) != fmt.Sprint(*pp) {
		return true
	}
	return false
}

// wouldAccept: tokens that are certainly valid under the policy at this time.
func (j *judgement) wouldAccept(pp *PathPolicy, v *objVer, at, it *tokInfo, idpOK bool) bool {
	rules := oidcRules(pp, v)
	if r, _ := judge(j.in, it, "id", v, rules, j.rq.start, j.rq.end); r != accept {
		return false
	}
	if at.jwt {
		r, _ := judge(j.in, at, "access", v, rules, j.rq.start, j.rq.end)
		return r == accept
	}
	return idpOK && at.bad == "" && !at.login.revoked && at.exp > j.rq.end+slack && !hasAccessSource(rules)
}

// secretStable: there is no doubt which client secret the adapter uses.
func secretStable(in *instance, v *objVer) bool {
	r := v.oidc.ClientSecretRef
	if r == nil || r.Name == "" || r.Key == "" {
		return true
	}
	path := "/api/v1/namespaces/" + v.ns + "/secrets/" + r.Name
	val, n := "", 0
	for _, s := range secretReads {
		if s.in != in || s.path != path || s.start < v.from {
			continue
		}
		x := v.oidc.ClientSecret
		if s.ok && s.data[r.Key] != "" {
			x = s.data[r.Key]
		}
		if n > 0 && x != val {
			return false
		}
		val = x
		n++
	}
	return n > 0
}

func wantSecret(in *instance, v *objVer) string {
	r := v.oidc.ClientSecretRef
	if r == nil || r.Name == "" || r.Key == "" {
		return v.oidc.ClientSecret
	}
	path := "/api/v1/namespaces/" + v.ns + "/secrets/" + r.Name
	x := ""
	for _, s := range secretReads {
		if s.in == in && s.path == path && s.start >= v.from {
			x = v.oidc.ClientSecret
			if s.ok && s.data[r.Key] != "" {
				x = s.data[r.Key]
			}
		}
	}
	return x
}

func onPanic(c *ctx, r interface{}, stack []byte) {
	if k.finished {
		return
	}
	violate(ps("C15"), "panic", "%s: %v at %s", c.label, r, panicSite(stack))
	tracef("%s", stack)
}

func panicSite(stack []byte) string {
	lines := strings.Split(string(stack), "\n")
	seen := false
	for i := 0; i+1 < len(lines); i++ {
		if strings.HasPrefix(lines[i], "panic(") {
			seen = true
			continue
		}
		if seen && strings.Contains(lines[i], "app-identity-and-access-adapter") {
			return strings.TrimSpace(lines[i])
		}
	}
	return "?"
}

func marshal(v interface{}) string { b, _ := json.Marshal(v); return string(b) }
