package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
)

// Execution of a scenario: phases of operations, and the points of rest
// between them.

var opStats = map[string]int{}

func runScenario(sc *Scenario) {
	for i := range sc.Phases {
		runPhase(&sc.Phases[i])
		if k.finished {
			return
		}
	}
}

// restless: whether something happened since the last settle, or lasts, after
// which the adapters may take their time (they back off before they try again).
var restless bool

// changes since the last settle.
var changes int

func runPhase(ph *Phase) {
	start := now()
	tracef("phase %s", ph.Name)
	left := len(ph.Ops)
	w := &waiter{}
	for i := range ph.Ops {
		op := &ph.Ops[i]
		go func() {
			if d := start + time.Duration(op.At)*time.Microsecond - now(); d > 0 {
				time.Sleep(d)
			}
			if k.finished {
				return
			}
			runOp(op, fmt.Sprintf("op%d", op.ID))
			left--
			w.wake()
		}()
	}
	limit := now() + 6*time.Hour
	for i := range ph.Ops {
		if t := now() + time.Duration(ph.Ops[i].At)*time.Microsecond + 6*time.Hour; t > limit {
			limit = t
		}
	}
	for left > 0 {
		if w.waitUntil(limit) {
			violate(ps("C13 C15"), "operations without an end", "phase %s: %d operations not over six hours after the last began", ph.Name, left)
			fatal("")
			return
		}
	}
	if ph.Settle {
		settle(ph.Keep)
	}
}

// settle heals everything and lets the system come to rest.
func settle(keep bool) {
	calm := !restless
	restless = false
	defer func() { changes = 0 }()
	for _, w := range windows {
		calm = calm && w.to <= lastSettle
	}
	for _, in := range insts {
		calm = calm && in != nil && !in.dead && !in.termed && in.up
	}
	tracef("settle%s", ifs(calm, " (calm)", ""))
	heal(keep)
	for _, in := range insts {
		if in != nil && in.termed && !in.dead {
			crashInstance(in.idx) // Kubernetes kills what does not go
		}
		if in != nil && in.dead {
			bootInstance(in.idx)
		}
	}
	if calm {
		checked("C03.calm")
		m := 3 * time.Second
		if k.knobs.Stall > 0 {
			m = 2 * margin()
		}
		time.Sleep(2*time.Second + m + time.Duration(k.knobs.WatchLagMs+4*changes*k.knobs.NetJitterMs)*time.Millisecond)
	} else {
		time.Sleep(150 * time.Second)
	}
	for _, in := range insts {
		if in == nil || in.dead {
			continue
		}
		if !in.up {
			if in.exited != "" {
				violate(ps("C15 C16"), "adapter exited", "instance %d: %s", in.idx, in.exited)
			} else {
				dumpStacks()
				violate(ps("C16 C13"), "adapter does not come up", "instance %d started at %v is not serving", in.idx, in.bootAt)
			}
			fatal("")
			return
		}
	}
	for _, cl := range calls {
		if cl.c.inst.dead || cl.c == anon || cl.reported {
			continue
		}
		checked("C13.released")
		if cl.leaked() && now()-cl.start > time.Minute {
			cl.reported = true
			violate(ps("C13"), "outbound call or body left open", "%s: %s %s%s%s", cl.c.label, cl.method, cl.host, cl.path, ifs(cl.fault != "", " ["+cl.fault+"]", ""))
		}
	}
	leftBehind()
	lastSettle = now()
	kube.floorRV = kube.rv
	for _, in := range insts {
		if in != nil && !in.dead {
			in.base = now()
			in.settled = true
		}
	}
}

func heal(keep bool) {
	for _, w := range windows {
		if w.to > now() && !(keep && w.Lasting) {
			w.to = now()
		}
	}
	for _, p := range idps {
		p.restore()
	}
	for _, w := range kube.watchers {
		w.w.wake()
	}
}

func runOp(op *Op, label string) {
	opStats[op.Kind]++
	switch op.Kind {
	case "fault", "cutwatch", "compact", "crash", "boot", "sigterm", "withdraw":
		restless = true
	}
	switch op.Kind {
	case "policy":
		changes++
		record(&objVer{res: "policies", ns: op.NS, name: op.Name, policy: op.Policy, eps: endpoints(op.Policy)})
		kubePut("policies", op.NS, op.Name, op.Policy)
	case "jwt":
		changes++
		record(&objVer{res: "jwtconfigs", ns: op.NS, name: op.Name, jwt: op.Jwt})
		kubePut("jwtconfigs", op.NS, op.Name, op.Jwt)
	case "oidc":
		changes++
		record(&objVer{res: "oidcconfigs", ns: op.NS, name: op.Name, oidc: op.Oidc})
		kubePut("oidcconfigs", op.NS, op.Name, op.Oidc)
	case "delete":
		changes++
		if current(op.Res, op.NS, op.Name) == nil {
			return
		}
		record(&objVer{res: op.Res, ns: op.NS, name: op.Name, absent: true})
		kubeDelete(op.Res, op.NS, op.Name)
	case "secret":
		kube.secrets[op.NS+"/"+op.Name] = op.Secret
	case "delsecret":
		delete(kube.secrets, op.NS+"/"+op.Name)
	case "compact":
		kube.compact = kube.rv
	case "cutwatch":
		cutWatches(op.Inst, op.Res)
	case "fault":
		f := *op.Fault
		w := &window{f, now(), now() + time.Duration(f.DurMs)*time.Millisecond}
		if f.Lasting {
			w.to = forever
		}
		windows = append(windows, w)
		tracef("fault window %s", marshal(f))
	case "clock":
		d := time.Duration(op.DelayMs) * time.Millisecond
		clocks[op.Inst] = append(clocks[op.Inst], clockSet{now(), d})
		tracef("clock of instance %d: %v", op.Inst, d)
		countFault("clock:jump")
	case "heal":
		heal(true)
	case "rotate":
		idps[op.Idp].rotate(op.Mode == "drop")
		tracef("idp%d signs with key %d (%s)", op.Idp, idps[op.Idp].signing, op.Mode)
	case "retire":
		idps[op.Idp].retire()
	case "withdraw":
		idps[op.Idp].withdraw()
		countFault("idp:withdraw")
	case "misissue":
		for i := 0; i < max(1, op.N); i++ {
			idps[op.Idp].mis = append(idps[op.Idp].mis, op.Mode)
		}
		countFault("idp:misissue-" + op.Mode)
	case "crash":
		crashInstance(op.Inst)
	case "boot":
		if insts[op.Inst] == nil || insts[op.Inst].dead {
			bootInstance(op.Inst)
		}
	case "sigterm":
		sigterm(op.Inst)
	case "call":
		opCall(op, label)
	case "visit":
		opVisit(op, label)
	case "login":
		opLogin(op, label)
	case "logout":
		opLogout(op, label)
	case "attack":
		opAttack(op, label)
	default:
		fatal("unknown operation %q", op.Kind)
	}
}

func opReq(op *Op) *Req {
	m := op.Method
	if m == "" {
		m = "GET"
	}
	return &Req{NS: op.NS, Svc: op.Svc, Path: op.Path, Method: m, Variant: op.Variant}
}

// ---------------------------------------------------------------- bearer calls

func opCall(op *Op, label string) {
	in := insts[op.Inst]
	var acc, idt minted
	if op.Access != nil {
		acc.raw, acc.ti = mint(op.Access)
	}
	if op.IDTok != nil {
		idt.raw, idt.ti = mint(op.IDTok)
	}
	for n := 0; n < max(1, op.N); n++ {
		rq := opReq(op)
		var parts []string
		if op.Access != nil {
			raw, ti := acc.raw, acc.ti
			parts = append(parts, raw)
			rq.access = ti
			if strings.Contains(raw, " ") || raw == "" {
				rq.malformed = true
			}
		}
		if op.IDTok != nil {
			raw, ti := idt.raw, idt.ti
			parts = append(parts, raw)
			rq.id = ti
			rq.hasID = raw != ""
		}
		scheme := "Bearer"
		if op.Header != "" {
			scheme = op.Header
			if scheme != "bearer" {
				rq.malformed = true
			}
		}
		if op.Header == "-" {
			scheme = ""
		}
		if len(parts) > 0 || op.Header != "" {
			rq.Authz = strings.TrimSpace(scheme + " " + strings.Join(parts, " "))
		}
		if op.Authz != "" {
			rq.Authz, rq.malformed = op.Authz, true
		}
		if op.Variant == "odd" {
			rq.Cookies, rq.Code, rq.State, rq.Err = op.Cookie, op.Code, op.State, op.ErrMsg
		}
		if op.Browser > 0 {
			rq.Cookies = browsers[op.Browser-1].cookies(svcHost(op.NS, op.Svc))
		}
		if rs := issue(in, ifs(n == 0, label, fmt.Sprintf("%s.%d", label, n)), rq); rs.failed() {
			return
		}
		if op.DelayMs > 0 && n+1 < op.N {
			time.Sleep(time.Duration(op.DelayMs) * time.Millisecond)
		}
	}
}

type minted struct {
	raw string
	ti  *tokInfo
}

var sharedToks = map[string]minted{}

// mint makes a token, or finds the one made already.
func mint(s *TokSpec) (string, *tokInfo) {
	if s.Share == "" {
		return mintNew(s)
	}
	m, ok := sharedToks[s.Share]
	if !ok {
		m.raw, m.ti = mintNew(s)
		sharedToks[s.Share] = m
	}
	return m.raw, m.ti
}

func mintNew(s *TokSpec) (string, *tokInfo) {
	if s.Raw != "" || s.Idp < 0 {
		return s.Raw, nil
	}
	p := idps[s.Idp]
	var key = attackerKey()
	ki := s.Key
	switch {
	case ki == -2:
		ki = p.signing
	case ki == -3: // about to be published
		ki = p.signing + 1
	}
	kid := "kid-attacker"
	if ki >= 0 && ki < len(p.keys) {
		key, kid = p.keys[ki].k, p.keys[ki].kid
	} else {
		ki = -1
		kid = p.keys[p.signing].kid
	}
	good := ki >= 0
	h := map[string]interface{}{"alg": "RS256", "typ": "JWT", "kid": kid}
	switch s.Kid {
	case "":
	case "-":
		delete(h, "kid")
		good = false
		kid = ""
	default:
		good = good && s.Kid == kid
		kid = s.Kid
		h["kid"] = kid
	}
	ttl := s.TTLms
	if ttl == 0 {
		ttl = 3600_000
	}
	exp := k.start.Add(now() + time.Duration(ttl)*time.Millisecond).Unix()
	tokSeq++
	cl := map[string]interface{}{"iss": "http://" + p.host, "sub": "api-user", "exp": exp, "iat": unix(now()), "jti": fmt.Sprint("b", tokSeq)}
	nbf := -forever
	if s.Nbfms != 0 {
		nb := k.start.Add(now() + time.Duration(s.Nbfms)*time.Millisecond).Unix()
		cl["nbf"] = nb
		nbf = simOf(nb)
	}
	for a, b := range s.Claims {
		cl[a] = b
	}
	odd := false
	for a, v := range s.Hdr {
		h[a] = v
		switch a {
		case "kid":
			good, kid = false, ""
		case "alg":
			good = false
		}
	}
	for _, a := range []string{"exp", "nbf", "iat"} {
		if v, ok := s.Claims[a]; ok {
			odd = odd || v != nil || a == "exp"
		}
	}
	if s.Body != "" {
		odd = true
		cl = map[string]interface{}{"": s.Body}
		if s.Body[0] != '{' && s.Body != "null" {
			good = false
		}
	}
	var raw string
	switch s.Alg {
	case "none":
		h["alg"] = "none"
		hb, _ := json.Marshal(h)
		cb, _ := json.Marshal(cl)
		raw = b64(hb) + "." + b64(cb) + "."
		good = false
	case "HS256":
		h["alg"] = "HS256"
		hb, _ := json.Marshal(h)
		cb, _ := json.Marshal(cl)
		in := b64(hb) + "." + b64(cb)
		m := hmac.New(sha256.New, key.N.Bytes())
		m.Write([]byte(in))
		raw = in + "." + b64(m.Sum(nil))
		good = false
	default:
		raw = signRS256(h, cl, key)
	}
	parts := strings.Split(raw, ".")
	switch s.Tamper {
	case "":
	case "payload":
		cl["sub"] = "admin"
		cl["exp"] = exp + 10000
		cb, _ := json.Marshal(cl)
		raw = parts[0] + "." + b64(cb) + "." + parts[2]
		good = false
	case "sig":
		c := []byte(parts[2])
		if len(c) > 10 {
			if c[10] == 'A' {
				c[10] = 'B'
			} else {
				c[10] = 'A'
			}
		}
		raw = parts[0] + "." + parts[1] + "." + string(c)
		good = false
	case "trunc":
		raw = parts[0] + "." + parts[1]
		good = false
	case "nosig":
		raw = parts[0] + "." + parts[1] + "."
		good = false
	}
	ti := &tokInfo{raw: raw, kind: "bearer", jwt: true, exp: simOf(exp), nbf: nbf, idp: s.Idp, kid: kid, goodSig: good, odd: odd, claims: norm(cl)}
	return raw, ti
}

// ---------------------------------------------------------------- browsers

func (b *browser) send(op *Op, label string, in *instance, rq *Req) *Resp {
	host := rq.host()
	rq.browser = b
	if rq.Cookies == "" {
		rq.Cookies = b.cookies(host)
	}
	rs := issue(in, label, rq)
	if rs.redirect() && rs.SetCookie != "" {
		b.store(host, rs.SetCookie)
	}
	if rs.ok() && rs.SessCk != "" {
		b.store(host, rs.SessCk)
	}
	return rs
}

func opVisit(op *Op, label string) {
	b := browsers[op.Browser]
	for n := 0; n < max(1, op.N); n++ {
		rq := opReq(op)
		host := rq.host()
		switch op.Variant {
		case "stolen":
			rq.Cookies = browsers[op.Other].cookies(host)
		case "dropped":
			if len(b.dropped) == 0 {
				return
			}
			d := b.dropped[int(rnd("dropped", hashStr(label))%uint64(len(b.dropped)))]
			rq.Cookies = d.name + "=" + d.value
			rq.NS, rq.Svc = nsSvc(d.host)
		case "old":
			if len(b.oldState) == 0 {
				return
			}
			d := b.oldState[int(rnd("old", hashStr(label))%uint64(len(b.oldState)))]
			rq.Cookies = d.name + "=" + d.value
			rq.NS, rq.Svc = nsSvc(d.host)
		case "nearname": // under a name that is not quite the right one
			var names []string
			for c := range b.jar[host] {
				names = append(names, c)
			}
			sort.Strings(names)
			if len(names) == 0 {
				return
			}
			x := rnd("nearname", hashStr(label))
			c := names[x%uint64(len(names))]
			v := b.jar[host][c]
			if x>>16%2 == 0 {
				c = cookieName(world.Clients[x>>20%uint64(len(world.Clients))].ID)
			}
			switch x >> 8 % 6 {
			case 0:
				c = c[:len(c)-1]
			case 1:
				c = c[:int(x>>32%uint64(len(c)))]
			case 2:
				c = strings.ToUpper(c)
			case 3:
				c += "x"
			case 4:
				c = "oidc-cookie-"
			case 5:
				c = "x" + c
			}
			rq.Cookies = c + "=" + v
		case "guess":
			name := ""
			for c := range b.jar[host] {
				if name == "" || c < name {
					name = c
				}
			}
			if name == "" {
				name = cookieName(world.Clients[0].ID)
			}
			rq.Cookies = fmt.Sprintf("%s=%015x", name, rnd("guess", hashStr(label)))
		case "crossname": // a session presented under another client's name
			for c, v := range b.jar[host] {
				_ = c
				rq.Cookies = ""
				for i := range world.Clients {
					rq.Cookies += cookieName(world.Clients[i].ID) + "=" + v + "; "
				}
				break
			}
			if rq.Cookies == "" || len(b.jar[host]) > 1 {
				return
			}
		}
		rs := b.send(op, ifs(n == 0, label, fmt.Sprintf("%s.%d", label, n)), insts[op.Inst], rq)
		if rs.failed() {
			return
		}
		if op.DelayMs > 0 && n+1 < op.N {
			time.Sleep(time.Duration(op.DelayMs) * time.Millisecond)
		}
	}
}

func nsSvc(host string) (ns, svc string) {
	p := strings.Split(host, ".")
	return p[1], p[0]
}

func isLoginRedirect(rs *Resp) bool {
	return rs.redirect() && strings.Contains(rs.Location, "/authorize?")
}

func opLogin(op *Op, label string) {
	b := browsers[op.Browser]
	rs := b.send(op, label, insts[op.Inst], opReq(op))
	if !isLoginRedirect(rs) {
		return
	}
	wait := time.Duration(20+op.DelayMs) * time.Millisecond
	if wait > time.Minute && op.ID%3 > 0 { // the user takes long at the provider; else the code lies around
		time.Sleep(wait - 5*time.Second)
		wait = 5 * time.Second
	}
	red, code, state, err := authorize(rs.Location, b.user)
	if err != nil {
		tracef("%s: provider refuses: %v", label, err)
		return
	}
	time.Sleep(wait)
	u, err := url.Parse(red)
	if err != nil || !strings.HasSuffix(u.Path, cbSuffix) {
		return
	}
	cb := opReq(op)
	cb.Path, cb.Code, cb.State = rawPath(u), code, state
	b.callbacks = append(b.callbacks, savedCallback{op.NS, op.Svc, rawPath(u), code, state, b.cookies(cb.host())})
	if op.Variant == "leaky" { // the callback is lost, an attacker has its parts
		return
	}
	dups := 1
	if op.Variant == "double" {
		dups = 2
	}
	var rs2 *Resp
	if dups == 2 {
		go func() {
			c2 := *cb
			c2.Cookies = b.cookies(cb.host())
			b.send(op, label+".cb2", insts[op.CbInst], &c2)
		}()
	}
	rs2 = b.send(op, label+".cb", insts[op.CbInst], cb)
	if rs2.failed() || !rs2.redirect() {
		return
	}
	for n := 0; op.Follow && n < max(1, op.N); n++ {
		if n > 0 || op.DelayMs%2 == 1 {
			time.Sleep(time.Duration(op.DelayMs) * time.Millisecond)
		}
		b.send(op, fmt.Sprintf("%s.f%d", label, n), insts[op.CbInst], opReq(op))
	}
}

func rawPath(u *url.URL) string { return u.EscapedPath() }

func opLogout(op *Op, label string) {
	b := browsers[op.Browser]
	rq := opReq(op)
	rq.Path += loSuffix
	old := b.cookies(rq.host())
	rs := b.send(op, label, insts[op.Inst], rq)
	// the cookies of before, again
	for n := 0; n < op.N && !rs.failed() && old != ""; n++ {
		time.Sleep(time.Duration(op.DelayMs)*time.Millisecond + time.Microsecond)
		rq := opReq(op)
		rq.Cookies = old
		rs = b.send(op, fmt.Sprintf("%s.f%d", label, n), insts[op.Inst], rq)
	}
}

// opAttack sends a callback whose state is not what it should be.
func opAttack(op *Op, label string) {
	b := browsers[op.Browser]
	o := browsers[op.Other]
	// begin a login, as any attacker can
	first := opReq(op)
	first.Variant = ""
	rs := b.send(op, label, insts[op.Inst], first)
	if !isLoginRedirect(rs) {
		return
	}
	red, code, state, err := authorize(rs.Location, b.user)
	if err != nil {
		return
	}
	time.Sleep(time.Duration(20+op.DelayMs) * time.Millisecond)
	u, _ := url.Parse(red)
	cb := opReq(op)
	cb.Path, cb.Code, cb.State = rawPath(u), code, state
	host := cb.host()
	ck := parseCookie(rs.SetCookie)
	if ck == nil {
		return
	}
	pair := ck.Name + "=" + ck.Value
	cb.Cookies = pair
	switch op.Variant {
	case "nostate":
		cb.State = ""
	case "nocookie":
		cb.Cookies = "x=1"
	case "neither":
		cb.State, cb.Cookies = "", "x=1"
	case "wrongstate":
		cb.State = "AAAAAAAAAA"
	case "prefixstate":
		cb.State = state[:len(state)-1]
	case "casestate":
		cb.State = strings.ToUpper(state)
		if cb.State == state {
			cb.State = strings.ToLower(state)
		}
	case "forged":
		cb.Cookies = ck.Name + "=MTY" + ck.Value[3:]
	case "tampered":
		c := []byte(ck.Value)
		i := len(c) / 2
		if c[i] == 'A' {
			c[i] = 'B'
		} else {
			c[i] = 'A'
		}
		cb.Cookies = ck.Name + "=" + string(c)
	case "plain":
		cb.Cookies = ck.Name + "=" + state
	case "swap": // the other browser's state and cookie belong together, the code does not; or mixed
		if len(o.callbacks) == 0 {
			return
		}
		s := o.callbacks[int(rnd("swap", hashStr(label))%uint64(len(o.callbacks)))]
		cb.State = s.state
	case "swapcode":
		if len(o.callbacks) == 0 {
			return
		}
		s := o.callbacks[int(rnd("swap", hashStr(label))%uint64(len(o.callbacks)))]
		cb.Code = s.code
	case "beside": // a valid state of another client, whose cookie is there as well
		st := stateValsOf(host, ck.Name)
		if len(st) == 0 {
			return
		}
		cb.Cookies = pair + "; " + st[0].name + "=" + st[0].cookie
		if op.ID%2 == 0 {
			cb.Cookies = st[0].name + "=" + st[0].cookie + "; " + pair
		}
		cb.State = st[0].state
	case "renamed": // state cookie of one client under the name of another
		if op.Other == op.Browser {
			return
		}
		found := false
		for _, st := range stateValsOf(host, ck.Name) {
			cb.Cookies = ck.Name + "=" + st.cookie
			cb.State = st.state
			found = true
			break
		}
		if !found {
			return
		}
	case "replay":
		b.send(op, label+".cb0", insts[op.CbInst], copyReq(cb))
	case "sessionstate":
		for n, v := range o.jar[host] {
			if n == ck.Name {
				cb.Cookies = n + "=" + v
				cb.State = v
			}
		}
	case "error":
		cb.Err = "access_denied"
	case "errorcode":
		cb.Err = "access_denied"
		cb.State = "x"
	}
	b.send(op, label+".cb", insts[op.CbInst], cb)
}

func copyReq(r *Req) *Req { c := *r; return &c }

// stateValsOf: states issued for other clients than the one with this cookie name.
func stateValsOf(host, name string) []*stateRec {
	var out []*stateRec
	for i := len(reqs) - 1; i >= 0; i-- {
		rs := reqs[i].resp
		if rs == nil || !isLoginRedirect(rs) {
			continue
		}
		if ck := parseCookie(rs.SetCookie); ck != nil && ck.Name != name {
			if st := stateByCookie[ck.Value]; st != nil {
				out = append(out, st)
			}
		}
	}
	return out
}

// dumpStacks is a debugging aid: with VERIF_DUMP set, the stacks of all goroutines go to stderr.
// leftBehind: requests long answered must not leave goroutines waiting for ever.
// One or two of a kind may be workers that a request happened to start.
func leftBehind() {
	checked("C13.goroutines")
	tags, starts := make([]uintptr, 1<<14), make([]uintptr, 1<<14)
	n := runtime.SimLive(tags, starts)
	left := map[string][]*Req{}
	for i := 0; i < n; i++ {
		if int(tags[i]) > len(k.ctxs) {
			continue
		}
		c := k.ctxs[tags[i]-1]
		if rq := c.req; rq != nil && !c.inst.dead && rq.resp != nil && !rq.resp.Hung && now()-rq.end > 5*time.Minute {
			site := "?"
			if f := runtime.FuncForPC(starts[i]); f != nil {
				site = f.Name()
			}
			left[site] = append(left[site], rq)
		}
	}
	var sites []string
	for s := range left {
		sites = append(sites, s)
	}
	sort.Strings(sites)
	for _, s := range sites {
		if of := left[s]; len(of) > 4 && !leftReported[s] {
			sort.Slice(of, func(i, j int) bool { return of[i].end < of[j].end })
			leftReported[s] = true
			violate(ps("C13"), "goroutines left behind", "%d started at %s by requests answered long ago, the first %s", len(of), s, of[0].desc())
		}
	}
}

var leftReported = map[string]bool{}

func dumpStacks() {
	if os.Getenv("VERIF_DUMP") != "" {
		b := make([]byte, 4<<20)
		os.Stderr.Write(b[:runtime.Stack(b, true)])
	}
}
