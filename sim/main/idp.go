package main

import (
	"crypto"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"net/url"
	"strings"
	"time"
)

// Simulated identity providers. They are ordinary, correct OpenID providers;
// faults are injected by the network in front of them, or by the misissue
// operation.

type idpKey struct {
	kid   string
	k     *rsa.PrivateKey
	from  time.Duration // published from .. to
	to    time.Duration
	inSet bool
}

type idp struct {
	idx     int
	host    string
	keys    []*idpKey
	signing int
	mis     []string // the next token responses are defective in these ways
	junk    bool     // key set also contains entries the adapter cannot use
	decoys  int      // and this many keys nobody signs with
}

const forever = time.Duration(1<<62 - 1)

type codeRec struct {
	code, cfg, client, redirect string
	login                       *login
	issued                      time.Duration
	used                        bool
	usedBy                      string
}

// login: one user's authentication at a provider for a client.
type login struct {
	id      int
	idp     int
	client  string
	user    string
	revoked bool
	tainted bool    // the provider issued defective tokens on a refresh
	first   *issued // tokens issued for the code
	issues  int
}

type tokInfo struct {
	raw     string
	login   *login // nil: minted for a bearer request
	kind    string // access, id, refresh
	jwt     bool
	exp     time.Duration // simulated time, not wall
	nbf     time.Duration
	idp     int
	kid     string
	goodSig bool // signed by the key published under kid
	odd     bool // claims of types no provider issues: nothing is expected
	aud     []string
	claims  map[string]interface{}
	bad     string // deliberate defect
	used    bool   // refresh token already redeemed under rotation
	usedBy  string
	issue   int      // how many times tokens had been issued to the login
	refresh *tokInfo // refresh token issued along with an access token
}

type issued struct {
	access, id, refresh *tokInfo
	mis                 string
}

var (
	idps   []*idp
	codes  = map[string]*codeRec{}
	tokens = map[string]*tokInfo{} // access, id and refresh tokens by value
	logins []*login

	attacker *rsa.PrivateKey
)

func idpHost(i int) string { return fmt.Sprintf("idp%d.sim", i) }

func fixture(i int) *rsa.PrivateKey {
	der, err := base64.StdEncoding.DecodeString(keyFixtures[i])
	if err != nil {
		fatal("key fixture: %v", err)
	}
	kk, err := x509.ParsePKCS1PrivateKey(der)
	if err != nil {
		fatal("key fixture: %v", err)
	}
	return kk
}

const keysPerIdp = 8

func setupIdps(w *World) {
	attacker = fixture(len(keyFixtures) - 1)
	for i := range w.Idps {
		p := &idp{idx: i, host: idpHost(i), junk: w.Idps[i].Junk, decoys: w.Idps[i].Decoys}
		for j := 0; j < keysPerIdp; j++ {
			p.keys = append(p.keys, &idpKey{kid: fmt.Sprintf("kid-%d-%d", i, j), k: fixture(i*keysPerIdp + j), from: forever, to: forever})
		}
		p.keys[0].from, p.keys[0].inSet = 0, true
		idps = append(idps, p)
	}
}

func attackerKey() *rsa.PrivateKey { return attacker }

func (p *idp) rotate(drop bool) {
	next := p.signing + 1
	if next >= keysPerIdp {
		return
	}
	p.keys[next].from, p.keys[next].inSet = now(), true
	if drop {
		for _, kk := range p.keys[:next] {
			if kk.inSet {
				kk.inSet, kk.to = false, now()
			}
		}
	}
	p.signing = next
}

// withdraw removes all keys; what is issued until the next rotation nobody can
// verify.
func (p *idp) withdraw() {
	if p.signing+1 >= keysPerIdp {
		return
	}
	for _, kk := range p.keys {
		if kk.inSet {
			kk.inSet, kk.to = false, now()
		}
	}
}

// restore ends the time without keys.
func (p *idp) restore() {
	if !p.keys[p.signing].inSet {
		p.rotate(false)
	}
}

// retire removes all keys but the signing key from the published set.
func (p *idp) retire() {
	for j, kk := range p.keys {
		if kk.inSet && j != p.signing {
			kk.inSet, kk.to = false, now()
		}
	}
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func (p *idp) jwks() []byte {
	ks := []map[string]interface{}{}
	if p.junk {
		ks = append(ks, map[string]interface{}{"kty": "EC", "kid": "ec-1", "crv": "P-256", "x": "AA", "y": "AA"},
			map[string]interface{}{"kty": "RSA", "kid": "broken", "n": "!!", "e": "AQAB"},
			map[string]interface{}{"kty": "RSA", "n": "AQAB", "e": "AQAB"})
	}
	for i := 0; i < p.decoys; i++ {
		n := make([]byte, 128)
		for j := range n {
			n[j] = byte(mix(uint64(p.idx*1000+i), uint64(j)))
		}
		n[0], n[127] = n[0]|128, n[127]|1
		ks = append(ks, map[string]interface{}{"kty": "RSA", "use": "sig", "alg": "RS256", "kid": fmt.Sprintf("decoy-%d", i), "n": b64(n), "e": "AQAB"})
	}
	for j, kk := range p.keys {
		if !kk.inSet {
			continue
		}
		e := b64(big.NewInt(int64(kk.k.E)).Bytes())
		n := b64(kk.k.N.Bytes())
		if j%2 == 1 { // some providers use the standard alphabet
			n = base64.StdEncoding.EncodeToString(kk.k.N.Bytes())
		}
		m := map[string]interface{}{"kty": "RSA", "use": "sig", "alg": "RS256", "kid": kk.kid, "n": n, "e": e}
		if p.junk {
			if j%3 == 0 {
				delete(m, "use")
			}
			if j%3 == 1 {
				delete(m, "alg")
			}
			m["x5c"], m["key_ops"] = []string{"MIIC"}, []string{"verify"}
		}
		ks = append(ks, m)
	}
	if p.junk {
		ks = append(ks, map[string]interface{}{"kty": "oct", "kid": "oct-1", "k": "AAAA"})
	}
	b, _ := json.Marshal(map[string]interface{}{"keys": ks})
	return b
}

func (p *idp) kids() map[string]bool {
	m := map[string]bool{}
	for _, kk := range p.keys {
		if kk.inSet {
			m[kk.kid] = true
		}
	}
	return m
}

func signRS256(h map[string]interface{}, claims map[string]interface{}, key *rsa.PrivateKey) string {
	hb, _ := json.Marshal(h)
	cb, _ := json.Marshal(claims)
	if raw, ok := claims[""].(string); ok {
		cb = []byte(raw)
	}
	in := b64(hb) + "." + b64(cb)
	d := sha256.Sum256([]byte(in))
	sig, err := rsa.SignPKCS1v15(nil, key, crypto.SHA256, d[:])
	if err != nil {
		fatal("sign: %v", err)
	}
	return in + "." + b64(sig)
}

func unix(d time.Duration) int64 { return k.start.Add(d).Unix() }

// simOf converts a wall-clock second of the simulated clock to run time.
func simOf(sec int64) time.Duration { return time.Unix(sec, 0).Sub(k.start) }

var tokSeq int

// issueTokens makes an access and an ID token (and a refresh token) for l.
func (p *idp) issueTokens(l *login, cd *ClientDef, refresh bool, mis string) map[string]interface{} {
	tokSeq++
	nonce := fmt.Sprintf("%d", tokSeq)
	kk := p.keys[p.signing]
	n := now()
	if !kk.inSet && mis == "" {
		mis = "withdrawn"
	}
	mk := func(kind string, ttl int) (string, *tokInfo) {
		exp := unix(n) + int64(ttl)
		aud := []string{cd.ID}
		bad := ""
		key, kid := kk.k, kk.kid
		if kind == "access" && mis == "wrongaud" {
			aud, bad = []string{"someone-else"}, mis
		}
		if kind == "id" && mis == "expiredid" || kind == "access" && mis == "expiredaccess" {
			exp, bad = unix(n)-30, mis
		}
		if kind == "id" && mis == "badsigid" || kind == "access" && mis == "badsigaccess" {
			key, bad = attackerKey(), mis
		}
		if kind == "id" && mis == "unknownkid" {
			key, kid, bad = attackerKey(), "kid-unknown", mis
		}
		cl := map[string]interface{}{"iss": "http://" + p.host, "sub": l.user, "exp": exp, "iat": unix(n), "jti": nonce + kind, "email": l.user + "@mail.sim", "scope": "openid read", "roles": []string{"r-" + l.user, "member"}}
		if cd.AudArray {
			cl["aud"] = append(aud, "other-api")
			aud = append(aud, "other-api")
		} else {
			cl["aud"] = aud[0]
		}
		ti := &tokInfo{login: l, kind: kind, jwt: true, exp: simOf(exp), idp: p.idx, kid: kid, goodSig: key == kk.k, aud: aud, claims: norm(cl), bad: bad, nbf: -forever}
		if kind == "access" && cd.Access != "jwt" {
			ti.jwt = false
			ti.raw = fmt.Sprintf("opaque-%d-%s-%x", p.idx, nonce, rnd("opaque", uint64(tokSeq)))
			if cd.Access == "opaque3" {
				ti.raw = fmt.Sprintf("op.%d%s.%x", p.idx, nonce, rnd("opaque", uint64(tokSeq)))
			}
		} else {
			ti.raw = signRS256(map[string]interface{}{"alg": "RS256", "typ": "JWT", "kid": kid}, cl, key)
		}
		tokens[ti.raw] = ti
		return ti.raw, ti
	}
	out := map[string]interface{}{"token_type": "Bearer", "expires_in": cd.AccessTTL}
	if p.junk {
		out["scope"], out["session_state"], out["not-before-policy"], out["ext"] = "openid read", "x", 0, map[string]string{"access_token": "x"}
	}
	l.issues++
	a, at := mk("access", cd.AccessTTL)
	i, it := mk("id", cd.IDTTL)
	at.issue, it.issue = l.issues, l.issues
	out["access_token"] = a
	if mis != "noid" {
		out["id_token"] = i
	}
	if refresh {
		r := fmt.Sprintf("refresh-%d-%s-%x", p.idx, nonce, rnd("refresh", uint64(tokSeq)))
		at.refresh = &tokInfo{raw: r, login: l, kind: "refresh", idp: p.idx, exp: forever}
		tokens[r] = at.refresh
		out["refresh_token"] = r
	}
	if l.first == nil {
		l.first = &issued{at, it, at.refresh, mis}
	} else if mis != "" {
		l.tainted = true
	}
	return out
}

// norm: claims as a JSON decoder would see them.
func norm(m map[string]interface{}) map[string]interface{} {
	b, _ := json.Marshal(m)
	out := map[string]interface{}{}
	_ = json.Unmarshal(b, &out)
	return out
}

func jsonReply(status int, v interface{}) *reply {
	b, _ := json.Marshal(v)
	return &reply{status: status, hdr: jsonHdr, body: b}
}

func oauthErr(status int, code string) *reply {
	return jsonReply(status, map[string]string{"error": code, "error_description": "refused"})
}

// discovery describes the endpoints of configuration cfg at provider host.
func discovery(host, cfg string, more bool) map[string]interface{} {
	b := "http://" + host + "/c/" + cfg
	m := map[string]interface{}{"issuer": b, "authorization_endpoint": b + "/authorize", "token_endpoint": b + "/token", "jwks_uri": b + "/keys", "userinfo_endpoint": b + "/userinfo"}
	if more {
		m["response_types_supported"] = []string{"code", "id_token"}
		m["scopes_supported"] = []string{"openid", "email"}
		m["token_endpoint_auth_methods_supported"] = []string{"client_secret_basic", "client_secret_post"}
		m["mtls_endpoint_aliases"] = map[string]string{"token_endpoint": "http://mtls.sim/token", "issuer": "x"}
		m["request_parameter_supported"] = false
		m["end_session_endpoint"] = nil
	}
	return m
}

func idpServe(cl *call) *reply {
	var p *idp
	for _, q := range idps {
		if q.host == cl.host {
			p = q
		}
	}
	if p == nil {
		cl.note = "unknown host"
		return oauthErr(404, "not_found")
	}
	parts := strings.Split(strings.Trim(cl.path, "/"), "/")
	if len(parts) < 3 {
		return oauthErr(404, "not_found")
	}
	cfg, what := parts[1], strings.Join(parts[2:], "/")
	switch {
	case parts[0] == "j" && what == "keys", parts[0] == "c" && what == "keys":
		return p.serveKeys(cl)
	case parts[0] != "c":
	case what == ".well-known/openid-configuration":
		return jsonReply(200, discovery(p.host, cfg, p.junk))
	case what == "token" && cl.method == "POST":
		return p.serveToken(cl, cfg)
	case what == "userinfo":
		t := strings.TrimPrefix(cl.hdr.Get("Authorization"), "Bearer ")
		ti := tokens[t]
		if ti == nil || ti.kind != "access" || ti.exp <= now() || ti.login == nil || ti.login.revoked || ti.idp != p.idx || ti.bad != "" {
			return oauthErr(401, "invalid_token")
		}
		u := map[string]interface{}{"sub": ti.login.user}
		if p.junk {
			u["active"], u["address"], u["roles"] = true, map[string]string{"country": "x"}, []int{1, 2}
		}
		return jsonReply(200, u)
	}
	return oauthErr(404, "not_found")
}

// keyFetch is one answer of a key set URL.
type keyFetch struct {
	cl   *call
	kids map[string]bool
}

var keyFetches = map[string][]*keyFetch{} // "inst|url"

func (p *idp) serveKeys(cl *call) *reply {
	f := &keyFetch{cl: cl, kids: p.kids()}
	key := fetchKey(cl.c.inst, cl.host, cl.path)
	keyFetches[key] = append(keyFetches[key], f)
	return &reply{status: 200, hdr: jsonHdr, body: p.jwks()}
}

func fetchKey(in *instance, host, path string) string {
	return fmt.Sprintf("%d.%d|%s%s", in.idx, in.inc, host, path)
}

func (p *idp) serveToken(cl *call, cfg string) *reply {
	form, err := url.ParseQuery(string(cl.body))
	if err != nil {
		return oauthErr(400, "invalid_request")
	}
	id, secret := form.Get("client_id"), form.Get("client_secret")
	if u, pw, ok := basicAuth(cl); ok {
		id, secret = u, pw
	}
	cd := clientDef(id)
	if cd == nil || cd.Idp != p.idx || !cd.acceptsSecret(secret) {
		cl.note = "bad client credentials"
		return oauthErr(401, "invalid_client")
	}
	mis := ""
	take := func() string {
		if len(p.mis) > 0 {
			m := p.mis[0]
			p.mis = p.mis[1:]
			return m
		}
		return ""
	}
	switch form.Get("grant_type") {
	case "authorization_code":
		r := codes[form.Get("code")]
		if r == nil || r.used || r.client != id || r.cfg != cfg || r.redirect != form.Get("redirect_uri") || now()-r.issued > 10*time.Minute {
			return oauthErr(400, "invalid_grant")
		}
		r.used, r.usedBy = true, cl.c.label
		mis = take()
		return jsonReply(200, p.issueTokens(r.login, cd, cd.Refresh != "none", mis))
	case "refresh_token":
		t := tokens[form.Get("refresh_token")]
		if t == nil || t.kind != "refresh" || t.used || t.login.revoked || t.login.client != id {
			return oauthErr(400, "invalid_grant")
		}
		mis = take()
		if mis == "refuse" {
			t.login.tainted = true
			return oauthErr(400, "invalid_grant")
		}
		out := p.issueTokens(t.login, cd, cd.Refresh == "rotate", mis)
		switch cd.Refresh {
		case "rotate":
			t.used, t.usedBy = true, cl.c.label
		case "keep":
			out["refresh_token"] = t.raw
		case "omit":
		}
		return jsonReply(200, out)
	}
	return oauthErr(400, "unsupported_grant_type")
}

func basicAuth(cl *call) (string, string, bool) {
	a := cl.hdr.Get("Authorization")
	if !strings.HasPrefix(a, "Basic ") {
		return "", "", false
	}
	b, err := base64.StdEncoding.DecodeString(a[6:])
	if err != nil {
		return "", "", false
	}
	u, pw, ok := strings.Cut(string(b), ":")
	return u, pw, ok
}

// authorize is the browser's visit at the provider's authorization endpoint.
func authorize(loc string, user string) (redirect, code, state string, err error) {
	u, e := url.Parse(loc)
	if e != nil {
		return "", "", "", e
	}
	q := u.Query()
	parts := strings.Split(strings.Trim(u.Path, "/"), "/")
	if len(parts) != 3 || parts[0] != "c" || parts[2] != "authorize" {
		return "", "", "", fmt.Errorf("no authorization endpoint: %s", loc)
	}
	cd := clientDef(q.Get("client_id"))
	if cd == nil || idpHost(cd.Idp) != u.Hostname() {
		return "", "", "", fmt.Errorf("unknown client at %s", loc)
	}
	l := &login{id: len(logins), idp: cd.Idp, client: cd.ID, user: user}
	logins = append(logins, l)
	code = fmt.Sprintf("code-%d-%x", l.id, rnd("code", uint64(l.id)))
	codes[code] = &codeRec{code: code, cfg: parts[1], client: cd.ID, redirect: q.Get("redirect_uri"), login: l, issued: now()}
	return q.Get("redirect_uri"), code, q.Get("state"), nil
}
