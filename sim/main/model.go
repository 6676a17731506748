package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

// The reference model: what the configuration objects say, and since when.
//
// Every object has a history of versions. An adapter instance may lag behind,
// but never behind the last point at which it was at rest with everything
// healthy (instance.base), so the versions that can be in force for a request
// are those that were current at some moment between base and the request's
// end. If only one is left, the expected behaviour is exact.

type objVer struct {
	res, ns, name string
	policy        *PolicySpec
	jwt           *JwtSpec
	oidc          *OidcSpec
	eps           map[epKey]*PathPolicy
	from, to      time.Duration
	absent        bool
	reused        bool // an earlier version had the same URL
}

func (v *objVer) url() string {
	switch {
	case v.jwt != nil:
		return v.jwt.JwksURL
	case v.oidc != nil:
		return v.oidc.DiscoveryURL
	}
	return ""
}

// sure: the call was certainly made on behalf of this version, not of an earlier
// one with the same URL.
func (v *objVer) sure(cl *call) bool { return !v.reused || cl.base >= v.from }

// sharedURLs: URLs that several objects refer to; which of them a call was made
// for cannot be told.
var sharedURLs = map[string]bool{}

func findShared(sc *Scenario) {
	of := map[string]string{}
	for i := range sc.Phases {
		for _, o := range sc.Phases[i].Ops {
			u, key := "", o.Kind+"|"+o.NS+"/"+o.Name
			if o.Jwt != nil {
				u = o.Jwt.JwksURL
			} else if o.Oidc != nil {
				u = o.Oidc.DiscoveryURL
			}
			if u != "" && of[u] != "" && of[u] != key {
				sharedURLs[u] = true
			}
			of[u] = key
		}
	}
}

type epKey struct{ svc, path, method string }

var objHist = map[string][]*objVer{}

var objKeys []string // in order of first appearance

func record(v *objVer) {
	key := v.res + "|" + v.ns + "/" + v.name
	h := objHist[key]
	if h == nil {
		h = []*objVer{{res: v.res, ns: v.ns, name: v.name, absent: true, from: -1, to: forever}}
		objKeys = append(objKeys, key)
	}
	for _, o := range h {
		v.reused = v.reused || v.url() != "" && v.url() == o.url()
	}
	h[len(h)-1].to = now()
	v.from, v.to = now(), forever
	objHist[key] = append(h, v)
}

func current(res, ns, name string) *objVer {
	h := objHist[res+"|"+ns+"/"+name]
	if h == nil || h[len(h)-1].absent {
		return nil
	}
	return h[len(h)-1]
}

// versions that may be in force at in somewhere up to end.
func versions(in *instance, key string, end time.Duration) []*objVer {
	var out []*objVer
	for _, v := range objHist[key] {
		if v.to > in.base && v.from <= end {
			out = append(out, v)
		}
	}
	return out
}

func endpoints(s *PolicySpec) map[epKey]*PathPolicy {
	m := map[epKey]*PathPolicy{}
	for i := range s.Targets {
		t := &s.Targets[i]
		for j := range t.Paths {
			p := &t.Paths[j]
			if len(p.Policies) == 0 {
				continue
			}
			me := p.Method
			if me == "" {
				me = "ALL"
			}
			if p.Exact != "" {
				x := p.Exact
				if x != "/" {
					x = strings.TrimRight(x, "/")
				}
				m[epKey{t.ServiceName, x, me}] = &p.Policies[0]
			}
			if p.Prefix != "" {
				m[epKey{t.ServiceName, strings.TrimSuffix(strings.TrimSuffix(p.Prefix, "*"), "/") + "/*", me}] = &p.Policies[0]
			}
			if p.Exact == "" && p.Prefix == "" {
				m[epKey{t.ServiceName, "/*", me}] = &p.Policies[0]
			}
		}
	}
	return m
}

const (
	cbSuffix = "/oidc/callback"
	loSuffix = "/oidc/logout"
)

// lookupKeys: the endpoints that can decide a request, most specific first.
func lookupKeys(svc, path, method string) []epKey {
	if path != "/" {
		path = strings.TrimRight(path, "/")
	}
	if strings.HasSuffix(path, cbSuffix) {
		path = strings.TrimSuffix(path, cbSuffix)
	} else if strings.HasSuffix(path, loSuffix) {
		path = strings.TrimSuffix(path, loSuffix)
	}
	paths := []string{path}
	p := strings.TrimSuffix(path, "/")
	for {
		paths = append(paths, p+"/*")
		if p == "" {
			break
		}
		p = p[:strings.LastIndex(p, "/")]
	}
	var out []epKey
	for _, x := range paths {
		switch method {
		case "GET", "PUT", "POST", "DELETE", "PATCH":
			out = append(out, epKey{svc, x, method})
		}
		out = append(out, epKey{svc, x, "ALL"})
	}
	return out
}

// act is a policy that may decide a request; pp nil means unprotected.
type act struct {
	pp    *PathPolicy
	ep    epKey
	owner string
}

func (a act) typ() string {
	if a.pp == nil {
		return "none"
	}
	return a.pp.PolicyType
}

// actions: every policy that may decide the request at this instance.
func actions(in *instance, ns, svc, path, method string, end time.Duration) []act {
	type cand struct {
		vs  []*objVer
		key string
	}
	var cs []cand
	for _, key := range objKeys {
		if strings.HasPrefix(key, "policies|"+ns+"/") {
			cs = append(cs, cand{versions(in, key, end), key})
		}
	}
	var out []act
	eps := lookupKeys(svc, path, method)
	// deciding returns whether a policy version decides at ep when every policy is
	// at one of its versions, so that none is seen with some of its endpoints only
	whole := 1
	for _, c := range cs {
		if whole *= max(1, len(c.vs)); whole > 4096 {
			break
		}
	}
	deciding := map[*PathPolicy]bool{}
	none := whole > 4096
	if !none {
		pick := make([]*objVer, len(cs))
		var walk func(i int)
		walk = func(i int) {
			if i < len(cs) {
				for _, v := range cs[i].vs {
					pick[i] = v
					walk(i + 1)
				}
				if len(cs[i].vs) == 0 {
					pick[i] = nil
					walk(i + 1)
				}
				return
			}
			for _, ep := range eps {
				found := false
				for _, v := range pick {
					if v != nil && v.eps[ep] != nil {
						deciding[v.eps[ep]], found = true, true
					}
				}
				if found {
					return
				}
			}
			none = true
		}
		walk(0)
	}
	for _, ep := range eps {
		fixed := false
		for _, c := range cs {
			all := len(c.vs) > 0
			seen := map[string]bool{}
			for _, v := range c.vs {
				pp := v.eps[ep]
				if pp == nil {
					all = false
					continue
				}
				if whole <= 4096 && !deciding[pp] {
					continue
				}
				id := fmt.Sprintf("%+v", *pp)
				if !seen[id] {
					seen[id] = true
					out = append(out, act{pp, ep, c.key})
				}
			}
			fixed = fixed || all
		}
		if fixed {
			return out
		}
	}
	if none {
		out = append(out, act{})
	}
	return out
}

// configs: versions of the configuration a policy refers to.
func configs(in *instance, ns string, pp *PathPolicy, end time.Duration) []*objVer {
	res := "jwtconfigs"
	if pp.PolicyType == "oidc" {
		res = "oidcconfigs"
	}
	key := res + "|" + ns + "/" + pp.Config
	vs := versions(in, key, end)
	if len(vs) == 0 {
		vs = []*objVer{{res: res, ns: ns, name: pp.Config, absent: true, from: -1, to: forever}}
	}
	if !in.settled {
		// not yet loaded, or not yet replaced
		have := false
		for _, v := range vs {
			have = have || v.absent
		}
		if !have {
			vs = append(vs, &objVer{res: res, ns: ns, name: pp.Config, absent: true, from: -1, to: forever})
		}
	}
	return vs
}

// cfgOf splits http://host/c/<cfg>/... or http://host/j/<cfg>/keys.
func cfgOf(u string) (host, cfg string) {
	u = strings.TrimPrefix(u, "http://")
	p := strings.Split(u, "/")
	if len(p) < 3 {
		return u, ""
	}
	return p[0], p[2]
}

func idpOfHost(h string) *idp {
	for _, p := range idps {
		if p.host == h {
			return p
		}
	}
	return nil
}

// evalRules: the documented semantics of rules, on the claims of a token.
func evalRules(rules []Rule, kind string, claims map[string]interface{}) bool {
	for _, r := range rules {
		src := r.Source
		if src == "" {
			src = "access_token"
		}
		if src != kind+"_token" {
			continue
		}
		vals, ok := claimValues(claims, r.Claim)
		if !ok {
			return false
		}
		n := 0
		for _, want := range r.Values {
			if vals[want] {
				n++
			}
		}
		switch r.Match {
		case "ANY":
			if n == 0 {
				return false
			}
		case "NOT":
			if n > 0 {
				return false
			}
		default:
			if n < len(r.Values) || len(r.Values) == 0 {
				return false
			}
		}
	}
	return true
}

func claimValues(c map[string]interface{}, name string) (map[string]bool, bool) {
	var v interface{} = c
	for _, part := range strings.Split(name, ".") {
		m, ok := v.(map[string]interface{})
		if !ok {
			v = nil
			break
		}
		v = m[part]
	}
	out := map[string]bool{}
	add := func(v interface{}) bool {
		switch t := v.(type) {
		case string:
			out[t] = true
		case float64:
			out[strconv.FormatFloat(t, 'f', 0, 64)] = true
		case bool:
			out[strconv.FormatBool(t)] = true
		default:
			return false
		}
		return true
	}
	switch t := v.(type) {
	case nil:
	case string:
		for _, x := range strings.Split(t, " ") {
			out[x] = true
		}
	case []interface{}:
		for _, x := range t {
			if !add(x) {
				return nil, false
			}
		}
	default:
		if !add(v) {
			return nil, false
		}
	}
	return out, true
}

func hasAccessSource(rules []Rule) bool {
	for _, r := range rules {
		if r.Source == "access_token" {
			return true
		}
	}
	return false
}
