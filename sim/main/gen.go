package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// Scenario generation: a scenario is a function of (profile, seed). The
// generator keeps its own picture of the configuration it has written so far,
// to aim requests at interesting places.

type R struct{ s uint64 }

func (r *R) u() uint64 { r.s += 0x9e3779b97f4a7c15; return mix(r.s, 1) }
func (r *R) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.u() % uint64(k))
}
func (r *R) p(pct int) bool             { return r.n(100) < pct }
func (r *R) in(lo, hi int) int          { return lo + r.n(hi-lo+1) }
func (r *R) s1(xs ...string) string     { return xs[r.n(len(xs))] }
func (r *R) i1(xs ...int) int           { return xs[r.n(len(xs))] }
func (r *R) w(ws map[string]int) string { return r.weighted(ws) }

func (r *R) weighted(ws map[string]int) string {
	keys := make([]string, 0, len(ws))
	t := 0
	for k, w := range ws {
		keys = append(keys, k)
		t += w
	}
	sort.Strings(keys)
	x := r.n(t)
	for _, k := range keys {
		if x < ws[k] {
			return k
		}
		x -= ws[k]
	}
	return keys[0]
}

type slot struct {
	ns, svc, path, method string
	prefix                bool
}

type hotEp struct {
	ns string
	ep epKey
}

type gpol struct {
	ns, name string
	spec     *PolicySpec
	eps      map[epKey]*PathPolicy
}

type gen struct {
	R
	sc         *Scenario
	prof       profile
	nss        []string
	svcs       []string
	slots      []slot
	owner      map[slot]string // ns/name
	hot        []hotEp         // endpoints about which something changed
	alike      bool            // objects of different kinds have the same names
	share      bool            // configurations with the same URLs
	overlap    bool            // policies may cover the endpoints of others
	skewed     bool            // the adapters' clocks are wrong
	many       bool            // many objects, browsers, sessions, keys
	nJwt, nPol int             // names in use
	pols       map[string]*gpol
	jwts       map[string]*JwtSpec
	oidcs      map[string]*OidcSpec
	clients    map[string][]string // ns/oidc name -> client ids
	secrets    map[string]map[string]string
	version    int
	opID       int
	curSign    []int
	toks       []*TokSpec // tokens that are used again
}

// profile: what a scenario for a property stresses.
type profile struct {
	phases  int
	ops     int
	mix     map[string]int // operation mix of the busy phases
	probe   map[string]int // of the quiet phases in between
	inst    [2]int
	idps    [2]int
	faults  []string // fault modes for the "fault" operation
	hosts   string   // idp, kube, both
	match   []string
	idTTL   []int
	accTTL  []int // relative to the ID token
	access  []string
	refresh []string
	typ     int // percent of OIDC policies
	spanMs  int // length of a busy phase
	start   string
	stall   int
	touch   int // percent of updates that change nothing, or one thing
}

const day = 24 * 3600

func profiles() map[string]profile {
	base := profile{phases: 2, ops: 40, inst: [2]int{1, 2}, idps: [2]int{1, 2}, faults: []string{"mix"}, hosts: "both", match: []string{""},
		idTTL: []int{3600, day}, accTTL: []int{0, 3600}, access: []string{"jwt", "opaque", "opaque3"}, refresh: []string{"rotate", "keep", "omit", "none"}, typ: 50, spanMs: 20000, stall: 500, touch: 12,
		probe: map[string]int{"call": 40, "visit": 25, "login": 35, "open": 20, "bad": 15}}
	m := map[string]profile{}
	add := func(id string, f func(p *profile)) {
		p := base
		f(&p)
		m[id] = p
	}
	add("C01", func(p *profile) {
		p.mix = map[string]int{"call": 15, "anon": 30, "bad": 20, "visit": 15, "login": 5, "policy": 12, "config": 10, "delconfig": 6, "delpolicy": 2, "fault": 6, "cutwatch": 4, "crash": 6, "rawvisit": 5, "rotate": 2, "malformed": 3}
		p.start = "early"
		p.phases = 3
	})
	add("C02", func(p *profile) {
		p.mix = map[string]int{"policy": 30, "delpolicy": 8, "call": 5, "open": 5, "cutwatch": 1, "method": 5}
		p.probe = map[string]int{"call": 15, "anon": 70, "open": 30, "method": 40, "login": 2}
		p.phases, p.ops, p.typ = 5, 26, 40
		p.hosts = ""
		p.inst = [2]int{1, 1}
	})
	add("C03", func(p *profile) {
		p.mix = map[string]int{"policy": 20, "delpolicy": 8, "config": 14, "delconfig": 8, "cutwatch": 10, "compact": 6, "fault": 6, "crash": 4, "call": 6, "visit": 5, "login": 3}
		p.probe = map[string]int{"call": 30, "anon": 40, "open": 15, "method": 10, "login": 20, "bad": 5}
		p.hosts = "kube"
		p.phases = 4
		p.match = []string{"", "policies", "jwtconfigs", "oidcconfigs"}
		p.faults = []string{"mix", "refuse", "refuse", "err500", "stall"}
	})
	add("C04", func(p *profile) {
		p.mix = map[string]int{"call": 50, "bad": 45, "anon": 5, "boundary": 12, "rotate": 2, "withdraw": 1, "open": 3, "config": 1}
		p.probe = p.mix
		p.typ = 5
		p.ops = 70
		p.hosts = ""
		p.phases = 2
	})
	add("C05", func(p *profile) {
		p.mix = map[string]int{"call": 55, "bad": 10, "rotate": 9, "retire": 5, "withdraw": 3, "fault": 14, "heal": 3, "oldkey": 12, "newkey": 8, "config": 2, "crash": 1, "cutwatch": 2}
		p.probe = map[string]int{"call": 60, "oldkey": 25, "bad": 10, "newkey": 6}
		p.typ = 10
		p.ops = 60
		p.phases = 3
		p.hosts = "idp"
		p.match = []string{"", "/keys", "/keys"}
	})
	add("C06", func(p *profile) {
		p.mix = map[string]int{"login": 25, "attack": 45, "leaky": 6, "visit": 10, "double": 4, "crash": 2, "logout": 3, "slowlogin": 5}
		p.probe = p.mix
		p.typ = 95
		p.inst = [2]int{1, 3}
		p.hosts = ""
		p.phases = 3
	})
	add("C07", func(p *profile) {
		p.mix = map[string]int{"login": 50, "visit": 25, "rawvisit": 15, "double": 6, "logout": 4, "fault": 2}
		p.probe = p.mix
		p.typ = 100
		p.hosts = "idp"
		p.faults = []string{"slow", "mix"}
		p.match = []string{"/token", "/userinfo", ""}
		p.idTTL = []int{20, 60, 3600}
		p.ops = 60
		p.phases = 2
	})
	add("C08", func(p *profile) {
		p.mix = map[string]int{"login": 12, "burst": 24, "visit": 15, "logout": 24, "dropped": 20, "fault": 6}
		p.probe = map[string]int{"login": 25, "burst": 30, "visit": 15, "logout": 15, "dropped": 25}
		p.typ = 100
		p.idTTL = []int{15, 15, 30, 60, 3600}
		p.accTTL = []int{0, 3600, 3600}
		p.hosts = "idp"
		p.faults = []string{"slow", "slow", "lateslow", "tooslow", "mix"}
		p.match = []string{"/token", "/userinfo", "/keys"}
		p.inst = [2]int{1, 1}
		p.phases = 3
		p.ops = 40
		p.spanMs = 60000
	})
	add("C09", func(p *profile) {
		p.mix = map[string]int{"login": 14, "visit": 50, "burst": 6, "fault": 8, "misissue": 6, "heal": 6, "rotate": 2, "withdraw": 2, "logout": 1}
		p.probe = map[string]int{"login": 20, "longvisit": 40, "visit": 30, "misissue": 3}
		p.typ = 100
		p.idTTL = []int{15, 30, 60, 120}
		p.accTTL = []int{0, 0, 3600}
		p.hosts = "idp"
		p.match = []string{"", "/token", "/token", "/keys", "/userinfo"}
		p.phases = 3
		p.spanMs = 200000
		p.inst = [2]int{1, 1}
	})
	add("C10", func(p *profile) {
		p.mix = map[string]int{"login": 50, "visit": 30, "logout": 10, "config": 6, "policy": 6, "fault": 4, "crash": 1}
		p.probe = map[string]int{"login": 50, "visit": 20, "logout": 15}
		p.typ = 95
		p.idps = [2]int{2, 3}
		p.hosts = "both"
		p.match = []string{"", "openid-configuration"}
		p.phases = 3
	})
	add("C11", func(p *profile) {
		p.mix = map[string]int{"login": 40, "crosslogin": 40, "visit": 10, "crash": 10, "fault": 8, "attack": 5, "sigterm": 2, "slowlogin": 2}
		p.probe = map[string]int{"crosslogin": 60, "login": 20, "visit": 5}
		p.typ = 100
		p.inst = [2]int{2, 3}
		p.hosts = "kube"
		p.match = []string{"secrets", "secrets", ""}
		p.faults = []string{"mix", "resplost", "respreset", "err500", "refuse", "slow", "lateslow"}
		p.start = "chaos"
		p.phases = 3
		p.ops = 36
	})
	add("C12", func(p *profile) {
		p.mix = map[string]int{"login": 50, "double": 10, "attack": 8, "visit": 20, "fault": 12, "config": 6, "secret": 6, "heal": 4}
		p.probe = map[string]int{"login": 60, "double": 5, "attack": 5, "visit": 20}
		p.typ = 100
		p.idps = [2]int{2, 3}
		p.hosts = "both"
		p.match = []string{"", "/token", "/token", "secrets"}
		p.idTTL = []int{15, 60, 3600}
		p.phases = 3
	})
	add("C13", func(p *profile) {
		p.mix = map[string]int{"call": 25, "login": 25, "visit": 20, "fault": 16, "config": 5, "bad": 8, "burst": 5, "heal": 2}
		p.probe = map[string]int{"call": 25, "login": 25, "visit": 20, "anon": 10}
		p.hosts = "idp"
		p.faults = []string{"stall", "stall", "bodystall", "tooslow", "resplost", "mix"}
		p.match = []string{"", "", "/keys", "/token", "/userinfo", "openid-configuration"}
		p.idTTL = []int{15, 60, 3600}
		p.phases = 3
		p.spanMs = 40000
	})
	add("C14", func(p *profile) {
		p.mix = map[string]int{"call": 35, "open": 20, "visit": 25, "login": 20, "anon": 5, "config": 6, "policy": 3, "badkid": 8}
		p.probe = p.mix
		p.hosts = "one"
		p.faults = []string{"stall", "stall", "tooslow", "refuse", "err500", "garbage", "mix"}
		p.idps = [2]int{2, 3}
		p.inst = [2]int{1, 1}
		p.phases = 3
		p.start = "isolate"
		p.spanMs = 60000
		p.stall = 40
	})
	add("C15", func(p *profile) {
		p.mix = map[string]int{"call": 20, "bad": 8, "login": 18, "visit": 15, "rawvisit": 5, "logout": 4, "burst": 8, "attack": 8, "policy": 10, "delpolicy": 5, "config": 10, "delconfig": 6, "fault": 10, "rotate": 3, "misissue": 3, "withdraw": 1, "malformed": 6, "cutwatch": 3, "crash": 2, "badkid": 4, "sigterm": 1, "method": 3, "secret": 2}
		p.faults = []string{"mix", "garbage", "garbage", "trunc", "strip"}
		p.idTTL = []int{15, 60, 3600}
		p.phases = 2
		p.ops = 70
		p.spanMs = 8000
		p.idps = [2]int{1, 3}
		p.start = "early"
	})
	add("C16", func(p *profile) {
		p.mix = map[string]int{"config": 14, "policy": 3, "call": 20, "visit": 14, "login": 14, "heal": 6, "fault": 12, "crash": 4, "open": 2, "burst": 5}
		p.probe = map[string]int{"call": 40, "login": 45, "visit": 15, "anon": 5}
		p.hosts = "idp"
		p.match = []string{"", "", "openid-configuration", "/keys"}
		p.start = "outage"
		p.phases = 3
	})
	add("C20", func(p *profile) {
		p.mix = map[string]int{"call": 35, "visit": 25, "login": 12, "burst": 5, "anon": 6, "bad": 6, "policy": 14, "config": 22, "cutwatch": 5, "compact": 2, "secret": 2, "fault": 6}
		p.probe = map[string]int{"call": 30, "login": 45, "visit": 15}
		p.touch = 55
		p.phases = 4
		p.ops = 50
		p.spanMs = 8000
		p.typ = 55
		p.faults = []string{"slow", "slow", "lateslow", "mix"}
		p.match = []string{"", "openid-configuration", "secrets", "/keys"}
	})
	// everything at once, close together: for the race detector
	add("race", func(p *profile) {
		p.mix = map[string]int{"call": 20, "bad": 8, "login": 22, "visit": 15, "logout": 4, "burst": 12, "double": 8, "attack": 4, "policy": 10, "delpolicy": 5, "config": 10, "delconfig": 6, "fault": 6, "rotate": 6, "secret": 4, "badkid": 4, "newkey": 6, "cutwatch": 2}
		p.inst = [2]int{1, 1}
		p.idps = [2]int{1, 2}
		p.match = []string{"", "secrets", "/keys", "/token"}
		p.faults = []string{"mix", "err500", "refuse", "slow"}
		p.idTTL = []int{15, 60, 3600}
		p.start = "chaos"
		p.spanMs = 6000
		p.phases = 2
		p.ops = 60
	})
	return m
}

func generate(prof string, seed uint64) *Scenario {
	p, ok := profiles()[prof]
	if !ok {
		return nil
	}
	sc := &Scenario{Seed: seed, Profile: prof}
	g := &gen{R: R{mix(hashStr("gen"+prof), seed)}, sc: sc, prof: p, owner: map[slot]string{}, pols: map[string]*gpol{}, jwts: map[string]*JwtSpec{}, oidcs: map[string]*OidcSpec{}, clients: map[string][]string{}, secrets: map[string]map[string]string{}}
	g.knobs()
	g.overlap = g.p(25)
	g.share = g.p(20)
	g.alike = g.p(15)
	g.nJwt, g.nPol = 2, 3
	if prof != "race" && g.p(6) {
		g.many = true
		g.nJwt, g.nPol = g.in(2, 12), g.in(3, 24)
	}
	g.world()
	g.phases()
	return sc
}

func (g *gen) knobs() {
	k := &g.sc.Knobs
	k.Sched = g.s1("random", "random", "prio", "prio", "bglast", "bgfirst", "fifo")
	k.YieldHot = g.i1(0, 100, 300, 1000, 1000)
	k.YieldCold = g.i1(0, 0, 5, 30, 200)
	k.HotPct = g.i1(5, 15, 30, 60)
	k.Stall = g.i1(0, 0, 5, 30, 100)
	k.StallMaxMs = g.prof.stall
	if g.p(50) {
		k.StallMaxMs /= 5
	}
	k.TickUs = g.i1(5, 50, 500)
	k.Changes = g.i1(0, 5, 30)
	k.NetJitterMs = g.i1(0, 5, 50, 200)
	k.WatchLagMs = g.i1(0, 10, 500, 5000)
	k.StaleList = g.i1(0, 0, 50, 100)
	k.MaxSteps = 400000
	if g.prof.stall <= 100 && k.NetJitterMs > 50 {
		k.NetJitterMs = 50
	}
}

func (g *gen) world() {
	w := &g.sc.World
	p := g.prof
	n := g.in(p.idps[0], p.idps[1])
	for i := 0; i < n; i++ {
		w.Idps = append(w.Idps, IdpDef{Junk: g.p(30), Decoys: g.i1(0, 0, 0, 0, 0, 0, 0, 5, 12, 70)})
		g.curSign = append(g.curSign, 0)
	}
	w.Instances = g.in(p.inst[0], p.inst[1])
	if g.sc.Profile != "race" && g.p(18) {
		g.skewed = true
		for i := 0; i < w.Instances; i++ {
			w.Skew = append(w.Skew, g.skew())
		}
	}
	w.Browsers = g.in(2, 4)
	w.HashKey = g.i1(32, 64)
	w.BlockKey = g.i1(16, 24, 32)
	w.NewSizes = g.p(30)
	g.nss = []string{"ns0", "ns1"}[:g.in(1, 2)]
	if g.p(10) {
		g.nss = []string{"ns0", "ns0-x"} // and names that make them look alike
	}
	g.svcs = []string{"svc0", "svc1", "svc2"}[:g.in(1, 3)]
	nOidc := 2
	if g.many {
		w.Browsers = g.in(30, 130)
		g.svcs = nil
		for i := g.in(1, 14); i >= 0; i-- {
			g.svcs = append(g.svcs, fmt.Sprintf("svc%d", len(g.svcs)))
		}
		nOidc = g.in(1, 9)
	}
	exacts := []string{"/", "/a", "/a/b", "/a/b/c", "/a/bb", "/x", "/x/y"}
	prefixes := []string{"/", "/a", "/a/b", "/x"}
	if g.p(40) {
		exacts = append(exacts, "/a/b/c/d/e")
		prefixes = append(prefixes, "/a/b/c", "/a/b/c/d", "/x/y")
	}
	for _, ns := range g.nss {
		for _, svc := range g.svcs {
			methods := []string{"ALL", "GET", "POST", "DELETE"}
			if g.p(30) {
				methods = []string{"ALL", "GET", "PUT", "PATCH", "POST", "DELETE"}
			}
			for _, me := range methods {
				for _, x := range exacts {
					g.slots = append(g.slots, slot{ns, svc, x, me, false})
				}
				for _, x := range prefixes {
					g.slots = append(g.slots, slot{ns, svc, x, me, true})
				}
			}
		}
		for i := g.in(1, nOidc) - 1; i >= 0; i-- {
			name := g.name("o", i)
			if all := g.allClients(); len(all) > 0 && g.p(15) { // a client configured twice
				g.clients[ns+"/"+name] = []string{all[g.n(len(all))]}
				continue
			}
			for c := 0; c < g.i1(1, 1, 2); c++ {
				id := fmt.Sprintf("client-%s-%s-%d", ns, name, c) + g.s1("", "", "", ".apps.sim", "@app/x", "=&;é")
				idttl := p.idTTL[g.n(len(p.idTTL))]
				w.Clients = append(w.Clients, ClientDef{ID: id, Idp: g.n(n), Secrets: []string{"s3cr3t-" + id + g.s1("-a", "-a", "+/=%41 &:a"), "s3cr3t-" + id + "-b"}, Access: p.access[g.n(len(p.access))],
					Refresh: p.refresh[g.n(len(p.refresh))], IDTTL: idttl, AccessTTL: idttl + p.accTTL[g.n(len(p.accTTL))], AudArray: g.p(25)})
				g.clients[ns+"/"+name] = append(g.clients[ns+"/"+name], id)
			}
		}
	}
}

func (g *gen) skew() int {
	return g.i1(0, 1, -1) * g.i1(700, 3000, 20_000, 90_000, 400_000)
}

func (g *gen) allClients() []string {
	var out []string
	for _, c := range g.sc.World.Clients {
		out = append(out, c.ID)
	}
	return out
}

func (g *gen) cdef(id string) *ClientDef {
	for i := range g.sc.World.Clients {
		if g.sc.World.Clients[i].ID == id {
			return &g.sc.World.Clients[i]
		}
	}
	return nil
}

// ---------------------------------------------------------------- phases

func (g *gen) op(kind string) *Op {
	g.opID++
	return &Op{ID: g.opID, Kind: kind}
}

func (g *gen) inst() int { return g.n(g.sc.World.Instances) }

func (g *gen) phases() {
	p := g.prof
	// initial configuration
	var ops []*Op
	boot := func(at int64) {
		for i := 0; i < g.sc.World.Instances; i++ {
			o := g.op("boot")
			o.Inst = i
			o.At = at + int64(g.n(3000))
			ops = append(ops, o)
		}
	}
	if p.start == "outage" || p.start == "chaos" || p.start != "isolate" && g.p(10) && p.hosts != "" {
		for i := 0; i < g.in(1, 2); i++ {
			if o := g.faultOp(); o != nil {
				o.Fault.DurMs = g.in(500, 40000)
				ops = append(ops, o)
			}
		}
	}
	early := p.start != "" && g.p(60) || g.p(20)
	if early {
		boot(int64(g.n(5)) * 1000)
	}
	ops = append(ops, g.initial()...)
	if !early {
		boot(int64(g.n(2000)) * 1000)
	}
	if p.start == "early" || g.p(20) {
		for i := 0; i < g.in(3, 12); i++ {
			for _, o := range g.request(g.w(map[string]int{"call": 20, "anon": 40, "visit": 20, "bad": 20})) {
				o.At = int64(g.n(4000)) * int64(g.i1(1, 10, 1000))
				ops = append(ops, o)
			}
		}
	}
	if p.start == "chaos" {
		for i := 0; i < g.in(3, 10); i++ {
			for _, o := range g.request(g.w(map[string]int{"crosslogin": 20, "login": 40, "visit": 20})) {
				o.At = int64(g.n(20000)) * int64(g.i1(1, 10, 1000))
				ops = append(ops, o)
			}
		}
		for i := 0; i < g.n(4); i++ {
			ops = append(ops, g.crash(int64(g.n(30000))*int64(g.i1(1, 100, 1000)))...)
		}
	}
	g.phase("start", ops, true)
	for i := 0; i < p.phases; i++ {
		g.probes(i == 0)
		g.hot = nil
		if g.many && g.p(60) {
			g.mass()
		}
		if g.p(25) && g.sc.Profile != "race" {
			g.steps()
		}
		g.busy(i)
		if g.p(7) && g.sc.Profile != "race" {
			g.idle()
		}
	}
	g.probes(false)
}

func (g *gen) phase(name string, ops []*Op, settle bool) {
	ph := Phase{Name: name, Settle: settle}
	// objects change in the order in which they were generated
	var objs []*Op
	var ats []int64
	for _, o := range ops {
		switch o.Kind {
		case "policy", "jwt", "oidc", "delete", "secret", "delsecret":
			objs, ats = append(objs, o), append(ats, o.At)
		}
	}
	sort.Slice(ats, func(i, j int) bool { return ats[i] < ats[j] })
	for i, o := range objs {
		o.At = ats[i]
		if i > 0 && o.At <= objs[i-1].At {
			o.At = objs[i-1].At + 1
		}
	}
	for _, o := range ops {
		ph.Ops = append(ph.Ops, *o)
	}
	g.sc.Phases = append(g.sc.Phases, ph)
}

func (g *gen) initial() []*Op {
	var ops []*Op
	if g.p(30) { // secrets of the same names elsewhere
		for _, ns := range []string{"istio-system", "default", "ns0", "ns1"} {
			for i := 0; i < 2; i++ {
				o := g.op("secret")
				o.NS, o.Name, o.Secret = ns, fmt.Sprintf("sec-o%d", i), map[string]string{"secret": "decoy-" + ns, "other": "decoy"}
				ops = append(ops, o)
			}
		}
	}
	if g.p(20) { // configurations of the same names elsewhere
		for _, ns := range []string{"istio-system", "default"} {
			o := g.op("jwt")
			o.NS, o.Name, o.Jwt = ns, "j0", &JwtSpec{JwksURL: fmt.Sprintf("http://%s/j/%s-j0-v0/keys", idpHost(g.n(len(g.sc.World.Idps))), ns)}
			ops = append(ops, o)
			if names := g.oidcNames(g.nss[0]); len(names) > 0 {
				cd := g.cdef(g.clients[g.nss[0]+"/"+names[0]][0])
				o := g.op("oidc")
				o.NS, o.Name = ns, names[0]
				o.Oidc = &OidcSpec{ClientID: cd.ID, ClientSecret: cd.Secrets[0], DiscoveryURL: fmt.Sprintf("http://%s/c/%s-%s-v0/.well-known/openid-configuration", idpHost(cd.Idp), ns, names[0])}
				ops = append(ops, o)
			}
		}
	}
	for _, ns := range g.nss {
		for i := g.in(1, g.nJwt) - 1; i >= 0; i-- {
			ops = append(ops, g.putJwt(ns, g.name("j", i)))
		}
		for _, name := range g.oidcNames(ns) {
			ops = append(ops, g.putOidc(ns, name)...)
		}
		for i := g.in(1, g.nPol) - 1; i >= 0; i-- {
			ops = append(ops, g.putPolicy(ns, g.name("p", i)))
		}
	}
	return ops
}

// name is the name of the i-th object of a kind.
func (g *gen) name(kind string, i int) string {
	if g.alike {
		kind = "x"
	}
	if len(g.nss) > 1 && g.nss[1] == "ns0-x" && i%2 == 1 {
		return fmt.Sprintf("x-%s%d", kind, i-1)
	}
	return fmt.Sprintf("%s%d", kind, i)
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (g *gen) oidcNames(ns string) []string {
	var out []string
	for n := range g.clients {
		if strings.HasPrefix(n, ns+"/") {
			out = append(out, strings.TrimPrefix(n, ns+"/"))
		}
	}
	sort.Strings(out)
	return out
}

func (g *gen) putJwt(ns, name string) *Op {
	g.version++
	s := &JwtSpec{JwksURL: fmt.Sprintf("http://%s/j/%s-%s-v%d/keys", idpHost(g.n(len(g.sc.World.Idps))), ns, name, g.version)}
	if old := g.jwts[ns+"/"+name]; old != nil && g.p(70) {
		h, _ := cfgOf(old.JwksURL)
		s.JwksURL = fmt.Sprintf("http://%s/j/%s-%s-v%d/keys", h, ns, name, g.version)
		if g.p(20) { // only annotations change
			s.JwksURL = old.JwksURL
		}
	}
	if old := g.jwts[ns+"/"+name]; old != nil && g.p(g.prof.touch) {
		*s = *old
	}
	if all := sortedKeys(g.jwts); g.share && len(all) > 0 && g.p(40) {
		s.JwksURL = g.jwts[all[g.n(len(all))]].JwksURL
	}
	g.jwts[ns+"/"+name] = s
	o := g.op("jwt")
	o.NS, o.Name, o.Jwt = ns, name, s
	return o
}

func (g *gen) putOidc(ns, name string) []*Op {
	g.version++
	key := ns + "/" + name
	ids := g.clients[key]
	id := ids[0]
	if len(ids) > 1 && g.p(20) {
		id = ids[g.n(len(ids))]
	}
	cd := g.cdef(id)
	s := &OidcSpec{ClientID: id, DiscoveryURL: fmt.Sprintf("http://%s/c/%s-%s-v%d/.well-known/openid-configuration", idpHost(cd.Idp), ns, name, g.version), AuthMethod: g.s1("", "client_secret_basic", "client_secret_post")}
	if old := g.oidcs[key]; old != nil && g.p(40) {
		if h, _ := cfgOf(old.DiscoveryURL); h == idpHost(cd.Idp) {
			s.DiscoveryURL = old.DiscoveryURL
		}
	}
	if all := sortedKeys(g.oidcs); g.share && len(all) > 0 && g.p(60) {
		o := g.oidcs[all[g.n(len(all))]]
		if h, _ := cfgOf(o.DiscoveryURL); h == idpHost(cd.Idp) {
			s.DiscoveryURL = o.DiscoveryURL
		}
	}
	var ops []*Op
	if old := g.oidcs[key]; old != nil && g.p(g.prof.touch) {
		*s = *old
		o := g.op("oidc")
		o.NS, o.Name, o.Oidc = ns, name, s
		return append(ops, o)
	}
	if g.p(50) {
		sec := "sec-" + name
		s.ClientSecretRef = &SecretRef{sec, "secret"}
		if g.p(50) {
			s.ClientSecret = cd.Secrets[1]
		}
		if g.p(85) {
			o := g.op("secret")
			o.NS, o.Name, o.Secret = ns, sec, map[string]string{"secret": cd.Secrets[0], "other": "nope"}
			if g.p(10) {
				o.Secret = map[string]string{"wrongkey": cd.Secrets[0]}
			}
			ops = append(ops, o)
		}
	} else {
		s.ClientSecret = cd.Secrets[g.n(2)]
	}
	if g.p(30) {
		s.Scopes = []string{"openid", g.s1("custom-", "https://api.sim/read?a=1&b=", "x+y/%41;") + name}
		for i := g.i1(0, 0, 1, 2, 6); i > 0; i-- {
			s.Scopes = append(s.Scopes, g.s1("email", "profile", "offline_access", "OpenID", "phone", "address"))
		}
		for i := range s.Scopes {
			if g.p(30) {
				s.Scopes[0], s.Scopes[i] = s.Scopes[i], s.Scopes[0]
			}
		}
	}
	g.oidcs[key] = s
	o := g.op("oidc")
	o.NS, o.Name, o.Oidc = ns, name, s
	return append(ops, o)
}

func (g *gen) putPolicy(ns, name string) *Op {
	key := ns + "/" + name
	spec := &PolicySpec{}
	old := g.pols[key]
	mine := map[slot]bool{}
	for s, o := range g.owner {
		if o == key {
			mine[s] = true
		}
	}
	if old != nil && g.p(g.prof.touch) { // the same again, or with one endpoint decided otherwise
		b, _ := json.Marshal(old.spec)
		json.Unmarshal(b, spec)
		if len(spec.Targets) > 0 && g.p(60) {
			t := &spec.Targets[g.n(len(spec.Targets))]
			g.touch(ns, &t.Paths[g.n(len(t.Paths))].Policies[0])
		}
		return g.setPolicy(ns, name, spec)
	}
	// the slots this policy will have: keep some, drop some, add some
	var use []slot
	for _, s := range g.slots {
		if s.ns != ns {
			continue
		}
		own := g.owner[s]
		switch {
		case own == key && old != nil:
			if g.p(70) {
				use = append(use, s)
			} else if g.overlap {
				delete(g.owner, s) // another policy may take it at once
			}
		case own == "":
			if g.p(g.i1(3, 6, 10)) {
				use = append(use, s)
			}
		case own != key && g.overlap && g.p(15): // two policies for one endpoint
			use = append(use, s)
		}
	}
	if g.p(50) { // else in the order of services and methods, the first of them
		for i := len(use) - 1; i > 0; i-- {
			j := g.n(i + 1)
			use[i], use[j] = use[j], use[i]
		}
	}
	if len(use) > 9 {
		use = use[:9]
	}
	bySvc := map[string]*Target{}
	both := map[slot]bool{}
	var order []string
	for _, s := range use {
		if g.owner[s] == "" { // else it belongs to another policy as well
			g.owner[s] = key // for the rest of this phase it stays reserved
		}
		t := bySvc[s.svc]
		if t == nil {
			t = &Target{ServiceName: s.svc}
			bySvc[s.svc] = t
			order = append(order, s.svc)
		}
		if both[s] {
			continue // already there
		}
		pc := PathCfg{Method: s.method, Policies: []PathPolicy{g.pathPolicy(ns)}}
		if s.method == "ALL" && g.p(50) {
			pc.Method = ""
		}
		switch {
		case !s.prefix:
			pc.Exact = s.path
			if s.path != "/" && g.p(20) {
				pc.Exact += "/"
			}
		case s.path == "/":
			pc.Prefix = g.s1("/", "/*", "")
		default:
			pc.Prefix = s.path + g.s1("", "/", "/*")
		}
		// one entry for an exact path and a prefix
		for _, o := range use {
			if pc.Exact != "" && o.prefix && !both[o] && o.svc == s.svc && o.method == s.method && g.p(25) && !listed(t, o) {
				pc.Prefix = o.path
				both[o] = true
				break
			}
		}
		t.Paths = append(t.Paths, pc)
	}
	for _, svc := range order {
		t := *bySvc[svc]
		if len(t.Paths) > 1 && g.p(15) { // a service listed twice
			n := 1 + g.n(len(t.Paths)-1)
			spec.Targets = append(spec.Targets, Target{ServiceName: t.ServiceName, Paths: t.Paths[:n:n]})
			t.Paths = t.Paths[n:]
		}
		spec.Targets = append(spec.Targets, t)
	}
	if len(spec.Targets) == 0 {
		spec.Targets = []Target{}
	}
	return g.setPolicy(ns, name, spec)
}

// listed: the slot of a prefix is among the paths already.
func listed(t *Target, s slot) bool {
	for _, p := range t.Paths {
		if p.Prefix != "" || p.Exact == "" {
			me := p.Method
			if me == "" {
				me = "ALL"
			}
			if me == s.method && strings.TrimSuffix(strings.TrimSuffix(p.Prefix, "*"), "/") == strings.TrimSuffix(s.path, "/") {
				return true
			}
		}
	}
	return false
}

func (g *gen) setPolicy(ns, name string, spec *PolicySpec) *Op {
	key := ns + "/" + name
	p := &gpol{ns, name, spec, endpoints(spec)}
	g.heat(g.pols[key], p)
	g.pols[key] = p
	o := g.op("policy")
	o.NS, o.Name, o.Policy = ns, name, spec
	return o
}

// heat notes the endpoints decided otherwise under b than under a.
func (g *gen) heat(a, b *gpol) {
	all := map[epKey]bool{}
	var ns string
	var ea, eb map[epKey]*PathPolicy
	if a != nil {
		ns, ea = a.ns, a.eps
	}
	if b != nil {
		ns, eb = b.ns, b.eps
	}
	for _, m := range []map[epKey]*PathPolicy{ea, eb} {
		for ep := range m {
			all[ep] = true
		}
	}
	var eps []epKey
	for ep := range all {
		if x, y := ea[ep], eb[ep]; x == nil || y == nil || string(marshal(x)) != string(marshal(y)) {
			eps = append(eps, ep)
		}
	}
	sort.Slice(eps, func(i, j int) bool { return fmt.Sprint(eps[i]) < fmt.Sprint(eps[j]) })
	for _, ep := range eps {
		g.hot = append(g.hot, hotEp{ns, ep})
	}
	if len(g.hot) > 12 {
		g.hot = g.hot[len(g.hot)-12:]
	}
}

// touch changes one thing about what is demanded of an endpoint.
func (g *gen) touch(ns string, pp *PathPolicy) {
	other := g.pathPolicy(ns)
	switch g.n(5) {
	case 0:
		*pp = other
	case 1:
		pp.Rules = nil
	case 2:
		if other.PolicyType == pp.PolicyType {
			pp.Rules = other.Rules
		} else {
			pp.Rules = append(pp.Rules, g.rule())
		}
	case 3:
		pp.RedirectUri = ""
		if pp.PolicyType == "oidc" && g.p(60) {
			pp.RedirectUri = g.s1("https://landing.sim/home", "https://landing.sim/other")
		}
	case 4:
		if other.PolicyType == pp.PolicyType {
			pp.Config = other.Config
		}
	}
}

// release frees the slots policies no longer use; only at rest.
func (g *gen) release() {
	for s, o := range g.owner {
		p := g.pols[o]
		if p == nil || p.eps[slotKey(s)] == nil {
			delete(g.owner, s)
		}
	}
}

func slotKey(s slot) epKey {
	x := s.path
	if s.prefix {
		x = strings.TrimSuffix(s.path, "/") + "/*"
	}
	return epKey{s.svc, x, s.method}
}

func (g *gen) pathPolicy(ns string) PathPolicy {
	if g.p(g.prof.typ) {
		names := g.oidcNames(ns)
		pp := PathPolicy{PolicyType: "oidc", Config: names[g.n(len(names))]}
		if g.p(20) {
			pp.RedirectUri = g.s1("https://landing.sim/home", "https://landing.sim/x?y=1")
		}
		switch g.n(6) {
		case 0:
			pp.Rules = []Rule{{Claim: "roles", Values: []string{"member"}, Match: g.s1("ALL", "ANY", ""), Source: "id_token"}}
		case 1:
			pp.Rules = []Rule{{Claim: "email", Values: []string{"user0@mail.sim"}, Match: "NOT", Source: "id_token"}}
		case 2:
			pp.Rules = []Rule{{Claim: "scope", Values: []string{"read"}, Source: g.s1("access_token", "")}}
		}
		return pp
	}
	pp := PathPolicy{PolicyType: "jwt", Config: g.name("j", g.n(g.nJwt))}
	for i := 0; i < g.i1(0, 0, 0, 1, 1, 2, 2, 4); i++ {
		pp.Rules = append(pp.Rules, g.rule())
	}
	return pp
}

func (g *gen) rule() Rule {
	r := Rule{Match: g.s1("ALL", "ANY", "NOT", ""), Source: g.s1("", "access_token", "access_token", "id_token")}
	switch g.n(7) {
	case 5:
		r.Claim, r.Values = "beta", []string{g.s1("true", "false")}
	case 6:
		r.Claim, r.Values = "org.unit.team.name", []string{g.s1("red team", "blue"), "green"}[:g.in(1, 2)]
	case 0:
		r.Claim, r.Values = "scope", []string{g.s1("read", "write")}
	case 1:
		r.Claim, r.Values = "roles", []string{g.s1("admin", "dev"), g.s1("ops", "qa"), "role-7", "role-20"}[:g.i1(1, 2, 2, 2, 4)]
	case 2:
		r.Claim, r.Values = "sub", []string{"api-user"}
	case 3:
		r.Claim, r.Values = "app.tier", []string{g.s1("gold", "silver")}
	case 4:
		r.Claim, r.Values = "level", []string{g.s1("1", "2")}
	}
	return r
}

// ---------------------------------------------------------------- requests

// resolve: what the generator believes decides a request.
func (g *gen) resolve(ns, svc, path, method string) *PathPolicy {
	keys := make([]string, 0, len(g.pols))
	for k := range g.pols {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, ep := range lookupKeys(svc, path, method) {
		for _, k := range keys {
			if p := g.pols[k]; p.ns == ns {
				if pp := p.eps[ep]; pp != nil {
					return pp
				}
			}
		}
	}
	return nil
}

func (g *gen) method() string { return g.s1("GET", "GET", "GET", "POST", "DELETE", "PUT", "PATCH") }

// target picks a request target whose policy has the given type.
func (g *gen) target(o *Op, typ string) *PathPolicy {
	var pp *PathPolicy
	paths := []string{"/", "/a", "/a/b", "/a/b/c", "/a/b/c/d", "/a/b/c/d/e", "/a/b/c/e/f/g", "/a/bb", "/a/q", "/x", "/x/y", "/x/z", "/zz", "/ab", "/a/b/", "/a/x%20y", "/a/b&c=d", "/x/%C3%BC+z;v=1"}
	if g.p(6) { // spellings that may look like others
		paths = []string{"/A", "/a/B", "/a//b", "//a", "/a/./b", "/a/../x", "/a%2Fb", "/%61", "/a/b.json", "/X/y", "/a;v=1", "/*", "/a/*", "/oidc", "/a/oidc/login", "/a/oidc/callback/x", "/x/oidc/callbacks", "/a/oidc/logout/b", "/oidc/logout.html", "/a/myoidc/callback2"}
	}
	for try := 0; try < 60; try++ {
		o.NS = g.nss[g.n(len(g.nss))]
		if typ == "none" && g.p(10) {
			o.NS = g.s1("ns9", "ns", o.NS+"0", "istio-system", "default")
		}
		o.Svc = g.svcs[g.n(len(g.svcs))]
		if g.p(3) {
			o.Svc = g.s1("svc9", "svc", o.Svc+"0", o.Svc+"-v2", "SVC0")
		}
		o.Path = paths[g.n(len(paths))]
		o.Method = g.method()
		if len(g.hot) > 0 && g.p(30) {
			h := g.hot[g.n(len(g.hot))]
			o.NS, o.Svc, o.Path = h.ns, h.ep.svc, h.ep.path
			if strings.HasSuffix(o.Path, "/*") {
				o.Path = strings.TrimSuffix(o.Path, "/*") + g.s1("/q", "/q", "/a/q", "")
				if o.Path == "" {
					o.Path = "/"
				}
			}
			if h.ep.method != "ALL" && g.p(80) {
				o.Method = h.ep.method
			}
		}
		pp = g.resolve(o.NS, o.Svc, o.Path, o.Method)
		t := "none"
		if pp != nil {
			t = pp.PolicyType
		}
		if t == typ || typ == "" || typ == "any" && pp != nil {
			if t == "oidc" && strings.HasSuffix(o.Path, "/") && o.Path != "/" {
				continue
			}
			if t != "oidc" && !strings.HasSuffix(o.Path, "/") && g.p(4) {
				o.Path += g.s1("//", "///", "////")
			}
			return pp
		}
	}
	return pp
}

func (g *gen) goodTok(ns string, pp *PathPolicy, kind string) *TokSpec {
	t := &TokSpec{Key: -2, Claims: map[string]interface{}{}}
	if pp != nil {
		if j := g.jwts[ns+"/"+pp.Config]; j != nil {
			h, _ := cfgOf(j.JwksURL)
			fmt.Sscanf(h, "idp%d.sim", &t.Idp)
		}
	}
	scope, roles, tier, level, beta := []string{"base"}, []string{"user"}, "bronze", 9, g.p(50)
	var team interface{} = "none"
	if g.p(15) { // somebody with very many of them
		for i := 0; i < g.in(5, 60); i++ {
			scope, roles = append(scope, fmt.Sprintf("s%d", i)), append(roles, fmt.Sprintf("role-%d", i))
		}
	}
	if pp != nil {
		for _, r := range pp.Rules {
			src := r.Source
			if src == "" {
				src = "access_token"
			}
			if src != kind+"_token" || r.Match == "NOT" {
				continue
			}
			switch r.Claim {
			case "scope":
				scope = append(scope, r.Values...)
			case "roles":
				roles = append(roles, r.Values...)
			case "app.tier":
				tier = r.Values[0]
			case "beta":
				beta = r.Values[0] == "true"
			case "org.unit.team.name":
				team = append([]string{"none"}, r.Values...)
			case "level":
				fmt.Sscan(r.Values[0], &level)
			}
		}
	}
	t.Claims["scope"] = strings.Join(scope, " ")
	t.Claims["roles"] = roles
	t.Claims["app"] = map[string]string{"tier": tier}
	t.Claims["level"] = level
	t.Claims["beta"] = beta
	if g.p(90) {
		t.Claims["org"] = map[string]interface{}{"unit": map[string]interface{}{"team": map[string]interface{}{"name": team}}}
	}
	return t
}

func (g *gen) call(o *Op) *PathPolicy {
	pp := g.target(o, "jwt")
	o.Kind = "call"
	o.Access = g.goodTok(o.NS, pp, "access")
	needID := false
	if pp != nil {
		for _, r := range pp.Rules {
			needID = needID || r.Source == "id_token"
		}
	}
	if needID && g.p(80) || g.p(15) {
		o.IDTok = g.goodTok(o.NS, pp, "id")
	}
	if g.p(15) {
		o.Header = "bearer"
	}
	return pp
}

// any is a JSON value of any type.
// odd makes claim values of shapes and types rules do not expect
func (g *gen) odd() interface{} {
	full := []interface{}{"admin", "dev", "ops", "qa", "read", "write", "member"}
	switch g.n(13) {
	case 0:
		return []interface{}{}
	case 1:
		return nil
	case 2:
		return []interface{}{full}
	case 3:
		return append([]interface{}{map[string]interface{}{"admin": true}}, full...)
	case 4:
		return append(full, nil)
	case 5:
		return append(full, []interface{}{"x"})
	case 6:
		return map[string]interface{}{}
	case 7:
		return map[string]interface{}{"tier": full, "unit": full, "admin": "admin", "read": true}
	case 8:
		return map[string]interface{}{"tier": map[string]interface{}{}, "unit": []interface{}{}}
	case 9:
		return ""
	case 10:
		return "admin,dev,ops,read,write"
	case 11:
		return append(full, 1, 2, 3, true, "red team", "gold")
	}
	return g.any()
}

func (g *gen) any() interface{} {
	switch g.n(9) {
	case 0:
		return nil
	case 1:
		return g.i1(0, 7, -1)
	case 2:
		return 1.5e30
	case 3:
		return g.p(50)
	case 4:
		return []interface{}{"kid-0-0"}
	case 5:
		return map[string]interface{}{"a": "kid-0-0"}
	case 6:
		return ""
	case 7:
		return "x"
	}
	return []interface{}{}
}

// request makes the operations of one kind.
// request makes the operations of one kind of request; bearer tokens are often
// used several times, also at other endpoints and in the other role.
func (g *gen) request(kind string) []*Op {
	ops := g.request1(kind)
	for _, o := range ops {
		if o.Kind != "call" || o.Access == nil || kind == "newkey" {
			continue
		}
		if len(g.toks) > 0 && g.p(22) {
			t := *g.toks[len(g.toks)-1-g.n(min(len(g.toks), 6))]
			if o.IDTok != nil && g.p(30) {
				o.IDTok = &t
			} else {
				o.Access = &t
			}
			continue
		}
		for i, t := range []*TokSpec{o.Access, o.IDTok} {
			if t != nil && t.Raw == "" && t.Share == "" && g.p(35) {
				t.Share = fmt.Sprintf("t%d.%d", o.ID, i)
				c := *t
				g.toks = append(g.toks, &c)
			}
		}
	}
	return ops
}

func (g *gen) request1(kind string) []*Op {
	o := g.op("call")
	o.Inst = g.inst()
	o.CbInst = o.Inst
	o.Browser = g.n(g.sc.World.Browsers)
	o.Other = g.n(g.sc.World.Browsers)
	ops := []*Op{o}
	switch kind {
	case "call":
		g.call(o)
		if g.p(20) {
			o.N, o.DelayMs = g.in(2, 4), int64(g.i1(1, 50, 3000))
		}
		o.Browser = 0
	case "bad":
		g.call(o)
		o.Browser = 0
		t := o.Access
		if o.IDTok != nil && g.p(50) {
			t = o.IDTok
		}
		switch g.n(24) {
		case 22:
			o.Authz = g.s1(" ", "   ", "Bearer", "Bearer ", "bearer", "bearer  ", "Bearer\t", "Basic", "Basic Og==", ",", "Bearer =")
		case 0:
			t.Tamper = "payload"
		case 1:
			t.Tamper = "sig"
		case 2:
			t.Tamper = "trunc"
		case 3:
			t.Tamper = "nosig"
		case 4:
			t.Alg = "none"
		case 5:
			t.Alg = "HS256"
		case 6:
			t.Key = -1
		case 7:
			t.Key = -1
			t.Kid = "kid-unknown"
		case 8:
			t.Kid = "-"
		case 9:
			t.TTLms = -int64(g.in(2000, 100000))
		case 10:
			t.Nbfms = int64(g.in(3000, 100000))
		case 11:
			t.Idp = g.n(len(g.sc.World.Idps))
		case 12:
			t.Claims = map[string]interface{}{"scope": g.s1("", "read", "write read"), "roles": []string{g.s1("admin", "x")}, "level": g.i1(1, 2, 3), "app": g.s1("gold", "tier"), "beta": g.s1("true", "x"), "org": map[string]interface{}{"unit": g.s1("red team", "green")}}
		case 13:
			o.Header = g.s1("Basic", "BEARER", "-", "Token")
		case 14:
			*t = TokSpec{Raw: g.s1("abc", "a.b.c", "...", "e30.e30.e30", "..", "\x00", strings.Repeat("A", 300))}
		case 15:
			t.Kid = fmt.Sprintf("kid-%d-%d", t.Idp, g.n(keysPerIdp))
			t.Key = g.n(keysPerIdp)
		case 16:
			t.Key = -3
		case 17, 23:
			if g.p(30) {
				t.Claims = map[string]interface{}{"scope": 7, "roles": map[string]interface{}{"a": 1}, "level": []interface{}{1, true, "2"}, "app": []int{1}}
				break
			}
			if t.Claims == nil {
				t.Claims = map[string]interface{}{}
			}
			for _, c := range []string{"roles", "scope", "level", "beta", "app", "org"} {
				if g.p(50) {
					t.Claims[c] = g.odd()
				}
			}
		case 18:
			t.Claims["sub"] = nil
			t.Claims["scope"] = []interface{}{map[string]int{"a": 1}}
		case 19:
			t.Hdr = map[string]interface{}{"kid": g.any()}
		case 20:
			t.Hdr = map[string]interface{}{g.s1("alg", "alg", "typ", "x5c"): g.any()}
			if g.p(50) {
				t.Hdr = map[string]interface{}{"alg": g.s1("RS384", "PS256", "ES256", "HS512", "rs256", "")}
			}
		case 21:
			if g.p(50) {
				t.Body = g.s1("[]", "null", "7", "\"x\"", "{", "{}", "{\"exp\":1e400}", strings.Repeat("[", 2000), "{\"a\":"+strings.Repeat("[", 500)+strings.Repeat("]", 500)+"}")
			} else {
				t.Claims[g.s1("exp", "nbf", "iat")] = g.any()
			}
		}
	case "badkid": // makes the adapter fetch keys
		g.call(o)
		o.Browser = 0
		o.Access.Key, o.Access.Kid = -1, fmt.Sprintf("kid-x%d", g.n(5))
	case "oldkey":
		g.call(o)
		o.Browser = 0
		o.Access.Key = g.n(g.i1(1, 2, keysPerIdp))
	case "newkey":
		g.call(o)
		o.Browser = 0
		o.Access.Key = -3
	case "boundary":
		g.call(o)
		o.Browser = 0
		if g.p(70) {
			o.Access.TTLms = int64(g.in(500, 9000))
		} else {
			o.Access.Nbfms = int64(g.in(500, 9000))
		}
		// the same token again and again across the boundary
		o.N, o.DelayMs = g.in(1, 6), int64(g.in(100, 4000))
	case "anon":
		g.target(o, "any")
		o.Browser = 0
	case "open":
		g.target(o, "none")
		o.Browser = 0
		if g.p(30) {
			o.Access = g.goodTok(o.NS, nil, "access")
		}
	case "method":
		g.target(o, "")
		o.Browser = 0
		o.Method = g.s1("GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS", "get", "ALL")
	case "malformed":
		g.target(o, "any")
		o.Browser = 0
		if g.p(50) {
			o.Variant = g.s1("no:headers", "no:target", "no:params", "no:request", "no:instance")
			break
		}
		// nothing is demanded of the answer but that there is one
		o.Variant = "odd"
		big := strings.Repeat("x", 5000)
		if g.p(50) {
			o.Path = g.s1("", "//", "a", "*", "?", "/a/../b", "/a//b", "/oidc/callback", "oidc/callback", "/oidc/logout", "/a/oidc/callback/oidc/logout", "/a/oidc/logout/oidc/callback", "/a/oidc/callback/", "/%", "/"+big, "/\u0000", strings.Repeat("/a", 300))
		} else if g.p(50) {
			o.Path += g.s1(cbSuffix, loSuffix)
		}
		if g.p(30) {
			o.Method = g.s1("", "X", "get", "ALL", big)
		}
		name := "oidc-cookie-x"
		if ids := g.allClients(); len(ids) > 0 {
			name = cookieName(ids[g.n(len(ids))])
		}
		o.Cookie = g.s1("", "=", ";", "; ;=;", name, name+"=", name+"=deleted", name+"=\"", name+"=a; "+name+"=b", name+"="+big, name+"=MTU0", name+"=bnVsbA==", "é=é; "+name+"=\u0000")
		o.Code = g.s1("", "", "c", big, "\u0000 %&=")
		o.State = g.s1("", "", "s", big, "\u0000 %&=")
		o.ErrMsg = g.s1("", "", "", "e", big)
		if g.p(30) {
			o.Authz = g.s1(" ", "Bearer", "Bearer ", "bearer", "Bearer    ", "Bearer . .", "Bearer .. ..", big)
		}
	case "visit", "longvisit":
		g.target(o, "oidc")
		o.Kind = "visit"
		if g.p(40) {
			o.N, o.DelayMs = g.in(2, 5), int64(g.i1(1, 100, 5000))
		}
		if kind == "longvisit" {
			o.N, o.DelayMs = g.in(3, 8), int64(g.i1(8000, 20000, 70000))
		}
	case "rawvisit":
		g.target(o, "oidc")
		o.Kind = "visit"
		o.Variant = g.s1("stolen", "guess", "crossname", "old", "dropped", "nearname")
	case "dropped":
		g.target(o, "oidc")
		o.Kind = "visit"
		o.Variant = "dropped"
		o.N, o.DelayMs = g.in(1, 3), int64(g.i1(1, 500, 4000))
	case "login", "crosslogin", "double", "leaky", "slowlogin":
		g.target(o, "oidc")
		o.Kind = "login"
		o.Follow = g.p(85)
		o.DelayMs = int64(g.i1(0, 0, 7, 100, 2001))
		if g.p(25) {
			o.N = g.in(2, 3)
		}
		switch kind {
		case "crosslogin":
			o.CbInst = g.inst()
			o.DelayMs = int64(g.i1(0, 50, 3000, 30001))
		case "double":
			o.Variant = "double"
		case "leaky":
			o.Variant = "leaky"
		case "slowlogin":
			if g.p(50) {
				o.CbInst = g.inst()
			}
			o.DelayMs = int64(g.i1(3500_000, 3580_000, 3605_000, 3700_000, 500_000, 1900_000))
		}
	case "logout":
		g.target(o, "oidc")
		o.Kind = "logout"
		o.N, o.DelayMs = g.in(0, 3), int64(g.i1(0, 0, 1, 20, 400))
	case "burst": // a session used and logged out at the same moment
		g.target(o, "oidc")
		o.Kind = "visit"
		for i := 0; i < g.in(1, 4); i++ {
			c := g.op("visit")
			id := c.ID
			*c = *o
			c.ID = id
			c.At = int64(g.n(6000)) * int64(g.i1(1, 1, 1000))
			c.N = 0
			if g.p(25) && (g.prof.mix["logout"] > 0) {
				c.Kind = "logout"
				c.N, c.DelayMs = g.in(0, 3), int64(g.i1(0, 0, 1, 20, 400))
			}
			ops = append(ops, c)
		}
	case "attack":
		g.target(o, "oidc")
		o.Kind = "attack"
		o.Variant = g.s1("nostate", "nocookie", "neither", "wrongstate", "prefixstate", "casestate", "forged", "tampered", "plain", "swap", "swapcode", "renamed", "renamed", "beside", "beside", "replay", "sessionstate", "error", "errorcode")
		if g.p(15) {
			o.DelayMs = int64(g.i1(100, 3000))
		}
		o.CbInst = g.inst()
	}
	return ops
}

// ---------------------------------------------------------------- admin

func (g *gen) faultOp() *Op {
	p := g.prof
	o := g.op("fault")
	f := &Fault{Inst: -1, Pct: g.i1(30, 60, 100, 100), DurMs: g.i1(200, 2000, 8000, 20000, 45000)}
	f.Mode = p.faults[g.n(len(p.faults))]
	f.Match = p.match[g.n(len(p.match))]
	kubeHost_ := false
	switch p.hosts {
	case "kube":
		kubeHost_ = true
	case "both":
		kubeHost_ = g.p(40)
	case "":
		return nil
	}
	km := strings.HasPrefix(f.Match, "/") || f.Match == "openid-configuration"
	if kubeHost_ {
		f.Host = kubeHost
		if km {
			f.Match = g.s1("", "secrets")
		}
	} else {
		f.Host = idpHost(g.n(len(g.sc.World.Idps)))
		if !km {
			f.Match = ""
		}
	}
	if g.sc.World.Instances > 1 && g.p(30) {
		f.Inst = g.inst()
	}
	o.Fault = f
	return o
}

func (g *gen) crash(at int64) []*Op {
	a := g.op("crash")
	a.Inst = g.inst()
	a.At = at
	b := g.op("boot")
	b.Inst = a.Inst
	b.At = at + int64(g.in(1, 4000))*1000
	return []*Op{a, b}
}

func (g *gen) admin(kind string) []*Op {
	ns := g.nss[g.n(len(g.nss))]
	switch kind {
	case "policy":
		return []*Op{g.putPolicy(ns, g.name("p", g.n(g.nPol)))}
	case "delpolicy":
		o := g.op("delete")
		o.Res, o.NS, o.Name = "policies", ns, g.name("p", g.n(g.nPol))
		g.heat(g.pols[ns+"/"+o.Name], nil)
		delete(g.pols, ns+"/"+o.Name)
		return []*Op{o}
	case "config":
		if g.p(g.prof.typ) {
			names := g.oidcNames(ns)
			return g.putOidc(ns, names[g.n(len(names))])
		}
		return []*Op{g.putJwt(ns, g.name("j", g.n(g.nJwt)))}
	case "delconfig":
		o := g.op("delete")
		o.NS = ns
		if g.p(g.prof.typ) {
			names := g.oidcNames(ns)
			o.Res, o.Name = "oidcconfigs", names[g.n(len(names))]
			delete(g.oidcs, ns+"/"+o.Name)
		} else {
			o.Res, o.Name = "jwtconfigs", g.name("j", g.n(g.nJwt))
			delete(g.jwts, ns+"/"+o.Name)
		}
		return []*Op{o}
	case "secret":
		names := g.oidcNames(ns)
		n := names[g.n(len(names))]
		o := g.op("secret")
		cd := g.cdef(g.clients[ns+"/"+n][0])
		o.NS, o.Name, o.Secret = ns, "sec-"+n, map[string]string{"secret": cd.Secrets[g.n(2)]}
		if g.p(30) {
			o.Kind = "delsecret"
			o.Secret = nil
		}
		return []*Op{o}
	case "clock":
		o := g.op(kind)
		o.Inst, o.DelayMs = g.inst(), int64(g.skew())
		return []*Op{o}
	case "fault":
		if o := g.faultOp(); o != nil {
			return []*Op{o}
		}
		return nil
	case "heal", "compact":
		o := g.op(kind)
		ops := []*Op{o}
		if kind == "compact" {
			c := g.op("cutwatch")
			c.Inst = -1
			ops = append(ops, c)
		}
		return ops
	case "cutwatch":
		o := g.op(kind)
		o.Inst = g.in(-1, g.sc.World.Instances-1)
		o.Res = g.s1("", "policies", "jwtconfigs", "oidcconfigs")
		return []*Op{o}
	case "crash":
		return g.crash(0)
	case "sigterm":
		a := g.op("sigterm")
		a.Inst = g.inst()
		b := g.op("crash")
		b.Inst = a.Inst
		b.At = int64(g.in(100, 20000)) * 1000
		c := g.op("boot")
		c.Inst = a.Inst
		c.At = b.At + int64(g.in(1, 3000))*1000
		return []*Op{a, b, c}
	case "rotate", "retire", "withdraw":
		o := g.op(kind)
		o.Idp = g.n(len(g.sc.World.Idps))
		o.Mode = g.s1("", "", "drop")
		return []*Op{o}
	case "misissue":
		o := g.op(kind)
		o.Idp = g.n(len(g.sc.World.Idps))
		o.Mode = g.s1("expiredid", "expiredaccess", "badsigid", "badsigaccess", "unknownkid", "wrongaud", "noid", "refuse")
		o.N = g.i1(1, 1, 2)
		return []*Op{o}
	}
	return nil
}

var adminKinds = map[string]bool{"policy": true, "delpolicy": true, "config": true, "delconfig": true, "secret": true, "fault": true, "heal": true, "compact": true, "cutwatch": true, "crash": true, "sigterm": true, "rotate": true, "retire": true, "withdraw": true, "clock": true, "misissue": true}

// busy: everything at once.
func (g *gen) busy(i int) {
	p := g.prof
	g.release()
	n := g.in(p.ops/2, p.ops)
	calm := p.start != "isolate" && g.sc.Profile != "race" && g.p(25)
	if calm {
		p.mix = copyMix(p.mix, "fault", "cutwatch", "compact", "crash", "sigterm", "withdraw")
	}
	if g.skewed {
		p.mix = copyMix(p.mix)
		p.mix["clock"] = 3
	}
	span := int64(p.spanMs) * 1000
	if g.p(30) {
		span /= 10
	}
	var ops []*Op
	if p.start == "isolate" {
		o := g.op("fault")
		o.Fault = &Fault{Host: idpHost(g.n(len(g.sc.World.Idps))), Inst: -1, Mode: p.faults[g.n(len(p.faults))], Pct: 100, DurMs: int(span / 1000)}
		if g.p(35) {
			o.Fault.Host = kubeHost
			o.Fault.Mode = g.s1("refuse", "stall", "err500")
		}
		if o.Fault.Host == kubeHost {
			// configuration is not changed while Kubernetes is away
			p.mix = copyMix(p.mix, "config", "policy")
		}
		ops = append(ops, o)
	}
	if p.start == "outage" && g.p(70) && !calm {
		if o := g.faultOp(); o != nil {
			o.Fault.DurMs = int(span/1000) * g.i1(1, 2, 1) / 2
			ops = append(ops, o)
		}
	}
	// moments at which things crowd
	var crowd []int64
	for c := 0; c < g.in(2, 6); c++ {
		crowd = append(crowd, int64(g.n(int(span))))
	}
	sort.Slice(crowd, func(a, b int) bool { return crowd[a] < crowd[b] })
	for len(ops) < n {
		kind := g.w(p.mix)
		var os []*Op
		if adminKinds[kind] {
			os = g.admin(kind)
		} else {
			os = g.request(kind)
		}
		at := int64(g.n(int(span)))
		if g.p(75) {
			at = crowd[g.n(len(crowd))] + int64(g.n(g.i1(10, 1000, 20000)))
		}
		for _, o := range os {
			o.At += at
			ops = append(ops, o)
		}
	}
	keep := !calm && (p.hosts == "idp" || p.hosts == "both" || p.start == "isolate") && g.p(20) || g.p(3)
	if keep {
		ops = append(ops, g.sick(span)...)
	}
	g.phase(fmt.Sprintf("busy%d", i), ops, true)
	g.sc.Phases[len(g.sc.Phases)-1].Keep = keep
}

// steps: change little, look, change again, with nothing going wrong.
func (g *gen) steps() {
	p := g.prof
	mix := map[string]int{"policy": 30, "config": 10, "delpolicy": 6, "delconfig": 3}
	for n := g.in(2, 6); n > 0; n-- {
		g.release()
		g.hot = nil
		var ops []*Op
		for i := g.in(1, 3); i > 0; i-- {
			ops = append(ops, g.admin(g.w(mix))...)
		}
		at := int64(g.n(5_000_000))
		for _, o := range ops {
			o.At = at + int64(g.n(2000))
		}
		for i := g.in(2, 8); i > 0; i-- {
			for _, o := range g.request(g.w(p.probe)) {
				o.At += max(0, at+int64(g.n(1_000_000))-500_000)
				ops = append(ops, o)
			}
		}
		g.phase("step", ops, true)
		ops = nil
		for i := g.in(4, 10); i > 0; i-- {
			for _, o := range g.request(g.w(p.probe)) {
				o.At += int64(g.n(2_000_000))
				ops = append(ops, o)
			}
		}
		g.phase("look", ops, false)
	}
}

// idle: hours or days pass with hardly a request.
func (g *gen) idle() {
	var ops []*Op
	if g.prof.hosts != "" && g.p(40) { // and somebody else is having trouble
		o := g.op("fault")
		o.Fault = &Fault{Host: kubeHost, Inst: -1, Mode: g.s1("refuse", "stall", "err500"), Pct: 100, DurMs: g.i1(60, 900, 1800) * 1000}
		if g.p(40) {
			o.Fault.Host = idpHost(g.n(len(g.sc.World.Idps)))
		}
		o.At = int64(g.i1(1, 1800, 3500, 14000, 90000)) * 1000_000
		ops = append(ops, o)
		for i := g.in(4, 12); i > 0; i-- { // in the midst of it
			for _, q := range g.request(g.s1("visit", "anon", "anon", "call", "login")) {
				q.At += o.At + int64(g.n(o.Fault.DurMs))*1000
				ops = append(ops, q)
			}
		}
	}
	for i := 0; i < g.in(3, 10); i++ {
		os := g.request(g.s1("login", "login", "call", "newkey", "visit"))
		if l := os[0]; l.Kind == "login" {
			l.Follow = true
			for j := 0; j < g.in(1, 3); j++ {
				v := g.op("visit")
				v.NS, v.Svc, v.Path, v.Method, v.Browser, v.Inst = l.NS, l.Svc, l.Path, l.Method, l.Browser, l.CbInst
				v.At = int64(g.i1(600, 3500, 14000, 40000, 90000, 200000)) * int64(g.in(900_000, 1100_000))
				os = append(os, v)
			}
		} else {
			for j := 0; j < 2; j++ {
				for _, o := range g.request(g.s1("call", "visit", "anon")) {
					o.At += int64(g.i1(600, 3500, 14000, 40000, 90000, 200000)) * int64(g.in(900_000, 1100_000))
					os = append(os, o)
				}
			}
		}
		for _, o := range os {
			o.At += int64(g.n(5_000_000))
			ops = append(ops, o)
		}
	}
	g.phase("idle", ops, true)
}

// mass: very many logins, tokens, unknown keys or failures, none of which may
// displace what others rely on.
func (g *gen) mass() {
	var ops []*Op
	add := func(at int64, os []*Op) {
		for _, o := range os {
			o.At += at
			ops = append(ops, o)
		}
	}
	n := g.in(40, 260)
	span := g.i1(200_000, 5_000_000, 60_000_000)
	switch kind := g.n(4); kind {
	case 0:
		for b := 0; b < g.sc.World.Browsers; b++ {
			at := int64(g.n(span))
			os := g.request("login")
			l := os[0]
			l.Browser, l.Follow, l.N, l.DelayMs = b, true, 0, 0
			add(at, os)
			v := g.op("visit")
			v.NS, v.Svc, v.Path, v.Method, v.Browser, v.Inst = l.NS, l.Svc, l.Path, l.Method, b, l.CbInst
			add(int64(span)+8_000_000+int64(g.n(span)), []*Op{v})
		}
	case 1, 2:
		if kind == 2 {
			if o := g.faultOp(); o != nil {
				o.Fault.DurMs = span / 1000
				add(0, []*Op{o})
			}
		}
		for i := 0; i < n; i++ {
			os := g.request(g.s1("badkid", "badkid", "call", "visit"))
			if o := os[0]; o.Access != nil && strings.HasPrefix(o.Access.Kid, "kid-x") {
				o.Access.Kid = fmt.Sprintf("kid-x%d", i)
			}
			add(int64(g.n(span)), os)
		}
	case 3:
		for i := 0; i < n; i++ {
			add(int64(g.n(span)), g.request(g.s1("call", "call", "visit", "rawvisit", "bad")))
		}
	}
	for i := 0; i < 20; i++ {
		add(2*int64(span)+16_000_000+int64(g.n(5_000_000)), g.request(g.w(g.prof.probe)))
	}
	g.phase("mass", ops, true)
}

func copyMix(m map[string]int, without ...string) map[string]int {
	out := map[string]int{}
	for a, b := range m {
		out[a] = b
	}
	for _, x := range without {
		delete(out, x)
	}
	return out
}

// probes: at rest, no faults: the exact answers are known.
func (g *gen) probes(first bool) {
	p := g.prof
	g.release()
	var ops []*Op
	n := g.in(p.ops/3, p.ops*2/3)
	span := 4_000_000 + n*100_000
	for len(ops) < n {
		for _, o := range g.request(g.w(p.probe)) {
			o.At += int64(g.n(span))
			if g.p(20) {
				o.At = o.At / 1_000_000 * 1_000_000
			}
			ops = append(ops, o)
		}
	}
	g.phase("probe", ops, false)
}

// sick makes one provider fail from now until the end of the next busy phase,
// while configuration keeps changing.
func (g *gen) sick(span int64) []*Op {
	o := g.op("fault")
	o.Fault = &Fault{Host: idpHost(g.n(len(g.sc.World.Idps))), Inst: -1, Mode: g.s1("stall", "stall", "bodystall", "tooslow", "err500", "refuse"), Pct: 100, Lasting: true}
	if g.p(30) {
		o.Fault.Match = g.s1("openid-configuration", "/keys", "/token")
	}
	o.At = int64(g.n(int(span)))
	ops := []*Op{o}
	for i := 0; i < g.n(6); i++ {
		for _, c := range g.admin("config") {
			c.At = o.At + int64(g.n(int(span)))
			ops = append(ops, c)
		}
	}
	if g.p(30) {
		ops = append(ops, g.crash(o.At+int64(g.n(int(span))))...)
	}
	return ops
}
