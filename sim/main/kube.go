package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"
)

// The simulated Kubernetes API server: lists, watches and secrets, one
// resource version counter, an event log that can be compacted, lists that may
// be served from an older state (resourceVersion=0), watches that lag, end or
// are cut. Its state is durable: it survives every adapter crash.

const kubeHost = "kube.sim"
const crdPrefix = "/apis/security.cloud.ibm.com/v1/"
const keySecretNS, keySecretName = "istio-system", "appidentityandaccessadapter-cookie-sig-enc-keys"

type kubeEvent struct {
	rv   int
	at   time.Duration
	res  string
	typ  string
	key  string
	body []byte
}

var kube struct {
	rv       int
	objs     map[string]map[string][]byte // resource -> ns/name -> JSON
	rvs      map[string]int               // resource/ns/name -> rv
	log      []kubeEvent
	compact  int
	floorRV  int // oldest state a list may be served from
	watchers []*watchBody
	secrets  map[string]map[string]string // ns/name -> key -> value
	secretAt map[string]time.Duration
	uid      int
	uids     map[string]int
	gens     map[string]int             // metadata.generation
	specs    map[string]string          // the last spec
	relists  map[string][]time.Duration // inst -> times a list was served
}

var kinds = map[string]string{"policies": "Policy", "jwtconfigs": "JwtConfig", "oidcconfigs": "OidcConfig"}

func setupKube() {
	kube.objs = map[string]map[string][]byte{"policies": {}, "jwtconfigs": {}, "oidcconfigs": {}}
	kube.rvs = map[string]int{}
	kube.secrets = map[string]map[string]string{}
	kube.secretAt = map[string]time.Duration{}
	kube.uids = map[string]int{}
	kube.relists = map[string][]time.Duration{}
	kube.gens, kube.specs = map[string]int{}, map[string]string{}
	kube.rv = []int{10, 91, 985}[rnd("rv", 0)%3] // versions of different lengths are common
	kube.floorRV = kube.rv
}

func kubePut(res, ns, name string, spec interface{}) {
	key := ns + "/" + name
	sb, err := json.Marshal(spec)
	if err != nil {
		fatal("kubePut: %v", err)
	}
	typ := "MODIFIED"
	if _, ok := kube.objs[res][key]; !ok {
		typ = "ADDED"
		kube.uid++
		kube.uids[res+"/"+key] = kube.uid
		kube.gens[res+"/"+key], kube.specs[res+"/"+key] = 0, ""
	}
	if kube.specs[res+"/"+key] != string(sb) {
		kube.gens[res+"/"+key]++
		kube.specs[res+"/"+key] = string(sb)
	}
	kube.rv++
	b, err := json.Marshal(map[string]interface{}{
		"apiVersion": "security.cloud.ibm.com/v1", "kind": kinds[res],
		"metadata": map[string]interface{}{"name": name, "namespace": ns, "uid": fmt.Sprintf("uid-%d", kube.uids[res+"/"+key]), "resourceVersion": strconv.Itoa(kube.rv),
			"generation": kube.gens[res+"/"+key], "annotations": map[string]string{"touched": strconv.Itoa(kube.rv)}},
		"spec": spec,
	})
	if err != nil {
		fatal("kubePut: %v", err)
	}
	kube.objs[res][key] = b
	kube.rvs[res+"/"+key] = kube.rv
	addEvent(kubeEvent{kube.rv, now(), res, typ, key, b})
}

func kubeDelete(res, ns, name string) {
	key := ns + "/" + name
	b, ok := kube.objs[res][key]
	if !ok {
		return
	}
	// the object of a DELETED event carries the version of the deletion
	old := fmt.Sprintf(`"resourceVersion":"%d"`, kube.rvs[res+"/"+key])
	kube.rv++
	b = []byte(strings.Replace(string(b), old, fmt.Sprintf(`"resourceVersion":"%d"`, kube.rv), 1))
	delete(kube.objs[res], key)
	addEvent(kubeEvent{kube.rv, now(), res, "DELETED", key, b})
}

func addEvent(e kubeEvent) {
	kube.log = append(kube.log, e)
	for _, w := range kube.watchers {
		if w.res == e.res {
			w.w.wake()
		}
	}
}

// stateAt rebuilds the objects of a resource as of resource version rv.
func stateAt(res string, rv int) map[string][]byte {
	m := map[string][]byte{}
	for _, e := range kube.log {
		if e.rv > rv {
			break
		}
		if e.res != res {
			continue
		}
		if e.typ == "DELETED" {
			delete(m, e.key)
		} else {
			m[e.key] = e.body
		}
	}
	return m
}

func kubeStatus(code int, reason, msg string) *reply {
	return jsonReply(code, map[string]interface{}{"kind": "Status", "apiVersion": "v1", "metadata": map[string]string{}, "status": "Failure", "reason": reason, "message": msg, "code": code})
}

func kubeServe(cl *call) *reply {
	q, _ := url.ParseQuery(cl.query)
	if strings.HasPrefix(cl.path, crdPrefix) {
		res := strings.TrimPrefix(cl.path, crdPrefix)
		if kinds[res] == "" || cl.method != "GET" {
			cl.note = "unexpected"
			return kubeStatus(404, "NotFound", "not found")
		}
		if q.Get("watch") != "" {
			rv, _ := strconv.Atoi(q.Get("resourceVersion"))
			to, _ := strconv.Atoi(q.Get("timeoutSeconds"))
			if to == 0 {
				to = 600
			}
			w := &watchBody{c: cl.c, res: res, rv: rv, until: now() + time.Duration(to)*time.Second, key: cl.key}
			w.gone = rv < kube.compact
			tracef("watch %s %s from %d of %d%s", cl.key, res, rv, kube.rv, ifs(w.gone, " gone", ""))
			kube.watchers = append(kube.watchers, w)
			return &reply{status: 200, hdr: jsonHdr, stream: w}
		}
		rv := kube.rv
		if q.Get("resourceVersion") == "0" && k.knobs.StaleList > 0 {
			h := rnd("stale", hashStr(cl.key))
			if int(h%100) < k.knobs.StaleList && kube.floorRV < kube.rv {
				rv = kube.floorRV + int((h>>20)%uint64(kube.rv-kube.floorRV+1))
				if rv != kube.rv {
					countFault("kube-list:stale")
				}
			}
		}
		if rv < kube.compact {
			rv = kube.compact
		}
		st := stateAt(res, rv)
		keys := make([]string, 0, len(st))
		for a := range st {
			keys = append(keys, a)
		}
		sort.Strings(keys)
		items := make([]json.RawMessage, 0, len(keys))
		for _, a := range keys {
			items = append(items, st[a])
		}
		tracef("list %s %s at %d of %d: %s", cl.key, res, rv, kube.rv, strings.Join(keys, " "))
		ik := fmt.Sprintf("%d.%d", cl.c.inst.idx, cl.c.inst.inc)
		kube.relists[ik] = append(kube.relists[ik], now())
		return jsonReply(200, map[string]interface{}{"apiVersion": "security.cloud.ibm.com/v1", "kind": kinds[res] + "List",
			"metadata": map[string]string{"resourceVersion": strconv.Itoa(rv)}, "items": items})
	}
	parts := strings.Split(strings.Trim(cl.path, "/"), "/")
	if len(parts) >= 5 && parts[0] == "api" && parts[2] == "namespaces" && parts[4] == "secrets" {
		ns := parts[3]
		switch {
		case cl.method == "GET" && len(parts) == 6:
			s, ok := kube.secrets[ns+"/"+parts[5]]
			if !ok {
				return kubeStatus(404, "NotFound", "secrets \""+parts[5]+"\" not found")
			}
			cl.note = "found"
			cl.secret = map[string]string{}
			for a, b := range s {
				cl.secret[a] = b
			}
			return jsonReply(200, secretJSON(ns, parts[5], s))
		case cl.method == "POST" && len(parts) == 5:
			var in struct {
				Metadata struct{ Name string }
				Data     map[string][]byte
			}
			if err := json.Unmarshal(cl.body, &in); err != nil || in.Metadata.Name == "" {
				return kubeStatus(400, "BadRequest", "bad body")
			}
			key := ns + "/" + in.Metadata.Name
			if _, ok := kube.secrets[key]; ok {
				return kubeStatus(409, "AlreadyExists", "secrets \""+in.Metadata.Name+"\" already exists")
			}
			m := map[string]string{}
			for a, b := range in.Data {
				m[a] = string(b)
			}
			kube.secrets[key] = m
			kube.secretAt[key] = now()
			onSecretCreated(cl, key, m)
			return jsonReply(201, secretJSON(ns, in.Metadata.Name, m))
		default:
			onSecretTampered(cl)
			if len(parts) == 6 && cl.method == "DELETE" {
				delete(kube.secrets, ns+"/"+parts[5])
				return jsonReply(200, map[string]interface{}{"kind": "Status", "apiVersion": "v1", "status": "Success"})
			}
			if len(parts) == 6 && cl.method == "PUT" {
				var in struct{ Data map[string][]byte }
				_ = json.Unmarshal(cl.body, &in)
				m := map[string]string{}
				for a, b := range in.Data {
					m[a] = string(b)
				}
				kube.secrets[ns+"/"+parts[5]] = m
				return jsonReply(200, secretJSON(ns, parts[5], m))
			}
		}
	}
	cl.note = "unexpected"
	return kubeStatus(404, "NotFound", "not found")
}

func secretJSON(ns, name string, m map[string]string) interface{} {
	d := map[string]string{}
	for a, b := range m {
		d[a] = base64.StdEncoding.EncodeToString([]byte(b))
	}
	return map[string]interface{}{"kind": "Secret", "apiVersion": "v1", "metadata": map[string]string{"name": name, "namespace": ns, "resourceVersion": "1"}, "data": d}
}

// watchBody streams the event log to one watcher.
type watchBody struct {
	c      *ctx
	res    string
	rv     int
	pos    int
	until  time.Duration
	buf    []byte
	w      waiter
	closed bool
	cut    bool
	gone   bool
	key    string
	n      uint64
}

func (b *watchBody) Close() error {
	b.closed = true
	b.w.wake()
	return nil
}

// kubeBlocked: until when the instance's open watches receive nothing.
func kubeBlocked(in *instance) time.Duration {
	var until time.Duration
	for _, w := range windows {
		if w.Host == kubeHost && (w.Inst < 0 || w.Inst == in.idx) && w.Pct >= 100 && (w.Mode == "refuse" || w.Mode == "stall") && w.Match == "" && now() >= w.from && now() < w.to && w.to > until {
			until = w.to
		}
	}
	return until
}

func (b *watchBody) Read(p []byte) (int, error) {
	for {
		if b.c.inst.dead {
			var w waiter
			w.wait()
		}
		if b.closed {
			return 0, errors.New("http: read on closed response body")
		}
		if len(b.buf) > 0 {
			n := copy(p, b.buf)
			b.buf = b.buf[n:]
			return n, nil
		}
		if b.cut {
			return 0, io.ErrUnexpectedEOF
		}
		if now() >= b.until {
			return 0, io.EOF
		}
		if u := kubeBlocked(b.c.inst); u > 0 {
			b.w.waitUntil(u)
			continue
		}
		if b.gone {
			b.gone = false
			b.buf = []byte(`{"type":"ERROR","object":{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"too old resource version","reason":"Gone","code":410}}` + "\n")
			countFault("kube-watch:gone")
			park(b.c, siteBody, 0)
			continue
		}
		var ev *kubeEvent
		for b.pos < len(kube.log) {
			e := &kube.log[b.pos]
			if e.res == b.res && e.rv > b.rv {
				ev = e
				break
			}
			b.pos++
		}
		if ev == nil {
			b.w.waitUntil(b.until)
			continue
		}
		// delivery delay
		b.n++
		h := rnd("lag", hashStr(b.key), b.n)
		d := time.Duration(100+h%3000) * time.Microsecond
		if k.knobs.WatchLagMs > 0 && (h>>20)%3 == 0 {
			d = time.Duration((h>>24)%uint64(k.knobs.WatchLagMs)) * time.Millisecond
		}
		if t := ev.at + d; now() < t {
			b.w.waitUntil(t)
			if now() < t {
				continue
			}
		}
		park(b.c, siteBody, 0)
		if b.closed || b.cut || b.c.inst.dead {
			continue
		}
		b.pos++
		b.rv = ev.rv
		tracef("watch %s %s %s %d", b.key, ev.typ, ev.key, ev.rv)
		b.buf = append(b.buf, fmt.Sprintf(`{"type":%q,"object":`, ev.typ)...)
		b.buf = append(b.buf, ev.body...)
		b.buf = append(b.buf, "}\n"...)
	}
}

// cutWatches ends watches of an instance (idx<0: all) and resource ("": all).
func cutWatches(idx int, res string) {
	for _, w := range kube.watchers {
		if !w.closed && !w.cut && (idx < 0 || w.c.inst.idx == idx) && (res == "" || w.res == res) {
			w.cut = true
			countFault("kube-watch:cut")
			w.w.wake()
		}
	}
}
