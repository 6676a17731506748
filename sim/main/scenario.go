package main

// A Scenario and its seed determine a run completely. It is what a replay file
// holds.
type Scenario struct {
	Seed    uint64
	Profile string
	Knobs   Knobs
	World   World
	Phases  []Phase
	// minimisation results
	NoFault []string `json:",omitempty"` // outbound calls spared from faults
	Entropy uint64   `json:",omitempty"` // seed of the system random source, if not the run's
	Dual    bool     `json:",omitempty"` // compare with a run that has another random source
}

type Knobs struct {
	Sched       string // random, prio, fifo, bglast, bgfirst
	YieldHot    int    // per mille, at this run's hot sites
	YieldCold   int    // per mille, elsewhere
	HotPct      int    // share of hot sites
	Stall       int    // per 10000 yields: the thread loses the processor for long
	StallMaxMs  int
	TickUs      int // a step takes up to this long
	Changes     int // priority change points
	NetJitterMs int
	WatchLagMs  int
	StaleList   int // percent of resourceVersion=0 lists served stale
	MaxSteps    int
}

type World struct {
	Idps      []IdpDef
	Clients   []ClientDef
	Instances int
	Browsers  int
	HashKey   int
	BlockKey  int
	Skew      []int `json:",omitempty"` // milliseconds the instances' clocks are ahead
	NewSizes  bool  // every second instance or incarnation is configured with other key sizes
}

type IdpDef struct {
	Junk   bool
	Decoys int `json:",omitempty"`
}

type ClientDef struct {
	ID        string
	Idp       int
	Secrets   []string // the provider accepts any of these
	Access    string   // jwt, opaque, opaque3
	Refresh   string   // rotate, keep, omit, none
	IDTTL     int
	AccessTTL int
	AudArray  bool
}

func (c *ClientDef) acceptsSecret(s string) bool {
	for _, x := range c.Secrets {
		if x == s {
			return true
		}
	}
	return false
}

var world *World

func clientDef(id string) *ClientDef {
	for i := range world.Clients {
		if world.Clients[i].ID == id {
			return &world.Clients[i]
		}
	}
	return nil
}

type Phase struct {
	Name   string
	Ops    []Op
	Settle bool // heal all faults afterwards and wait until everything is at rest
	Keep   bool `json:",omitempty"` // do not heal lasting faults
}

type Fault struct {
	Host  string
	Inst  int // -1: seen by all instances
	Mode  string
	Match string `json:",omitempty"` // only paths containing this
	Pct   int
	DurMs int

	Lasting bool `json:",omitempty"` // ends only when a phase without Keep is over
}

type Rule struct {
	Claim  string   `json:"claim"`
	Values []string `json:"values"`
	Match  string   `json:"match,omitempty"`
	Source string   `json:"source,omitempty"`
}

type PathPolicy struct {
	PolicyType  string `json:"policyType"`
	Config      string `json:"config"`
	RedirectUri string `json:"redirectUri,omitempty"`
	Rules       []Rule `json:"rules,omitempty"`
}

type PathCfg struct {
	Exact    string       `json:"exact,omitempty"`
	Prefix   string       `json:"prefix,omitempty"`
	Method   string       `json:"method,omitempty"`
	Policies []PathPolicy `json:"policies"`
}

type Target struct {
	ServiceName string    `json:"serviceName"`
	Paths       []PathCfg `json:"paths"`
}

type PolicySpec struct {
	Targets []Target `json:"targets"`
}

type JwtSpec struct {
	JwksURL string `json:"jwksUrl"`
}

type SecretRef struct {
	Name string `json:"name"`
	Key  string `json:"key"`
}

type OidcSpec struct {
	AuthMethod      string     `json:"authMethod,omitempty"`
	ClientID        string     `json:"clientId"`
	DiscoveryURL    string     `json:"discoveryUrl"`
	ClientSecret    string     `json:"clientSecret,omitempty"`
	ClientSecretRef *SecretRef `json:"clientSecretRef,omitempty"`
	Scopes          []string   `json:"scopes,omitempty"`
}

// TokSpec describes a token minted for a bearer request.
type TokSpec struct {
	Raw    string                 `json:",omitempty"` // literal, instead of a token
	Idp    int                    `json:",omitempty"`
	Key    int                    `json:",omitempty"` // -1: the attacker's, -2: the current signing key
	Kid    string                 `json:",omitempty"` // overrides the key's own id; "-": none
	Alg    string                 `json:",omitempty"` // RS256 (default), none, HS256
	TTLms  int64                  `json:",omitempty"` // 0: an hour
	Nbfms  int64                  `json:",omitempty"` // not before, relative to now
	Tamper string                 `json:",omitempty"`
	Hdr    map[string]interface{} `json:",omitempty"` // header fields put in as they are
	Body   string                 `json:",omitempty"` // literal payload, properly signed
	Share  string                 `json:",omitempty"` // tokens sharing a name are one token, minted at first use
	Claims map[string]interface{} `json:",omitempty"`
}

type Op struct {
	ID   int
	At   int64 // microseconds after the start of the phase
	Kind string

	Inst int `json:",omitempty"`

	// admin
	NS     string            `json:",omitempty"`
	Name   string            `json:",omitempty"`
	Res    string            `json:",omitempty"`
	Policy *PolicySpec       `json:",omitempty"`
	Jwt    *JwtSpec          `json:",omitempty"`
	Oidc   *OidcSpec         `json:",omitempty"`
	Secret map[string]string `json:",omitempty"`
	Fault  *Fault            `json:",omitempty"`
	Idp    int               `json:",omitempty"`
	Mode   string            `json:",omitempty"`

	// requests
	Svc     string   `json:",omitempty"`
	Path    string   `json:",omitempty"`
	Method  string   `json:",omitempty"`
	Browser int      `json:",omitempty"`
	Other   int      `json:",omitempty"` // another browser
	CbInst  int      `json:",omitempty"`
	Follow  bool     `json:",omitempty"`
	DelayMs int64    `json:",omitempty"`
	Variant string   `json:",omitempty"`
	Access  *TokSpec `json:",omitempty"`
	IDTok   *TokSpec `json:",omitempty"`
	Header  string   `json:",omitempty"` // scheme word of the Authorization header
	Authz   string   `json:",omitempty"` // literal Authorization header
	Cookie  string   `json:",omitempty"` // literal Cookie header
	Code    string   `json:",omitempty"` // literal query parameters
	State   string   `json:",omitempty"`
	ErrMsg  string   `json:",omitempty"`
	N       int      `json:",omitempty"`
}
