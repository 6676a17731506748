From a82d338894638237fd8400b009c1f31fb7108c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 01/28] fix: guard the policy store against concurrent requests
 and configuration events

Requests read the store's maps and path tries from gRPC goroutines while the
three controllers write them. Unsynchronised map access is a fatal error in Go
and could also expose a half-written policy.
---
 adapter/policy/store/policy/localstore.go | 26 +++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 483c141..b3303ca 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -1,6 +1,8 @@
 package policy
 
 import (
+	"sync"
+
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
@@ -9,6 +11,8 @@ import (
 
 // LocalStore is responsible for storing and managing policy/client data
 type LocalStore struct {
+	// mutex protects all fields below, which are read by requests while configuration events change them
+	mutex sync.RWMutex
 	// clients maps client_name -> client_config
 	clients map[string]client.Client // oidc config ClientName:Client
 	// policies maps endpoint -> list of actions
@@ -29,6 +33,8 @@ func New() PolicyStore {
 }
 
 func (l *LocalStore) GetKeySet(clientName string) keyset.KeySet {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.keysets != nil {
 		return l.keysets[clientName]
 	}
@@ -36,6 +42,8 @@ func (l *LocalStore) GetKeySet(clientName string) keyset.KeySet {
 }
 
 func (l *LocalStore) AddKeySet(clientName string, jwks keyset.KeySet) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.keysets == nil {
 		l.keysets = make(map[string]keyset.KeySet)
 	}
@@ -43,6 +51,8 @@ func (l *LocalStore) AddKeySet(clientName string, jwks keyset.KeySet) {
 }
 
 func (l *LocalStore) DeleteKeySet(clientName string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.keysets != nil {
 		delete(l.keysets, clientName)
 	}
@@ -50,6 +60,8 @@ func (l *LocalStore) DeleteKeySet(clientName string) {
 
 
 func (l *LocalStore) GetClient(clientName string) client.Client {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.clients != nil {
 		return l.clients[clientName]
 	}
@@ -57,6 +69,8 @@ func (l *LocalStore) GetClient(clientName string) client.Client {
 }
 
 func (l *LocalStore) AddClient(clientName string, clientObject client.Client) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.clients == nil {
 		l.clients = make(map[string]client.Client)
 	}
@@ -64,12 +78,16 @@ func (l *LocalStore) AddClient(clientName string, clientObject client.Client) {
 }
 
 func (l *LocalStore) DeleteClient(clientName string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.clients != nil {
 		delete(l.clients, clientName)
 	}
 }
 
 func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
 		actions, ok := (l.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions)
 		if ok {
@@ -87,6 +105,8 @@ func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 }
 
 func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policies == nil {
 		s.policies = make(map[policy.Service]pathtrie.Trie)
 	}
@@ -104,6 +124,8 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 }
 
 func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	if s.policyMappings != nil {
 		return s.policyMappings[policy]
 	}
@@ -111,12 +133,16 @@ func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
 }
 
 func (s *LocalStore) DeletePolicyMapping(policy string) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policyMappings != nil {
 		delete(s.policyMappings, policy)
 	}
 }
 
 func (s *LocalStore) AddPolicyMapping(name string, mapping []policy.PolicyMapping) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policyMappings == nil {
 		s.policyMappings = make(map[string][]policy.PolicyMapping)
 	}
-- 
2.43.0


From 92e9b14f7af0d46e56ce685be58850b3f82c043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 02/28] fix: do not attach an endpoint's policy to the prefix
 that covers it

SetPolicies looked up existing actions with GetActions, which falls back to the
closest wildcard. Setting a policy for /a/b while /a/* existed overwrote the
policy of /a/* for that method instead of creating one for /a/b.
---
 adapter/policy/store/policy/localstore.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index b3303ca..8c1833e 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -114,7 +114,9 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 		s.policies[endpoint.Service] = pathtrie.NewPathTrie()
 	}
 
-	if obj, ok := (s.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions); ok {
+	// only actions stored for exactly this path may be extended: GetActions would
+	// return those of the nearest covering prefix and leak this policy to all of it
+	if obj, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions); ok {
 		obj[endpoint.Method] = actions
 	} else {
 		obj := policy.NewActions()
-- 
2.43.0


From d168806bac330b0985bae70b68dc451f4cea3117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:57 +0000
Subject: [PATCH 03/28] fix: let the covering prefix decide where a path has no
 policy for the method

A path with a policy for POST only, or whose policy had been deleted, hid the
policy of the prefix covering it: other methods of that path were let through
unauthenticated although /a/* was protected.
---
 adapter/policy/store/policy/localstore.go | 49 +++++++++++++++++------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 8c1833e..58e149e 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -1,6 +1,7 @@
 package policy
 
 import (
+	"strings"
 	"sync"
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
@@ -89,21 +90,40 @@ func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 	l.mutex.RLock()
 	defer l.mutex.RUnlock()
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
-		actions, ok := (l.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions)
-		if ok {
-			result, present := actions[endpoint.Method]
-			if present { // found actions for method
-				return result
-			}
-			result, present = actions[policy.ALL]
-			if present { // check if actions are set for ALL
-				return result
+		// a path without policy for the method leaves the decision to the prefix covering it
+		for path, more := endpoint.Path, true; more; path, more = coveringPrefix(path) {
+			actions, ok := (l.policies[endpoint.Service].GetActions(path)).(policy.Actions)
+			if ok {
+				result, present := actions[endpoint.Method]
+				if present { // found actions for method
+					return result
+				}
+				result, present = actions[policy.ALL]
+				if present { // check if actions are set for ALL
+					return result
+				}
 			}
 		}
 	}
 	return policy.NewRoutePolicy()
 }
 
+// coveringPrefix returns the longest prefix other than the path itself which covers
+// the path, and whether there is one
+func coveringPrefix(path string) (string, bool) {
+	if !strings.HasSuffix(path, "/*") {
+		return path + "/*", true
+	}
+	parent := strings.TrimSuffix(path, "/*")
+	if parent == "" {
+		return "", false
+	}
+	if i := strings.LastIndex(parent, "/"); i > 0 {
+		return parent[:i] + "/*", true
+	}
+	return "/*", true
+}
+
 func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
@@ -116,12 +136,15 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 
 	// only actions stored for exactly this path may be extended: GetActions would
 	// return those of the nearest covering prefix and leak this policy to all of it
-	if obj, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions); ok {
-		obj[endpoint.Method] = actions
+	obj, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions)
+	if !ok {
+		obj = policy.NewActions()
+		s.policies[endpoint.Service].Put(endpoint.Path, obj)
+	}
+	if actions.PolicyReference == "" && len(actions.Actions) == 0 {
+		delete(obj, endpoint.Method) // the endpoint is no longer part of any policy
 	} else {
-		obj := policy.NewActions()
 		obj[endpoint.Method] = actions
-		s.policies[endpoint.Service].Put(endpoint.Path, obj)
 	}
 }
 
-- 
2.43.0


From 17df9a297dfee2241550af6e82e8ed14d76590f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 04/28] fix: stop enforcing endpoints that an updated policy no
 longer covers

Only the endpoints of the latest version were recorded, so those of an earlier
version stayed enforced for good, even after the policy was deleted.
---
 adapter/policy/handler/crdeventhandler/add_event.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index 4498719..bcb483d 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -59,9 +59,17 @@ func (e *PolicyAddEventHandler) HandleAddUpdateEvent() {
 	zap.L().Debug("Create/Update Policy", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.ObjectMeta.Name), zap.String("namespace", e.Obj.ObjectMeta.Namespace))
 	mappingId := e.Obj.ObjectMeta.Namespace + "/" +e.Obj.ObjectMeta.Name
 	parsedPolicies := ParseTarget(e.Obj.Spec.Target, e.Obj.ObjectMeta.Namespace)
+	current := make(map[policy.Endpoint]struct{})
 	for _, policies := range parsedPolicies {
 		zap.S().Debug("Adding policy for endpoint", policies.Endpoint)
 		e.Store.SetPolicies(policies.Endpoint, policy.RoutePolicy{ PolicyReference: mappingId, Actions: policies.Actions})
+		current[policies.Endpoint] = struct{}{}
+	}
+	// stop enforcing the endpoints of the previous version that the policy no longer covers
+	for _, policies := range e.Store.GetPolicyMapping(mappingId) {
+		if _, ok := current[policies.Endpoint]; !ok && e.Store.GetPolicies(policies.Endpoint).PolicyReference == mappingId {
+			e.Store.SetPolicies(policies.Endpoint, policy.NewRoutePolicy())
+		}
 	}
 	e.Store.AddPolicyMapping(mappingId, parsedPolicies)
 	zap.L().Info("Policy created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)))
-- 
2.43.0


From 4f9eb7f275a8593124b7f58fea6771ac9de47b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 05/28] fix: publish a discovery document atomically

initialized was set before the endpoints were copied and neither was
synchronised, so requests racing with the first successful discovery could use
an empty or half-written configuration. The key set was created lazily by
concurrent requests without synchronisation as well.
---
 adapter/authserver/authserver.go | 52 ++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index 86746f3..ff25318 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -6,6 +6,7 @@ import (
 	"net/http"
 	"net/url"
 	"strings"
+	"sync"
 
 	"github.com/golang/groupcache/singleflight"
 	"go.uber.org/zap"
@@ -56,12 +57,15 @@ type AuthorizationServerService interface {
 // RemoteService represents a remote authentication server
 // Configuration is loaded asynchronously from the discovery endpoint
 type RemoteService struct {
-	DiscoveryConfig
 	discoveryURL string
-	jwks         keyset.KeySet
 	httpclient   *networking.HTTPClient
 	requestGroup singleflight.Group
-	initialized  bool
+
+	// mutex protects all fields below, which concurrent requests load on demand
+	mutex sync.RWMutex
+	DiscoveryConfig
+	jwks        keyset.KeySet
+	initialized bool
 }
 
 // New creates a RemoteService returning a AuthorizationServerService interface
@@ -84,38 +88,59 @@ func New(discoveryEndpoint string) AuthorizationServerService {
 // KeySet returns the instance's keyset
 func (s *RemoteService) KeySet() keyset.KeySet {
 	_ = s.initialize()
-	if s.jwks == nil && s.JwksURL != "" {
-		s.jwks = keyset.New(s.JwksURL, s.httpclient)
+	s.mutex.RLock()
+	jwks, jwksURL := s.jwks, s.JwksURL
+	s.mutex.RUnlock()
+	if jwks != nil || jwksURL == "" {
+		return jwks
+	}
+
+	// do not hold the lock while the keys are being retrieved
+	created := keyset.New(jwksURL, s.httpclient)
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	if s.jwks == nil {
+		s.jwks = created
 	}
 	return s.jwks
 }
 
 // SetKeySet stores a JWKs in the OAuth server
 func (s *RemoteService) SetKeySet(jwks keyset.KeySet) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	s.jwks = jwks
 }
 
 // JwksEndpoint returns the /publicKeys endpoint of the OAuth server
 func (s *RemoteService) JwksEndpoint() string {
 	_ = s.initialize()
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	return s.JwksURL
 }
 
 // TokenEndpoint returns the /token endpoint of the OAuth server
 func (s *RemoteService) TokenEndpoint() string {
 	_ = s.initialize()
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	return s.TokenURL
 }
 
 // AuthorizationEndpoint returns the /authorization endpoint of the OAuth server
 func (s *RemoteService) AuthorizationEndpoint() string {
 	_ = s.initialize()
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	return s.AuthURL
 }
 
 // UserInfoEndpoint returns the /userinfo endpoint of the OAuth server
 func (s *RemoteService) UserInfoEndpoint() string {
 	_ = s.initialize()
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	return s.UserInfoURL
 }
 
@@ -140,7 +165,7 @@ func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSec
 	}
 
 	// Create request
-	req, err := http.NewRequest("POST", s.TokenURL, strings.NewReader(form.Encode()))
+	req, err := http.NewRequest("POST", s.TokenEndpoint(), strings.NewReader(form.Encode()))
 	if err != nil {
 		zap.L().Warn("Could not serialize HTTP request", zap.Error(err))
 		return nil, err
@@ -168,7 +193,7 @@ func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSec
 
 // initialize attempts to load the Client configuration from the discovery endpoint
 func (s *RemoteService) initialize() error {
-	if s.initialized {
+	if s.isInitialized() {
 		return nil
 	}
 
@@ -177,7 +202,7 @@ func (s *RemoteService) initialize() error {
 	// taking place at once. All threads coming into this call will wait for
 	// a single response, which can then be processed
 	_, err := s.requestGroup.Do(s.discoveryURL, func() (interface{}, error) {
-		if s.initialized {
+		if s.isInitialized() {
 			return http.StatusOK, nil
 		}
 		return s.loadDiscoveryEndpoint()
@@ -191,6 +216,13 @@ func (s *RemoteService) initialize() error {
 	return nil
 }
 
+// isInitialized returns whether the discovery configuration has been loaded
+func (s *RemoteService) isInitialized() bool {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.initialized
+}
+
 // loadDiscoveryEndpoint loads the configuration from the discovery endpoint
 func (s *RemoteService) loadDiscoveryEndpoint() (interface{}, error) {
 	req, err := http.NewRequest("GET", s.discoveryURL, nil)
@@ -210,8 +242,10 @@ func (s *RemoteService) loadDiscoveryEndpoint() (interface{}, error) {
 		return nil, oa2Err
 	}
 
-	s.initialized = true
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	s.DiscoveryConfig = *config
+	s.initialized = true
 
 	return http.StatusOK, nil
 }
-- 
2.43.0


From 8eecb5c12339cb9e56c38dedf65ba73a1525c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 06/28] fix: recover OIDC configurations applied while
 discovery fails

The key set was created for the empty URL known at that time and kept for good,
so sessions never validated after the provider came back.
---
 adapter/policy/handler/crdeventhandler/add_event.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index bcb483d..5d2cb62 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -46,8 +46,10 @@ func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 		e.Obj.Spec.AuthMethod = "client_secret_basic"
 	}
 	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
-	keySets := keyset.New(authorizationServer.JwksEndpoint(), nil)
-	authorizationServer.SetKeySet(keySets)
+	// without discovery configuration the server creates the key set once it has been able to load it
+	if jwksURL := authorizationServer.JwksEndpoint(); jwksURL != "" {
+		authorizationServer.SetKeySet(keyset.New(jwksURL, nil))
+	}
 	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
 	// Create and store OIDC Client
 	oidcClient := client.New(e.Obj.Spec, authorizationServer)
-- 
2.43.0


From 8b02ade81ebc199427873930c288badb17eba3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 07/28] fix: do not call an unknown token endpoint

---
 adapter/authserver/authserver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index ff25318..69af960 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -146,7 +146,9 @@ func (s *RemoteService) UserInfoEndpoint() string {
 
 // GetTokens performs a request to the token endpoint
 func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSecret string, authorizationCode string, redirectURI string, refreshToken string) (*TokenResponse, error) {
-	_ = s.initialize()
+	if err := s.initialize(); err != nil {
+		return nil, err
+	}
 
 	form := url.Values{}
 
-- 
2.43.0


From 56731f45ec39fc233af19c09feec77aa7033d7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 08/28] fix: answer with an error while the authorization
 endpoint is unknown

Users were redirected to the relative URL ?client_id=... of the application.
---
 adapter/strategy/web/utils.go | 7 ++++++-
 adapter/strategy/web/web.go   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index d8a0842..fe81513 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -49,7 +49,12 @@ func generateAuthorizationURL(c client.Client, redirectURI string, state string)
 		zap.L().Warn("Authorization server has not been configured for client", zap.Error(errors.New("authorization server has not been configured")), zap.String("client_name", c.Name()))
 		return ""
 	}
-	baseUrl, err := url.Parse(server.AuthorizationEndpoint())
+	endpoint := server.AuthorizationEndpoint()
+	if endpoint == "" {
+		zap.L().Warn("Authorization endpoint has not been discovered", zap.String("client_name", c.Name()))
+		return ""
+	}
+	baseUrl, err := url.Parse(endpoint)
 	if err != nil {
 		zap.L().Warn("Malformed Authorization URL", zap.Error(err))
 		return ""
diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 81e95cf..5480f8a 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -331,6 +331,11 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 		zap.L().Info("Could not generate state parameter", zap.Error(err), zap.String("client_name", action.Client.Name()))
 		return nil, err
 	}
+	authorizationURL := generateAuthorizationURL(action.Client, redirectURI, state)
+	if authorizationURL == "" {
+		zap.L().Info("Could not generate authorization URL", zap.String("client_name", action.Client.Name()))
+		return nil, errors.New("authorization endpoint is not available")
+	}
 	zap.S().Debugf("Initiating redirect to identity provider using redirect URL: %s", redirectURI)
 	return &authnz.HandleAuthnZResponse{
 		Result: &v1beta1.CheckResult{
@@ -340,7 +345,7 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 				Details: []*types.Any{status.PackErrorDetail(&policy.DirectHttpResponse{
 					Code: policy.Found, // Response Mixer remaps on request
 					Headers: map[string]string{
-						location:  generateAuthorizationURL(action.Client, redirectURI, state),
+						location:  authorizationURL,
 						setCookie: stateCookie.String(),
 					},
 				})},
-- 
2.43.0


From 013c50b12dad2ec138cbbbb88ac29a864ecb0d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 09/28] fix: synchronise access to retrieved public keys

---
 adapter/authserver/keyset/keyset.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/adapter/authserver/keyset/keyset.go b/adapter/authserver/keyset/keyset.go
index fd64a25..c5c6919 100644
--- a/adapter/authserver/keyset/keyset.go
+++ b/adapter/authserver/keyset/keyset.go
@@ -5,6 +5,7 @@ import (
 	"crypto"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"go.uber.org/zap"
 
@@ -26,7 +27,10 @@ type RemoteKeySet struct {
 	httpClient   *networking.HTTPClient
 
 	requestGroup singleflight.Group
-	publicKeys   map[string]crypto.PublicKey
+
+	// mutex protects publicKeys, which is replaced while requests read it
+	mutex      sync.RWMutex
+	publicKeys map[string]crypto.PublicKey
 }
 
 ////////////////// constructor //////////////////////////
@@ -55,10 +59,17 @@ func New(publicKeyURL string, httpClient *networking.HTTPClient) KeySet {
 
 // PublicKey returns the public key with the specified kid
 func (s *RemoteKeySet) PublicKey(kid string) crypto.PublicKey {
-	if key := s.publicKeys[kid]; key != nil {
+	if key := s.storedKey(kid); key != nil {
 		return key
 	}
 	_ = s.updateKeysGrouped()
+	return s.storedKey(kid)
+}
+
+// storedKey returns the key of the last retrieved key set
+func (s *RemoteKeySet) storedKey(kid string) crypto.PublicKey {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	return s.publicKeys[kid]
 }
 
@@ -116,6 +127,8 @@ func (s *RemoteKeySet) updateKeys() (interface{}, error) {
 
 	zap.L().Info("Synced public keys", zap.String("url", s.publicKeyURL))
 
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	s.publicKeys = keymap
 
 	return http.StatusOK, nil
-- 
2.43.0


From 587d5878aaa863f21546b09e58aff3aa661b6b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 10/28] fix: synchronise access to the state cookie keys

---
 adapter/strategy/web/web.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 5480f8a..c2eb5f4 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -58,7 +58,7 @@ type WebStrategy struct {
 	kubeClient kubernetes.Interface
 
 	// mutex protects all fields below
-	mutex      *sync.Mutex
+	mutex      sync.Mutex
 	encrpytor  Encryptor
 	tokenCache *sync.Map
 }
@@ -81,7 +81,6 @@ func New(ctx *config.Config, kubeClient kubernetes.Interface) strategy.Strategy
 		ctx:        ctx,
 		tokenUtil:  validator.NewTokenValidator(adapterPolicy.OIDC),
 		kubeClient: kubeClient,
-		mutex:      &sync.Mutex{},
 		tokenCache: new(sync.Map),
 	}
 
@@ -357,20 +356,14 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 // getSecureCookie retrieves the SecureCookie encryption struct in a
 // thread safe manner.
 func (w *WebStrategy) getSecureCookie() (Encryptor, error) {
-	// Allow all threads to check if instance already exists
-	if w.encrpytor != nil {
-		return w.encrpytor, nil
-	}
 	w.mutex.Lock()
-	// Once this thread has the lock check again to see if it had been set while waiting
+	defer w.mutex.Unlock()
+	// Check if the instance already exists, or has been set while waiting for the lock
 	if w.encrpytor != nil {
-		w.mutex.Unlock()
 		return w.encrpytor, nil
 	}
 	// We need to generate a new key set
-	sc, err := w.generateSecureCookie()
-	w.mutex.Unlock()
-	return sc, err
+	return w.generateSecureCookie()
 }
 
 // generateSecureCookie instantiates a SecureCookie instance using either the preconfigured
-- 
2.43.0


From 2bc5b5cce801d26f038448eeaf5fb5d7f145a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 11/28] fix: generate states and session ids from a secure
 random source

They came from a math/rand source seeded with the start time: predictable, and
unsynchronised so that concurrent logins could draw the same session id.
---
 adapter/strategy/web/utils.go | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index fe81513..b19b27a 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -1,12 +1,11 @@
 package webstrategy
 
 import (
+	"crypto/rand"
 	"errors"
-	"math/rand"
 	"net/http"
 	"net/url"
 	"time"
-	"unsafe"
 
 	"go.uber.org/zap"
 
@@ -18,28 +17,23 @@ const (
 	letterBytes   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
 	letterIdxBits = 6                    // 6 bits to represent a letter index
 	letterIdxMask = 1<<letterIdxBits - 1 // All 1-bits, as many as letterIdxBits
-	letterIdxMax  = 63 / letterIdxBits   // # of letter indices fitting in 63 bits
 )
 
-var src = rand.NewSource(time.Now().UnixNano())
-
-// randString generates a random string of the given size
+// randString generates an unpredictable random string of the given size
 func randString(n int) string {
-	b := make([]byte, n)
-	// A src.Int63() generates 63 random bits, enough for letterIdxMax characters!
-	for i, cache, remain := n-1, src.Int63(), letterIdxMax; i >= 0; {
-		if remain == 0 {
-			cache, remain = src.Int63(), letterIdxMax
+	b := make([]byte, 0, n)
+	random := make([]byte, n)
+	for len(b) < n {
+		if _, err := rand.Read(random); err != nil {
+			panic(err) // neither states nor session ids may be predictable
 		}
-		if idx := int(cache & letterIdxMask); idx < len(letterBytes) {
-			b[i] = letterBytes[idx]
-			i--
+		for _, r := range random {
+			if idx := int(r & letterIdxMask); idx < len(letterBytes) && len(b) < n {
+				b = append(b, letterBytes[idx])
+			}
 		}
-		cache >>= letterIdxBits
-		remain--
 	}
-
-	return *(*string)(unsafe.Pointer(&b))
+	return string(b)
 }
 
 // generateAuthorizationURL builds the /authorization request that begins an OAuth 2.0 / OIDC flow
-- 
2.43.0


From 1b3af2a859948f7ede8deda15d9e1722e5343276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 12/28] fix: bound the userinfo call and release its response

The call had no timeout and its body was never closed: a provider that accepted
the connection and did not answer blocked the request for ever, and every call
leaked a connection.
---
 adapter/validator/validator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 37a86a8..5cfc60a 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
+	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/networking"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 )
@@ -147,7 +148,7 @@ func (*JwtTokenValidator) Validate(tokenStr string, tokenType Token, jwks keyset
 
 // validateAccessTokenString validates the access token string
 func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules []v1.Rule) *errors.OAuthError {
-	client := &http.Client{}
+	client := networking.New()
 	req, err := http.NewRequest("GET", userInfoEndpoint, nil)
 
 	if err != nil {
@@ -156,7 +157,7 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 	}
 
 	req.Header.Set("Authorization", "Bearer " + tokenStr)
-	res, err := client.Do(req)
+	res, err := client.Do(req, nil, nil)
 	if err != nil {
 		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
 		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
-- 
2.43.0


From 3ce0c5b29e4c19cec7caaaece1c55818ed33782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 13/28] fix: refresh sessions whose access token has expired

An expired JWT access token was handed to the userinfo endpoint, whose refusal
ended the session: sessions were only ever refreshed when the identity token
expired before the access token.
---
 adapter/validator/validator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 5cfc60a..8fa2cb2 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -91,7 +91,8 @@ func (o *OidcTokenValidator) Validate(tokenStr string, tokenType Token, jwks key
 	// Parse the token - validate expiration and signature
 	token, err := validateSignature(tokenStr, jwks)
 	if err != nil {
-		if tokenType != Access {
+		// an expired token is reported as such, so that the session can be refreshed
+		if tokenType != Access || err.Error() == errors.ExpiredToken {
 			zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
 			return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 		}
-- 
2.43.0


From 77bad5d50da95d5cf1584642bc6136d5268ba8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 14/28] fix: keep the refresh token when the provider does not
 rotate it

A token response without refresh_token leaves the one presented valid. Dropping
it ended every session at its second expiry.
---
 adapter/strategy/web/web.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index c2eb5f4..f779cb8 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -208,6 +208,10 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 		return nil, nil
 	} else {
 		zap.L().Debug("Updated tokens using refresh token", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
+		if tokens.RefreshToken == "" {
+			// the authorization server did not rotate the refresh token - https://tools.ietf.org/html/rfc6749#section-6
+			tokens.RefreshToken = session.RefreshToken
+		}
 		cookie := generateSessionIDCookie(c, &sessionID)
 		w.tokenCache.Store(cookie.Value, tokens)
 		return &authnz.HandleAuthnZResponse{
-- 
2.43.0


From a74761a6b802af3fb0e6c66124e54bab107ddc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 15/28] fix: do not revive a session that was logged out during
 its refresh

---
 adapter/strategy/web/web.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index f779cb8..4de2b04 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -213,7 +213,10 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 			tokens.RefreshToken = session.RefreshToken
 		}
 		cookie := generateSessionIDCookie(c, &sessionID)
-		w.tokenCache.Store(cookie.Value, tokens)
+		if !w.tokenCache.CompareAndSwap(sessionID, session, tokens) {
+			zap.L().Debug("Session ended while its tokens were being refreshed. Beginning a new session.", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
+			return nil, nil
+		}
 		return &authnz.HandleAuthnZResponse{
 			Result: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},
 			Output: &authnz.OutputMsg{
-- 
2.43.0


From 9699741ed8e90c8b762880b6e1f0dcf35aba9073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 16/28] fix: share the refresh of a session between concurrent
 requests

Every concurrent request of an expired session presented the same refresh
token. With a provider that accepts it once, all but the first were sent to log
in again, which replaced the browser's session cookie.
---
 adapter/strategy/web/web.go | 91 ++++++++++++++++++++++++++-----------
 1 file changed, 65 insertions(+), 26 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 4de2b04..582d09e 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -14,6 +14,7 @@ import (
 	"github.com/gogo/protobuf/types"
 	"github.com/gorilla/securecookie"
 	"go.uber.org/zap"
+	"golang.org/x/sync/singleflight"
 	"gopkg.in/mgo.v2/bson"
 	"istio.io/api/mixer/adapter/model/v1beta1"
 	policy "istio.io/api/policy/v1beta1"
@@ -61,6 +62,9 @@ type WebStrategy struct {
 	mutex      sync.Mutex
 	encrpytor  Encryptor
 	tokenCache *sync.Map
+
+	// refreshGroup prevents concurrent refreshes of one session
+	refreshGroup singleflight.Group
 }
 
 // Encryptor signs and encrypts values. Used for cookie encryption
@@ -194,37 +198,72 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 		zap.L().Debug("Refresh token not provided", zap.String("client_name", c.Name()))
 		return nil, nil
 	}
-	userInfoEndpoint := c.AuthorizationServer().UserInfoEndpoint()
-	keySet := c.AuthorizationServer().KeySet()
 
-	if tokens, err := c.RefreshToken(session.RefreshToken); err != nil {
-		zap.L().Info("Could not retrieve tokens using the refresh token", zap.String("client_name", c.Name()), zap.Error(err))
-		return nil, nil
-	} else if validationErr := w.tokenUtil.Validate(tokens.AccessToken, validator.Access, keySet, rules, userInfoEndpoint); validationErr != nil {
-		zap.L().Debug("Could not validate Access tokens. Beginning a new session.", zap.String("client_name", c.Name()), zap.String("session_id", sessionID), zap.Error(validationErr))
-		return nil, nil
-	} else if validationErr := w.tokenUtil.Validate(tokens.IdentityToken, validator.ID, keySet, rules, userInfoEndpoint); validationErr != nil {
-		zap.L().Debug("Could not validate Id tokens. Beginning a new session.", zap.String("client_name", c.Name()), zap.String("session_id", sessionID), zap.Error(validationErr))
+	// Concurrent requests of a session share one refresh, as a refresh token may be valid only once
+	refreshed, err, shared := w.refreshGroup.Do(c.Name()+" "+sessionID, func() (interface{}, error) {
+		return w.refreshSession(sessionID, session, c, rules)
+	})
+	if err != nil {
+		zap.L().Info("Could not refresh session. Beginning a new session.", zap.String("client_name", c.Name()), zap.String("session_id", sessionID), zap.Error(err))
 		return nil, nil
-	} else {
-		zap.L().Debug("Updated tokens using refresh token", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
-		if tokens.RefreshToken == "" {
-			// the authorization server did not rotate the refresh token - https://tools.ietf.org/html/rfc6749#section-6
-			tokens.RefreshToken = session.RefreshToken
-		}
-		cookie := generateSessionIDCookie(c, &sessionID)
-		if !w.tokenCache.CompareAndSwap(sessionID, session, tokens) {
-			zap.L().Debug("Session ended while its tokens were being refreshed. Beginning a new session.", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
+	}
+	tokens := refreshed.(*authserver.TokenResponse)
+	if shared {
+		// The tokens may have been validated according to the rules of another request
+		if err := w.validateTokens(tokens, c, rules); err != nil {
+			zap.L().Debug("Could not validate tokens. Beginning a new session.", zap.String("client_name", c.Name()), zap.String("session_id", sessionID), zap.Error(err))
 			return nil, nil
 		}
-		return &authnz.HandleAuthnZResponse{
-			Result: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},
-			Output: &authnz.OutputMsg{
-				Authorization: strings.Join([]string{bearer, tokens.AccessToken, tokens.IdentityToken}, " "),
-				SessionCookie: cookie.String(),
-			},
-		}, nil
 	}
+
+	zap.L().Debug("Updated tokens using refresh token", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
+	return &authnz.HandleAuthnZResponse{
+		Result: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},
+		Output: &authnz.OutputMsg{
+			Authorization: strings.Join([]string{bearer, tokens.AccessToken, tokens.IdentityToken}, " "),
+			SessionCookie: generateSessionIDCookie(c, &sessionID).String(),
+		},
+	}, nil
+}
+
+// refreshSession retrieves, validates and stores new tokens for an expired session
+func (w *WebStrategy) refreshSession(sessionID string, session *authserver.TokenResponse, c client.Client, rules []policiesV1.Rule) (*authserver.TokenResponse, error) {
+	if stored, ok := w.tokenCache.Load(sessionID); !ok {
+		return nil, errors.New("session ended before its tokens could be refreshed")
+	} else if stored != interface{}(session) {
+		// another request has refreshed the session since its tokens were found to be expired
+		tokens := stored.(*authserver.TokenResponse)
+		return tokens, w.validateTokens(tokens, c, rules)
+	}
+
+	tokens, err := c.RefreshToken(session.RefreshToken)
+	if err != nil {
+		return nil, err
+	}
+	if err := w.validateTokens(tokens, c, rules); err != nil {
+		return nil, err
+	}
+	if tokens.RefreshToken == "" {
+		// the authorization server did not rotate the refresh token - https://tools.ietf.org/html/rfc6749#section-6
+		tokens.RefreshToken = session.RefreshToken
+	}
+	if !w.tokenCache.CompareAndSwap(sessionID, session, tokens) {
+		return nil, errors.New("session ended while its tokens were being refreshed")
+	}
+	return tokens, nil
+}
+
+// validateTokens validates the access and identity tokens of a session
+func (w *WebStrategy) validateTokens(tokens *authserver.TokenResponse, c client.Client, rules []policiesV1.Rule) error {
+	userInfoEndpoint := c.AuthorizationServer().UserInfoEndpoint()
+	keySet := c.AuthorizationServer().KeySet()
+	if err := w.tokenUtil.Validate(tokens.AccessToken, validator.Access, keySet, rules, userInfoEndpoint); err != nil {
+		return err
+	}
+	if err := w.tokenUtil.Validate(tokens.IdentityToken, validator.ID, keySet, rules, userInfoEndpoint); err != nil {
+		return err
+	}
+	return nil
 }
 
 // handleErrorCallback returns an Unauthenticated CheckResult
-- 
2.43.0


From 16c4d60c6c1cdb846b3e37ffa1e3c33254ecf74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 17/28] fix: load the policies before accepting requests

Requests were served while the policies were still being listed, so after every
start or restart protected endpoints were open until the first list completed.
---
 adapter/policy/controller/controller.go         | 11 +++++++++++
 adapter/policy/initializer/policyinitializer.go | 13 +++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/adapter/policy/controller/controller.go b/adapter/policy/controller/controller.go
index 18f76d8..b901cfd 100644
--- a/adapter/policy/controller/controller.go
+++ b/adapter/policy/controller/controller.go
@@ -26,6 +26,8 @@ type Controller struct {
 	Queue     workqueue.RateLimitingInterface
 	Informer  cache.SharedIndexInformer
 	Handler   handler.PolicyHandler
+	// Loaded, if set, is closed once the resources that existed at the start have been handled
+	Loaded chan struct{}
 }
 
 // Run is the main path of execution for the controller loop
@@ -48,6 +50,15 @@ func (c *Controller) Run(stopCh <-chan struct{}) {
 	}
 	zap.L().Debug("Controller.Run: cache sync complete")
 
+	// handle the existing resources before reporting them as loaded: the informer
+	// being in sync does not imply that its events have reached the queue
+	if c.Loaded != nil {
+		for _, item := range c.Informer.GetIndexer().List() {
+			c.Handler.HandleAddUpdateEvent(item)
+		}
+		close(c.Loaded)
+	}
+
 	// run the runWorker method every second with a stop channel
 	wait.Until(c.runWorker, time.Second, stopCh)
 }
diff --git a/adapter/policy/initializer/policyinitializer.go b/adapter/policy/initializer/policyinitializer.go
index 77c8cfe..c9a2e55 100644
--- a/adapter/policy/initializer/policyinitializer.go
+++ b/adapter/policy/initializer/policyinitializer.go
@@ -52,9 +52,13 @@ func New(store policy.PolicyStore) (Initializer, error) {
 	policyInitializer := &PolicyInitializer{Handler: handler, KubeClient: client}
 	informerlist := policiesInformer.NewSharedInformerFactory(myresourceClient, 0)
 
-	go initPolicyController(informerlist.Appid().V1().JwtConfigs().Informer(), client, policyInitializer.Handler, v1.JWTCONFIG)
-	go initPolicyController(informerlist.Appid().V1().OidcConfigs().Informer(), client, policyInitializer.Handler, v1.OIDCCONFIG)
-	go initPolicyController(informerlist.Appid().V1().Policies().Informer(), client, policyInitializer.Handler, v1.POLICY)
+	loaded := make(chan struct{})
+	go initPolicyController(informerlist.Appid().V1().JwtConfigs().Informer(), client, policyInitializer.Handler, v1.JWTCONFIG, nil)
+	go initPolicyController(informerlist.Appid().V1().OidcConfigs().Informer(), client, policyInitializer.Handler, v1.OIDCCONFIG, nil)
+	go initPolicyController(informerlist.Appid().V1().Policies().Informer(), client, policyInitializer.Handler, v1.POLICY, loaded)
+
+	// an adapter that does not know the policies would let every request through
+	<-loaded
 
 	return policyInitializer, nil
 }
@@ -113,7 +117,7 @@ func getKubernetesClient() (kubernetes.Interface, policiesClientSet.Interface, e
 	return client, policiesClient, nil
 }
 
-func initPolicyController(informer cache.SharedIndexInformer, client kubernetes.Interface, policyHandler handler.PolicyHandler, crdType v1.CrdType) {
+func initPolicyController(informer cache.SharedIndexInformer, client kubernetes.Interface, policyHandler handler.PolicyHandler, crdType v1.CrdType, loaded chan struct{}) {
 	// create a new queue so that when the informer gets a resource that is either
 	// a result of listing or watching, we can add an idenfitying key to the queue
 	// so that it can be handled in the handler
@@ -164,6 +168,7 @@ func initPolicyController(informer cache.SharedIndexInformer, client kubernetes.
 		Informer:  informer,
 		Queue:     queue,
 		Handler:   policyHandler,
+		Loaded:    loaded,
 	}
 
 	stopCh := make(chan struct{})
-- 
2.43.0


From f15e5787505ac049cd88f3904e7c0efbe9c48916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 18/28] fix: do not apply unchanged configurations again after
 a relist

A relist during an outage of the identity provider replaced loaded keys and
discovery documents by empty ones.
---
 adapter/policy/initializer/policyinitializer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/adapter/policy/initializer/policyinitializer.go b/adapter/policy/initializer/policyinitializer.go
index c9a2e55..3005218 100644
--- a/adapter/policy/initializer/policyinitializer.go
+++ b/adapter/policy/initializer/policyinitializer.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
 
+	"k8s.io/apimachinery/pkg/api/meta"
 	"k8s.io/client-go/kubernetes"
 	_ "k8s.io/client-go/plugin/pkg/client/auth/oidc"
 	"k8s.io/client-go/rest"
@@ -139,6 +140,13 @@ func initPolicyController(informer cache.SharedIndexInformer, client kubernetes.
 			}
 		},
 		UpdateFunc: func(oldObj, newObj interface{}) {
+			// a relist reports every resource as updated; applying an unchanged configuration again
+			// would discard what has been loaded from its identity provider
+			if oldMeta, err := meta.Accessor(oldObj); err == nil {
+				if newMeta, err := meta.Accessor(newObj); err == nil && oldMeta.GetUID() == newMeta.GetUID() && oldMeta.GetResourceVersion() == newMeta.GetResourceVersion() {
+					return
+				}
+			}
 			key, err := cache.MetaNamespaceKeyFunc(newObj)
 			zap.L().Debug("Updating resource", zap.String("key", key))
 			if err == nil {
-- 
2.43.0


From b938d5838fd8ad263c3199202ea8e0b5d03d3a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 19/28] fix: share cookie keys another instance generated in
 the meantime

---
 adapter/strategy/web/web.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 582d09e..d9b495c 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -19,6 +19,7 @@ import (
 	"istio.io/api/mixer/adapter/model/v1beta1"
 	policy "istio.io/api/policy/v1beta1"
 	"istio.io/istio/mixer/pkg/status"
+	apierrors "k8s.io/apimachinery/pkg/api/errors"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
@@ -417,13 +418,15 @@ func (w *WebStrategy) getSecureCookie() (Encryptor, error) {
 func (w *WebStrategy) generateSecureCookie() (Encryptor, error) {
 	var secret interface{}
 	// Check if key set was already configured. This should occur during helm install
-	secret, err := networking.Retry(3, 1, func() (interface{}, error) {
-		return w.kubeClient.CoreV1().Secrets(defaultNamespace).Get(defaultKeySecret, metav1.GetOptions{})
-	})
+	secret, err := w.getKeySecret()
 
 	if err != nil {
 		zap.S().Infof("Secret %v not found: %v. Another will be generated.", defaultKeySecret, err)
 		secret, err = w.generateKeySecret(w.ctx.HashKeySize.Value, w.ctx.BlockKeySize.Value)
+		if apierrors.IsAlreadyExists(err) {
+			// Another instance has generated the keys in the meantime: share them
+			secret, err = w.getKeySecret()
+		}
 		if err != nil {
 			zap.L().Info("Failed to retrieve tokens", zap.Error(err))
 			return nil, err
@@ -440,6 +443,13 @@ func (w *WebStrategy) generateSecureCookie() (Encryptor, error) {
 	}
 }
 
+// getKeySecret retrieves the stored key pair.
+func (w *WebStrategy) getKeySecret() (interface{}, error) {
+	return networking.Retry(3, 1, func() (interface{}, error) {
+		return w.kubeClient.CoreV1().Secrets(defaultNamespace).Get(defaultKeySecret, metav1.GetOptions{})
+	})
+}
+
 // generateKeySecret builds and stores a key pair used for the signing and encryption
 // of session cookies.
 func (w *WebStrategy) generateKeySecret(hashKeySize int, blockKeySize int) (interface{}, error) {
-- 
2.43.0


From 44d78142a350e9da0d9468a2254dbad1ae524d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:30 +0000
Subject: [PATCH 20/28] fix: do not use a session for another client than its
 own

---
 adapter/authserver/authserver.go | 2 ++
 adapter/strategy/web/web.go      | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index 69af960..915431a 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -41,6 +41,8 @@ type TokenResponse struct {
 	RefreshToken string `json:"refresh_token"`
 	// The token expiration time
 	ExpiresIn int `json:"expires_in"`
+	// The client the tokens were issued to, set when they are stored as a session
+	ClientID string `json:"-"`
 }
 
 // AuthorizationServerService represents an authorization server instance
diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index d9b495c..0276ded 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -157,6 +157,12 @@ func (w *WebStrategy) isAuthorized(cookies string, action *engine.Action) (*auth
 		return nil, nil
 	}
 
+	if session.ClientID != "" && session.ClientID != action.Client.ID() {
+		// never hand the tokens of one client to the provider of another
+		zap.L().Info("Session belongs to another client.", zap.String("client_name", action.Client.Name()))
+		return nil, nil
+	}
+
 	zap.L().Debug("Found active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", sessionCookie.Value))
 
 	// Validate session
@@ -248,6 +254,7 @@ func (w *WebStrategy) refreshSession(sessionID string, session *authserver.Token
 		// the authorization server did not rotate the refresh token - https://tools.ietf.org/html/rfc6749#section-6
 		tokens.RefreshToken = session.RefreshToken
 	}
+	tokens.ClientID = session.ClientID
 	if !w.tokenCache.CompareAndSwap(sessionID, session, tokens) {
 		return nil, errors.New("session ended while its tokens were being refreshed")
 	}
@@ -357,6 +364,7 @@ func (w *WebStrategy) handleAuthorizationCodeCallback(code interface{}, request
 	}
 
 	cookie := generateSessionIDCookie(action.Client, nil)
+	response.ClientID = action.Client.ID()
 	w.tokenCache.Store(cookie.Value, response)
 
 	zap.L().Debug("OIDC callback: created new active session: ", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))
-- 
2.43.0


From caf4da999c02d8d42912c06ce22a5fd2e2a16fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 21/28] fix: do not follow redirects of token requests

net/http sends the body of a POST again to wherever a 307 or 308 response
points: the authorization code, the client secret or the refresh token went
to the redirect's target, or several times to the same token endpoint.
---
 adapter/networking/networking.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/adapter/networking/networking.go b/adapter/networking/networking.go
index ce9ad2b..6bf5377 100644
--- a/adapter/networking/networking.go
+++ b/adapter/networking/networking.go
@@ -2,6 +2,7 @@ package networking
 
 import (
 	"encoding/json"
+	"errors"
 	"go.uber.org/zap"
 	"net/http"
 	"time"
@@ -11,6 +12,7 @@ const (
 	filterType     = "x-filter-type"
 	istioAdapter   = "IstioAdapter"
 	defaultTimeout = 5 * time.Second
+	maxRedirects   = 10
 )
 
 // OK represents types capable of validating themselves.
@@ -27,11 +29,24 @@ type HTTPClient struct {
 func New() *HTTPClient {
 	return &HTTPClient{
 		&http.Client{
-			Timeout: defaultTimeout,
+			Timeout:       defaultTimeout,
+			CheckRedirect: checkRedirect,
 		},
 	}
 }
 
+// checkRedirect keeps a redirect from sending the body of a request, which may
+// carry credentials meant for one endpoint only, a second time
+func checkRedirect(_ *http.Request, via []*http.Request) error {
+	if via[0].Method == http.MethodPost {
+		return http.ErrUseLastResponse
+	}
+	if len(via) >= maxRedirects {
+		return errors.New("stopped after too many redirects")
+	}
+	return nil
+}
+
 // Do performs an Http request, decodes and validates the response
 func (c *HTTPClient) Do(req *http.Request, successV, failureV OK) (*http.Response, error) {
 	// Append shared headers
-- 
2.43.0


From 8263e3ac546502158dfec3fbd71acc8288cfe156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 22/28] fix: do not delete a session whose tokens another
 request has refreshed

---
 adapter/strategy/web/web.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 0276ded..90a4af5 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -176,7 +176,8 @@ func (w *WebStrategy) isAuthorized(cookies string, action *engine.Action) (*auth
 		}
 
 		zap.L().Debug("Tokens are invalid - starting a new session", zap.String("client_name", action.Client.Name()), zap.String("session_id", sessionCookie.Value), zap.Error(validationErr))
-		w.tokenCache.Delete(sessionCookie.Value)
+		// another request may have replaced the tokens in the meantime
+		w.tokenCache.CompareAndDelete(sessionCookie.Value, session)
 		return nil, nil
 	}
 
-- 
2.43.0


From e8ce315f0e1b35107467a174346f7f1063a57d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 23/28] fix: escape client ids in cookie names

---
 adapter/strategy/web/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index b19b27a..8795eee 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -74,9 +74,9 @@ func buildRequestURL(action *authnz.RequestMsg) string {
 	return action.Scheme + "://" + action.Host + action.Path
 }
 
-// buildTokenCookieName constructs the cookie name
+// buildTokenCookieName constructs the cookie name, escaping what cookie names may not contain
 func buildTokenCookieName(base string, c client.Client) string {
-	return base + "-" + c.ID()
+	return base + "-" + url.QueryEscape(c.ID())
 }
 
 // generateSessionIDCookie creates a new sessionId cookie
-- 
2.43.0


From 4d3cdd3859994488cf2e7452ab62dbe400ddfccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 24/28] fix: keep an endpoint protected by the other policies
 covering it

Deleting a Policy, or updating it to cover an endpoint no longer, left the
endpoint unprotected although another Policy covers it as well.
---
 .../handler/crdeventhandler/add_event.go      |  5 +++--
 .../handler/crdeventhandler/delete_event.go   |  4 ++--
 adapter/policy/store/policy/localstore.go     | 22 ++++++++++++++++++-
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index 5d2cb62..d617dfd 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -67,13 +67,14 @@ func (e *PolicyAddEventHandler) HandleAddUpdateEvent() {
 		e.Store.SetPolicies(policies.Endpoint, policy.RoutePolicy{ PolicyReference: mappingId, Actions: policies.Actions})
 		current[policies.Endpoint] = struct{}{}
 	}
+	previous := e.Store.GetPolicyMapping(mappingId)
+	e.Store.AddPolicyMapping(mappingId, parsedPolicies)
 	// stop enforcing the endpoints of the previous version that the policy no longer covers
-	for _, policies := range e.Store.GetPolicyMapping(mappingId) {
+	for _, policies := range previous {
 		if _, ok := current[policies.Endpoint]; !ok && e.Store.GetPolicies(policies.Endpoint).PolicyReference == mappingId {
 			e.Store.SetPolicies(policies.Endpoint, policy.NewRoutePolicy())
 		}
 	}
-	e.Store.AddPolicyMapping(mappingId, parsedPolicies)
 	zap.L().Info("Policy created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)))
 }
 
diff --git a/adapter/policy/handler/crdeventhandler/delete_event.go b/adapter/policy/handler/crdeventhandler/delete_event.go
index 61ed5a4..d9f27f3 100644
--- a/adapter/policy/handler/crdeventhandler/delete_event.go
+++ b/adapter/policy/handler/crdeventhandler/delete_event.go
@@ -37,6 +37,8 @@ func (e *OidcConfigDeleteEventHandler) HandleDeleteEvent() {
 
 func (e *PolicyDeleteEventHandler) HandleDeleteEvent() {
 	parsedPolicies := e.Store.GetPolicyMapping(e.Key)
+	// remove entry from policyMapping
+	e.Store.DeletePolicyMapping(e.Key)
 	for _, policies := range parsedPolicies {
 		zap.S().Debug("Getting policy for endpoint", policies.Endpoint)
 		storedPolicy := e.Store.GetPolicies(policies.Endpoint)
@@ -44,8 +46,6 @@ func (e *PolicyDeleteEventHandler) HandleDeleteEvent() {
 			e.Store.SetPolicies(policies.Endpoint, policy.NewRoutePolicy())
 		}
 	}
-	// remove entry from policyMapping
-	e.Store.DeletePolicyMapping(e.Key)
 	zap.S().Debug("Delete policy completed")
 }
 
diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 58e149e..ad1457f 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -142,12 +142,32 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 		s.policies[endpoint.Service].Put(endpoint.Path, obj)
 	}
 	if actions.PolicyReference == "" && len(actions.Actions) == 0 {
-		delete(obj, endpoint.Method) // the endpoint is no longer part of any policy
+		delete(obj, endpoint.Method) // the endpoint is no longer part of the policy
+		if other, ok := s.mappedPolicy(endpoint); ok {
+			obj[endpoint.Method] = other
+		}
 	} else {
 		obj[endpoint.Method] = actions
 	}
 }
 
+// mappedPolicy returns what a policy mapping stores for the endpoint, the first of
+// them by name if several policies cover it
+func (s *LocalStore) mappedPolicy(endpoint policy.Endpoint) (policy.RoutePolicy, bool) {
+	result, found := policy.NewRoutePolicy(), false
+	for name, mappings := range s.policyMappings {
+		if found && name > result.PolicyReference {
+			continue
+		}
+		for _, mapping := range mappings {
+			if mapping.Endpoint == endpoint {
+				result, found = policy.RoutePolicy{PolicyReference: name, Actions: mapping.Actions}, true
+			}
+		}
+	}
+	return result, found
+}
+
 func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
 	s.mutex.RLock()
 	defer s.mutex.RUnlock()
-- 
2.43.0


From 421a1386f6d5e2167854f58f025e4f0238e376c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 25/28] fix: do not apply the same version of a resource twice

---
 adapter/policy/controller/controller.go | 27 +++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/controller/controller.go b/adapter/policy/controller/controller.go
index b901cfd..3f90c63 100644
--- a/adapter/policy/controller/controller.go
+++ b/adapter/policy/controller/controller.go
@@ -10,6 +10,7 @@ import (
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler"
 
+	"k8s.io/apimachinery/pkg/api/meta"
 	utilruntime "k8s.io/apimachinery/pkg/util/runtime"
 	"k8s.io/apimachinery/pkg/util/wait"
 	"k8s.io/client-go/kubernetes"
@@ -28,6 +29,8 @@ type Controller struct {
 	Handler   handler.PolicyHandler
 	// Loaded, if set, is closed once the resources that existed at the start have been handled
 	Loaded chan struct{}
+	// handled maps the key of a resource -> the version of it that has been handled last
+	handled map[string]string
 }
 
 // Run is the main path of execution for the controller loop
@@ -54,7 +57,9 @@ func (c *Controller) Run(stopCh <-chan struct{}) {
 	// being in sync does not imply that its events have reached the queue
 	if c.Loaded != nil {
 		for _, item := range c.Informer.GetIndexer().List() {
-			c.Handler.HandleAddUpdateEvent(item)
+			if key, err := cache.MetaNamespaceKeyFunc(item); err == nil {
+				c.handleAddUpdate(key, item)
+			}
 		}
 		close(c.Loaded)
 	}
@@ -125,14 +130,32 @@ func (c *Controller) processNextItem() bool {
 	// a code path of successful queue key processing
 	if !exists {
 		zap.L().Debug("Controller.processNextItem: object deleted detected: %s", zap.String("key", keyRaw))
+		delete(c.handled, keyRaw)
 		c.Handler.HandleDeleteEvent(policy.CrdKey{Id: keyRaw, CrdType: c.CrdType})
 		c.Queue.Forget(key)
 	} else {
 		zap.L().Debug("Controller.processNextItem: object created detected: %s", zap.String("key", keyRaw))
-		c.Handler.HandleAddUpdateEvent(item)
+		c.handleAddUpdate(keyRaw, item)
 		c.Queue.Forget(key)
 	}
 
 	// keep the worker loop running by returning true
 	return true
 }
+
+// handleAddUpdate handles a resource unless this very version of it has been handled before, as when
+// the event of a change is processed after its result: applying an unchanged configuration again would
+// discard what has been loaded from its identity provider
+func (c *Controller) handleAddUpdate(key string, item interface{}) {
+	if m, err := meta.Accessor(item); err == nil && m.GetResourceVersion() != "" {
+		version := string(m.GetUID()) + "/" + m.GetResourceVersion()
+		if c.handled[key] == version {
+			return
+		}
+		if c.handled == nil {
+			c.handled = make(map[string]string)
+		}
+		c.handled[key] = version
+	}
+	c.Handler.HandleAddUpdateEvent(item)
+}
-- 
2.43.0


From 3a2ca3b45e70e1e1bad75e602090cd01b054e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 26/28] fix: apply all endpoints of a policy in one step

The endpoints of a changed or deleted policy were stored and removed one after
the other. A request decided in between could be decided by an endpoint that
decides it neither before nor after the change, for instance by a lenient
prefix of the old version once its stricter exact path had been removed.
---
 .../handler/crdeventhandler/add_event.go      | 17 +--------
 .../handler/crdeventhandler/delete_event.go   | 11 +-----
 adapter/policy/store/policy/localstore.go     | 37 +++++++++++++++++++
 adapter/policy/store/policy/policystore.go    |  1 +
 4 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index d617dfd..ee7e0fd 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -8,7 +8,6 @@ import (
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
 	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
-	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
 )
 
@@ -60,21 +59,7 @@ func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 func (e *PolicyAddEventHandler) HandleAddUpdateEvent() {
 	zap.L().Debug("Create/Update Policy", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.ObjectMeta.Name), zap.String("namespace", e.Obj.ObjectMeta.Namespace))
 	mappingId := e.Obj.ObjectMeta.Namespace + "/" +e.Obj.ObjectMeta.Name
-	parsedPolicies := ParseTarget(e.Obj.Spec.Target, e.Obj.ObjectMeta.Namespace)
-	current := make(map[policy.Endpoint]struct{})
-	for _, policies := range parsedPolicies {
-		zap.S().Debug("Adding policy for endpoint", policies.Endpoint)
-		e.Store.SetPolicies(policies.Endpoint, policy.RoutePolicy{ PolicyReference: mappingId, Actions: policies.Actions})
-		current[policies.Endpoint] = struct{}{}
-	}
-	previous := e.Store.GetPolicyMapping(mappingId)
-	e.Store.AddPolicyMapping(mappingId, parsedPolicies)
-	// stop enforcing the endpoints of the previous version that the policy no longer covers
-	for _, policies := range previous {
-		if _, ok := current[policies.Endpoint]; !ok && e.Store.GetPolicies(policies.Endpoint).PolicyReference == mappingId {
-			e.Store.SetPolicies(policies.Endpoint, policy.NewRoutePolicy())
-		}
-	}
+	e.Store.ReplacePolicy(mappingId, ParseTarget(e.Obj.Spec.Target, e.Obj.ObjectMeta.Namespace))
 	zap.L().Info("Policy created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)))
 }
 
diff --git a/adapter/policy/handler/crdeventhandler/delete_event.go b/adapter/policy/handler/crdeventhandler/delete_event.go
index d9f27f3..1758273 100644
--- a/adapter/policy/handler/crdeventhandler/delete_event.go
+++ b/adapter/policy/handler/crdeventhandler/delete_event.go
@@ -36,16 +36,7 @@ func (e *OidcConfigDeleteEventHandler) HandleDeleteEvent() {
 }
 
 func (e *PolicyDeleteEventHandler) HandleDeleteEvent() {
-	parsedPolicies := e.Store.GetPolicyMapping(e.Key)
-	// remove entry from policyMapping
-	e.Store.DeletePolicyMapping(e.Key)
-	for _, policies := range parsedPolicies {
-		zap.S().Debug("Getting policy for endpoint", policies.Endpoint)
-		storedPolicy := e.Store.GetPolicies(policies.Endpoint)
-		if storedPolicy.PolicyReference == e.Key {
-			e.Store.SetPolicies(policies.Endpoint, policy.NewRoutePolicy())
-		}
-	}
+	e.Store.ReplacePolicy(e.Key, nil)
 	zap.S().Debug("Delete policy completed")
 }
 
diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index ad1457f..cff110f 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -89,6 +89,11 @@ func (l *LocalStore) DeleteClient(clientName string) {
 func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 	l.mutex.RLock()
 	defer l.mutex.RUnlock()
+	return l.getPolicies(endpoint)
+}
+
+// getPolicies implements GetPolicies for callers holding the mutex
+func (l *LocalStore) getPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
 		// a path without policy for the method leaves the decision to the prefix covering it
 		for path, more := endpoint.Path, true; more; path, more = coveringPrefix(path) {
@@ -127,6 +132,11 @@ func coveringPrefix(path string) (string, bool) {
 func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
+	s.setPolicies(endpoint, actions)
+}
+
+// setPolicies implements SetPolicies for callers holding the mutex
+func (s *LocalStore) setPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
 	if s.policies == nil {
 		s.policies = make(map[policy.Service]pathtrie.Trie)
 	}
@@ -193,3 +203,30 @@ func (s *LocalStore) AddPolicyMapping(name string, mapping []policy.PolicyMappin
 	}
 	s.policyMappings[name] = mapping
 }
+
+// ReplacePolicy stores all endpoints of a policy, without any if it has been deleted, in one step:
+// a request decided while some endpoints are those of another version would be decided by neither
+func (s *LocalStore) ReplacePolicy(name string, mapping []policy.PolicyMapping) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	previous := s.policyMappings[name]
+	if s.policyMappings == nil {
+		s.policyMappings = make(map[string][]policy.PolicyMapping)
+	}
+	if len(mapping) > 0 {
+		s.policyMappings[name] = mapping
+	} else {
+		delete(s.policyMappings, name)
+	}
+	current := make(map[policy.Endpoint]struct{})
+	for _, policies := range mapping {
+		s.setPolicies(policies.Endpoint, policy.RoutePolicy{PolicyReference: name, Actions: policies.Actions})
+		current[policies.Endpoint] = struct{}{}
+	}
+	// stop enforcing the endpoints that the policy no longer covers
+	for _, policies := range previous {
+		if _, ok := current[policies.Endpoint]; !ok && s.getPolicies(policies.Endpoint).PolicyReference == name {
+			s.setPolicies(policies.Endpoint, policy.NewRoutePolicy())
+		}
+	}
+}
diff --git a/adapter/policy/store/policy/policystore.go b/adapter/policy/store/policy/policystore.go
index 228ce57..990ecea 100644
--- a/adapter/policy/store/policy/policystore.go
+++ b/adapter/policy/store/policy/policystore.go
@@ -20,4 +20,5 @@ type PolicyStore interface {
 	GetPolicyMapping(policy string) []policy.PolicyMapping
 	AddPolicyMapping(policy string, mapping []policy.PolicyMapping)
 	DeletePolicyMapping(policy string)
+	ReplacePolicy(policy string, mapping []policy.PolicyMapping)
 }
-- 
2.43.0


From e7773cecc31557219dee518274574ffaf328c8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 27/28] fix: look up the policy of a request in one step

Further lookups for all methods and for the root prefix repeated what the
store already does. A policy stored between two of them was found without its
method specific or longer paths, so that a request was decided as neither
before nor after the change.
---
 adapter/policy/engine/engine.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 94931dd..ab4e3cc 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -160,12 +160,12 @@ func createDefaultRules(action Action) []v1.Rule {
 	}
 }
 
-// endpointsToCheck returns the possible endpoints housing the authn/z policies for the given target
+// endpointsToCheck returns the possible endpoints housing the authn/z policies for the given target.
+// The store falls back to all methods and the prefixes covering a path in the same lookup: another
+// one might find only part of a policy which has been stored since
 func endpointsToCheck(target *authnz.TargetMsg) []policy.Endpoint {
 	service := policy.Service{Namespace: target.Namespace, Name: target.Service}
 	return []policy.Endpoint{
 		{Service: service, Path: target.Path, Method: policy.NewMethod(target.Method)},
-		{Service: service, Path: target.Path, Method: policy.ALL},
-		{Service: service, Path: "/*", Method: policy.ALL},
 	}
 }
-- 
2.43.0


From 10eafe95f073bb8e7c81db6875b7e7f21cb60d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:11 +0000
Subject: [PATCH 28/28] fix: strip only the final /oidc/callback or
 /oidc/logout of a path

---
 adapter/policy/engine/engine.go | 4 ++--
 adapter/strategy/web/web.go     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index ab4e3cc..52d7cb2 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -53,9 +53,9 @@ func (m *engine) Evaluate(target *authnz.TargetMsg) (*Action, error) {
 
 	// Strip custom path components
 	if strings.HasSuffix(target.Path, callbackEndpoint) {
-		target.Path = strings.Split(target.Path, callbackEndpoint)[0]
+		target.Path = strings.TrimSuffix(target.Path, callbackEndpoint)
 	} else if strings.HasSuffix(target.Path, logoutEndpoint) {
-		target.Path = strings.Split(target.Path, logoutEndpoint)[0]
+		target.Path = strings.TrimSuffix(target.Path, logoutEndpoint)
 	}
 
 	// Get All policies protecting target
diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 90a4af5..b3d411b 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -301,7 +301,7 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 		w.tokenCache.Delete(cookie.Value)
 	}
 
-	redirectURL := strings.Split(r.Instance.Request.Path, logoutEndpoint)[0]
+	redirectURL := strings.TrimSuffix(r.Instance.Request.Path, logoutEndpoint)
 	cookies := []*http.Cookie{
 		{
 			Name:    cookieName,
@@ -547,7 +547,7 @@ func (w *WebStrategy) parseAndValidateCookie(cookie *http.Cookie) *OidcCookie {
 // to the provided url with the accompanying cookie headers
 func buildSuccessRedirectResponse(redirectURI string, cookies []*http.Cookie) *authnz.HandleAuthnZResponse {
 	headers := make(map[string]string)
-	headers[location] = strings.Split(redirectURI, callbackEndpoint)[0]
+	headers[location] = strings.TrimSuffix(redirectURI, callbackEndpoint)
 	for _, cookie := range cookies {
 		headers[setCookie] = cookie.String()
 		zap.S().Debugf("Appending cookie to response: %s", cookie.String())
-- 
2.43.0

