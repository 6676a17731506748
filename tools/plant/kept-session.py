PROP='C07'; PKG='adapter/strategy/web'
EDITS=[('adapter/strategy/web/web.go','''	cookie := generateSessionIDCookie(action.Client, nil)
''','''	// a browser that logs in again keeps its session
	var previous *string
	header := http.Header{"Cookie": {request.Headers.Cookies}}
	for _, c := range (&http.Request{Header: header}).Cookies() {
		if _, ok := w.tokenCache.Load(c.Value); ok {
			previous = &c.Value
		}
	}
	cookie := generateSessionIDCookie(action.Client, previous)
''')]
NEEDS='a callback request that also carries the cookie of an existing session (of another client, or planted by an attacker)'
BREAKS='the new login continues under a session identifier that another login received before'
TEST='''
package webstrategy

import (
	"strings"
	"sync"
	"testing"

	"github.com/gogo/protobuf/types"
	"istio.io/api/policy/v1beta1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/tests/fake"
)

func TestDemo(t *testing.T) {
	w := WebStrategy{tokenUtil: MockValidator{}, tokenCache: new(sync.Map), encrpytor: defaultSecureCookie}
	action := &engine.Action{Client: fake.NewClient(defaultSuccessTokenResponse())}
	w.tokenCache.Store("attackersession", defaultSuccessTokenResponse())
	state, c, err := w.buildStateParam(action.Client)
	if err != nil {
		t.Fatal(err)
	}
	r, err := w.HandleAuthnZRequest(generateAuthnzRequest(c.Name+"="+c.Value+"; oidc-cookie-other=attackersession", "code", "", "/oidc/callback", state), action)
	if err != nil {
		t.Fatal(err)
	}
	var d v1beta1.DirectHttpResponse
	if err := types.UnmarshalAny(r.Result.Status.Details[0], &d); err != nil {
		t.Fatal(err)
	}
	if strings.Contains(d.Headers["Set-Cookie"], "attackersession") {
		t.Fatal("the login continues an old session: " + d.Headers["Set-Cookie"])
	}
	if d.Headers["Set-Cookie"] == "" {
		t.Fatal("no session")
	}
}
'''
