PROP='C09'; PKG='adapter/strategy/web'
EDITS=[('adapter/strategy/web/web.go','''	cookie := generateSessionIDCookie(action.Client, nil)
	response''','''	cookie := newSessionCookie(action.Client, response)
	response'''),('adapter/strategy/web/web.go','''// handleAuthorizationCodeFlow ''','''// newSessionCookie creates a cookie which the browser keeps no longer than the tokens are valid
func newSessionCookie(c client.Client, tokens *authserver.TokenResponse) *http.Cookie {
	cookie := generateSessionIDCookie(c, nil)
	if tokens.ExpiresIn > 0 {
		cookie.Expires = time.Now().Add(time.Duration(tokens.ExpiresIn) * time.Second)
	}
	return cookie
}

// handleAuthorizationCodeFlow ''')]
NEEDS='a provider that answers with expires_in, and a browser which comes back after the tokens have expired'
BREAKS='the browser has dropped the session cookie by the time a refresh would be due: the user has to log in again'
TEST='''
package webstrategy

import (
	"net/http"
	"testing"
	"time"

	"github.com/gogo/protobuf/types"
	"istio.io/api/policy/v1beta1"
	k8sfake "k8s.io/client-go/kubernetes/fake"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	err "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/tests/fake"
)

func TestDemo(t *testing.T) {
	api := New(config.NewConfig(), k8sfake.NewSimpleClientset()).(*WebStrategy)
	api.encrpytor = defaultSecureCookie
	api.tokenUtil = MockValidator{func(string) *err.OAuthError { return nil }}
	state, _ := api.generateEncryptedCookie("oidc-cookie-id", defaultSessionOidcCookie())
	c := fake.NewClient(&fake.TokenResponse{Res: &authserver.TokenResponse{AccessToken: "a", IdentityToken: "i", RefreshToken: "r", ExpiresIn: 1}})
	r, e := api.HandleAuthnZRequest(generateAuthnzRequest(state.String(), "code", "", callbackEndpoint, defaultState), &engine.Action{Client: c})
	if e != nil || len(r.Result.Status.Details) != 1 {
		t.Fatal(r, e)
	}
	d := new(v1beta1.DirectHttpResponse)
	if e := types.UnmarshalAny(r.Result.Status.Details[0], d); e != nil || d.Code != 302 {
		t.Fatal(d, e)
	}
	h := http.Header{}
	h.Add("Set-Cookie", d.Headers[setCookie])
	ck := (&http.Response{Header: h}).Cookies()
	if len(ck) != 1 {
		t.Fatal(d)
	}
	if !ck[0].Expires.IsZero() && ck[0].Expires.Before(time.Now().Add(time.Hour)) {
		t.Fatal("the browser drops the cookie of a session that can be refreshed", ck[0].Expires)
	}
}
'''
