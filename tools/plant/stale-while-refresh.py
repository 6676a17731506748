PROP='C09'; PKG='adapter/strategy/web'
EDITS=[('adapter/strategy/web/web.go','''			return w.handleRefreshTokens(sessionCookie.Value, session, action.Client, action.Rules)
''','''			if session.RefreshToken == "" {
				return nil, nil
			}
			// renew the tokens in the background, this request need not wait for it
			go w.handleRefreshTokens(sessionCookie.Value, session, action.Client, action.Rules)
			return &authnz.HandleAuthnZResponse{
				Result: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},
				Output: &authnz.OutputMsg{
					Authorization: strings.Join([]string{bearer, session.AccessToken, session.IdentityToken}, " "),
				},
			}, nil
''')]
NEEDS='a session whose tokens have expired and a provider that refuses the refresh'
BREAKS='requests are let through with expired tokens while the refresh is under way, and for good if it is refused'
TEST='''
package webstrategy

import (
	"errors"
	"net/http"
	"sync"
	"testing"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	err "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/tests/fake"
)

type expired struct{}

func (expired) Validate(string, validator.Token, keyset.KeySet, []v1.Rule, string) *err.OAuthError {
	return err.ExpiredTokenError()
}

func TestDemo(t *testing.T) {
	w := WebStrategy{tokenUtil: expired{}, tokenCache: new(sync.Map), encrpytor: defaultSecureCookie}
	c := fake.NewClient(&fake.TokenResponse{Err: errors.New("refresh refused")})
	w.tokenCache.Store("session-1", &authserver.TokenResponse{AccessToken: "a", IdentityToken: "i", RefreshToken: "r"})
	ck := http.Cookie{Name: buildTokenCookieName(sessionCookie, c), Value: "session-1"}
	r, e := w.HandleAuthnZRequest(generateAuthnzRequest(ck.String(), "", "", "", ""), &engine.Action{Client: c})
	if e == nil && r.Result.Status.Code == 0 {
		t.Fatal("let through with expired tokens and a refused refresh")
	}
}
'''
