PROP='C02'; PKG='adapter/strategy/web'
EDITS=[('adapter/strategy/web/web.go', '\t// Validate session\n', '\tif t, ok := w.checked.Load(session); ok && time.Since(t.(time.Time)) < 10*time.Second {\n\t\treturn &authnz.HandleAuthnZResponse{\n\t\t\tResult: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},\n\t\t\tOutput: &authnz.OutputMsg{\n\t\t\t\tAuthorization: strings.Join([]string{bearer, session.AccessToken, session.IdentityToken}, " "),\n\t\t\t},\n\t\t}, nil\n\t}\n\t// Validate session\n'), ('adapter/strategy/web/web.go', '\tzap.L().Debug("User is currently authenticated")\n', '\tw.checked.Store(session, time.Now())\n\tzap.L().Debug("User is currently authenticated", zap.String("client_name", action.Client.Name()))\n'), ('adapter/strategy/web/web.go', '\t// refreshGroup prevents', '\tchecked sync.Map\n\n\t// refreshGroup prevents')]
NEEDS='one session used at two endpoints with different rules within ten seconds'
BREAKS='the stricter rules of the second endpoint are not applied'
TEST='''
package webstrategy

import (
	"sync"
	"testing"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/tests/fake"
)

type strict struct{}

func (strict) Validate(_ string, _ validator.Token, _ keyset.KeySet, rules []v1.Rule, _ string) *errors.OAuthError {
	if len(rules) > 0 {
		return errors.UnauthorizedHTTPException("rules", nil)
	}
	return nil
}

func TestDemo(t *testing.T) {
	w := WebStrategy{tokenUtil: strict{}, tokenCache: new(sync.Map), encrpytor: defaultSecureCookie}
	c := fake.NewClient(defaultSuccessTokenResponse())
	w.tokenCache.Store("session", &authserver.TokenResponse{AccessToken: "a", IdentityToken: "i"})
	cookie := buildTokenCookieName(sessionCookie, c) + "=session"
	lenient := &engine.Action{Client: c}
	lenient.Rules = []v1.Rule{}
	r, err := w.HandleAuthnZRequest(generateAuthnzRequest(cookie, "", "", "", ""), lenient)
	if err != nil || r.Result.Status.Code != 0 {
		t.Fatal(r, err)
	}
	other := &engine.Action{Client: c}
	other.Rules = []v1.Rule{{Claim: "role", Values: []string{"admin"}}}
	r, err = w.HandleAuthnZRequest(generateAuthnzRequest(cookie, "", "", "", ""), other)
	if err != nil || r.Result.Status.Code == 0 {
		t.Fatal("let through against the rules", err)
	}
}
'''
