PROP='C07'; PKG='adapter/strategy/web'
EDITS=[('adapter/strategy/web/web.go','''	cookie := generateSessionIDCookie(action.Client, nil)
''','''	// the validated state is random and belongs to this very login
	cookie := generateSessionIDCookie(action.Client, &request.Params.State)
''')]
NEEDS='a login whose state is known (it travelled through URLs), or one state used for two completed callbacks'
BREAKS='the session id equals the state parameter handed out before, and two logins completed with one state share a session'
TEST='''
package webstrategy

import (
	"strings"
	"sync"
	"testing"

	"github.com/gogo/protobuf/types"
	"istio.io/api/policy/v1beta1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/tests/fake"
)

func TestDemo(t *testing.T) {
	w := WebStrategy{tokenUtil: MockValidator{}, tokenCache: new(sync.Map), encrpytor: defaultSecureCookie}
	action := &engine.Action{Client: fake.NewClient(defaultSuccessTokenResponse())}
	state, c, err := w.buildStateParam(action.Client)
	if err != nil {
		t.Fatal(err)
	}
	r, err := w.HandleAuthnZRequest(generateAuthnzRequest(c.String(), "code", "", "/oidc/callback", state), action)
	if err != nil {
		t.Fatal(err)
	}
	var d v1beta1.DirectHttpResponse
	if err := types.UnmarshalAny(r.Result.Status.Details[0], &d); err != nil {
		t.Fatal(err)
	}
	if strings.Contains(d.Headers["Set-Cookie"], "="+state+";") {
		t.Fatal("the session id is the state, which was in the URL")
	}
}
'''
