PROP='C08'; PKG='adapter/strategy/web'
EDITS=[('adapter/strategy/web/web.go','''		w.tokenCache.Delete(cookie.Value)
	}

	redirectURL := ''','''		// the redirect need not wait for the cache
		go w.tokenCache.Delete(cookie.Value)
	}

	redirectURL := ''')]
NEEDS='a request with the session cookie that is handled before the goroutine started by the logout has run'
BREAKS='handleLogout removes the session in a goroutine of its own, so the logout is answered while the session still works'
TEST='''
package webstrategy

import (
	"runtime"
	"sync"
	"testing"

	"github.com/gogo/googleapis/google/rpc"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/tests/fake"
)

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	for i := 0; i < 50; i++ {
		w := WebStrategy{tokenUtil: MockValidator{}, tokenCache: new(sync.Map), encrpytor: defaultSecureCookie}
		w.tokenCache.Store(defaultState, &authserver.TokenResponse{AccessToken: "a", IdentityToken: "i"})
		action := &engine.Action{Client: fake.NewClient(nil)}
		cookies := createCookie().String()
		if _, err := w.HandleAuthnZRequest(generateAuthnzRequest(cookies, "", "", "/oidc/logout", ""), action); err != nil {
			t.Fatal(err)
		}
		r, err := w.HandleAuthnZRequest(generateAuthnzRequest(cookies, "", "", "", ""), action)
		if err != nil {
			t.Fatal(err)
		}
		if r.Result.Status.Code == int32(rpc.OK) {
			t.Fatal("a session was served after its logout had been answered")
		}
	}
}
'''
