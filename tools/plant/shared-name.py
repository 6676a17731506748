PROP='C06'; PKG='adapter/strategy/web'
EDITS=[('adapter/strategy/web/web.go','''	if encoded, err := sc.Encode(cookieName, data); err == nil {
''','''	if encoded, err := sc.Encode(sessionCookie, data); err == nil {
'''),('adapter/strategy/web/web.go','''	if err := sc.Decode(cookie.Name, cookie.Value, &value); err != nil {
''','''	if err := sc.Decode(sessionCookie, cookie.Value, &value); err != nil {
''')]
NEEDS='a state cookie issued for one client presented, renamed, as that of another'
BREAKS='a state cookie is no longer bound to the client it was issued for'
TEST='''
package webstrategy

import (
	"sync"
	"testing"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/tests/fake"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

func TestDemo(t *testing.T) {
	w := WebStrategy{tokenUtil: MockValidator{}, tokenCache: new(sync.Map), encrpytor: defaultSecureCookie}
	a := fake.NewClient(nil)
	b := fake.NewClient(nil)
	b.ClientID = "another-client"
	state, c, err := w.buildStateParam(a)
	if err != nil {
		t.Fatal(err)
	}
	c.Name = buildTokenCookieName(sessionCookie, b)
	err = w.validateState(&authnz.RequestMsg{Headers: &authnz.HeadersMsg{Cookies: c.String()}, Params: &authnz.QueryParamsMsg{State: state}}, b)
	if err == nil {
		t.Fatal("the state of one client was accepted for another")
	}
}
'''
