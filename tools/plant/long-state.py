PROP='C06'; PKG='adapter/strategy/web'
EDITS=[('adapter/strategy/web/web.go','''	if cookieObj.Expiration.Before(time.Now()) {
''','''	// tolerate clocks that differ between replicas
	const leeway = 10 * time.Minute
	if cookieObj.Expiration.Add(leeway).Before(time.Now()) {
''')]
NEEDS='a callback that arrives between 60 and 70 minutes after the login began'
BREAKS='login state is accepted for longer than the hour it is valid'
TEST='''
package webstrategy

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	w := WebStrategy{encrpytor: defaultSecureCookie}
	for _, age := range []time.Duration{time.Second, time.Minute, 5 * time.Minute} {
		c, err := w.generateEncryptedCookie("oidc-cookie-id", &OidcCookie{Value: "state", Expiration: time.Now().Add(-age)})
		if err != nil {
			t.Fatal(err)
		}
		if w.parseAndValidateCookie(c) != nil {
			t.Fatalf("state that expired %v ago was accepted", age)
		}
	}
}
'''
