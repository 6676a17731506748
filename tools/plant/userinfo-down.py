PROP='C01'; PKG='adapter/validator'
EDITS=[('adapter/validator/validator.go','''	if res.StatusCode != http.StatusOK {''','''	if res.StatusCode >= http.StatusBadRequest && res.StatusCode < http.StatusInternalServerError {''')]
NEEDS='an opaque access token checked while the userinfo endpoint answers with a server error'
BREAKS='opaque access tokens count as valid while the provider cannot tell, so sessions pass unverified'
TEST='''
package validator

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"crypto"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
)

type noKeys struct{}

func (noKeys) PublicKeyURL() string              { return "http://keys" }
func (noKeys) PublicKey(string) crypto.PublicKey { return nil }

func TestDemo(t *testing.T) {
	code := 200
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(code) }))
	defer s.Close()
	v := NewTokenValidator(policy.OIDC)
	for _, code = range []int{200, 401, 403, 500, 502, 503} {
		err := v.Validate("opaque", Access, noKeys{}, nil, s.URL)
		if (err == nil) != (code == 200) {
			t.Errorf("userinfo answers %d: %v", code, err)
		}
	}
}
'''
