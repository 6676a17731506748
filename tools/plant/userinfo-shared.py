PROP='C07'; PKG='adapter/validator'
EDITS=[('adapter/validator/validator.go', 'if res.StatusCode != http.StatusOK {', 'if res == nil || res.StatusCode != http.StatusOK {'), ('adapter/validator/validator.go', '\tres, err := client.Do(req, nil, nil)\n', '\tv, err, _ := userInfoGroup.Do(userInfoEndpoint, func() (interface{}, error) { return client.Do(req, nil, nil) })\n\tres, _ := v.(*http.Response)\n'), ('adapter/validator/validator.go', 'func checkJwtFormat(', 'var userInfoGroup singleflight.Group\n\nfunc checkJwtFormat('), ('adapter/validator/validator.go', '\t"go.uber.org/zap"\n', '\t"go.uber.org/zap"\n\t"golang.org/x/sync/singleflight"\n')]
NEEDS='two opaque access tokens checked at the same moment, one of them revoked'
BREAKS="a token is judged by the provider's answer about another one: sessions pass with tokens the provider refuses, and good ones are refused"
TEST='''
package validator

import (
	"crypto"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
)

type noKeys struct{}

func (noKeys) PublicKeyURL() string              { return "http://keys" }
func (noKeys) PublicKey(string) crypto.PublicKey { return nil }

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		time.Sleep(300 * time.Millisecond)
		if !strings.Contains(r.Header.Get("Authorization"), "good") {
			w.WriteHeader(401)
		}
	}))
	defer s.Close()
	v := NewTokenValidator(policy.OIDC)
	var wg sync.WaitGroup
	for _, token := range []string{"good-1", "bad-1", "good-2", "bad-2"} {
		wg.Add(1)
		go func(token string) {
			defer wg.Done()
			err := v.Validate(token, Access, noKeys{}, nil, s.URL)
			if (err == nil) != strings.HasPrefix(token, "good") {
				t.Errorf("%s: %v", token, err)
			}
		}(token)
	}
	wg.Wait()
}
'''
