PROP='C15'; PKG='adapter/validator'
EDITS=[('adapter/validator/validator.go','''		keyID, ok := token.Header[kid].(string)
		if keyID == "" || !ok {
''','''		keyID := ""
		if id, present := token.Header[kid]; present {
			keyID = id.(string)
		}
		if keyID == "" {
''')]
NEEDS='a token whose header has a key id that is not a string'
BREAKS='such a token makes the adapter panic'
TEST='''
package validator

import (
	"encoding/base64"
	"testing"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
)

func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic: %v", r)
		}
	}()
	e := base64.RawURLEncoding
	for _, h := range []string{`{"alg":"RS256","kid":7}`, `{"alg":"RS256","kid":null}`, `{"alg":"RS256","kid":["a"]}`} {
		tok := e.EncodeToString([]byte(h)) + "." + e.EncodeToString([]byte(`{"exp":4000000000}`)) + "." + e.EncodeToString([]byte("sig"))
		if NewTokenValidator(policy.JWT).Validate(tok, Access, testKeySet, emptyRule, "") == nil {
			t.Fatal("accepted")
		}
	}
}
'''
