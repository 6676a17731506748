PROP='C04'; PKG='adapter/validator'
EDITS=[('adapter/validator/validator.go','''	// Parse the token - validate expiration and signature
	token, err := validateSignature(tokenStr, jwks)
	if err != nil {
		zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
	}

	// Validate token
	claimErr := validateClaims(token, tokenType, rules)
''','''	// Parse the token - validate expiration and signature
	var err error
	token, known := cachedToken(tokenStr, jwks)
	if !known {
		token, err = validateSignature(tokenStr, jwks)
		if err != nil {
			zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
			return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
		}
		recent.Store(jwks.PublicKeyURL()+" "+tokenStr, cached{token, time.Now()})
	}

	// Validate token
	claimErr := validateClaims(token, tokenType, rules)
'''),('adapter/validator/validator.go','''// //////////////// utilities //////////////////
''','''// recent holds tokens validated in the last seconds: checking signatures is expensive
var recent sync.Map

type cached struct {
	token *jwt.Token
	at    time.Time
}

func cachedToken(tokenStr string, jwks keyset.KeySet) (*jwt.Token, bool) {
	c, ok := recent.Load(jwks.PublicKeyURL() + " " + tokenStr)
	if !ok || time.Since(c.(cached).at) > time.Minute {
		return nil, false
	}
	return c.(cached).token, true
}

// //////////////// utilities //////////////////
'''),('adapter/validator/validator.go','''	"strings"
''','''	"strings"
	"sync"
	"time"
''')]
NEEDS='a token used again within a minute of its first use, after its expiry'
BREAKS='expired tokens (and tokens of withdrawn keys) keep being accepted for up to a minute'
TEST='''
package validator

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"testing"
	"time"

	"github.com/dgrijalva/jwt-go"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
)

type oneKey struct{ k crypto.PublicKey }

func (o oneKey) PublicKeyURL() string               { return "http://keys" }
func (o oneKey) PublicKey(string) crypto.PublicKey { return o.k }

func TestDemo(t *testing.T) {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	tok := jwt.NewWithClaims(jwt.SigningMethodRS256, jwt.MapClaims{"exp": time.Now().Add(3 * time.Second).Unix()})
	tok.Header["kid"] = "k"
	s, err := tok.SignedString(k)
	if err != nil {
		t.Fatal(err)
	}
	v := NewTokenValidator(policy.JWT)
	if e := v.Validate(s, Access, oneKey{&k.PublicKey}, nil, ""); e != nil {
		t.Fatal(e)
	}
	time.Sleep(5 * time.Second)
	if e := v.Validate(s, Access, oneKey{&k.PublicKey}, nil, ""); e == nil {
		t.Fatal("the token is still accepted after its expiry")
	}
}
'''
