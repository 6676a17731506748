PROP='C12'; PKG='adapter/authserver'
EDITS=[('adapter/authserver/authserver.go','''	if res, err := s.httpclient.Do(req, tokenResponse, oa2Err); err != nil {
		zap.L().Info("Failed to retrieve tokens", zap.Error(err))
		return nil, err
''','''	res, err := s.httpclient.Do(req, tokenResponse, oa2Err)
	if err != nil && res == nil && req.GetBody != nil {
		// the connection broke: try once more
		if body, bodyErr := req.GetBody(); bodyErr == nil {
			req.Body = body
			res, err = s.httpclient.Do(req, tokenResponse, oa2Err)
		}
	}
	if err != nil {
		zap.L().Info("Failed to retrieve tokens", zap.Error(err))
		return nil, err
''')]
NEEDS='the response to a token request is lost after the provider has received it'
BREAKS='the authorization code (or refresh token) is sent a second time'
TEST='''
package authserver

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	posts := 0
	var url string
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Method == "POST" {
			posts++
			panic(http.ErrAbortHandler) // the response is lost
		}
		w.Write([]byte(`{"issuer":"i","jwks_uri":"` + url + `/k","authorization_endpoint":"a","token_endpoint":"` + url + `/t","userinfo_endpoint":"u"}`))
	}))
	defer s.Close()
	url = s.URL
	if _, err := New(s.URL + "/d").GetTokens("", "id", "secret", "code", "https://r", ""); err == nil {
		t.Fatal("expected an error")
	}
	if posts != 1 {
		t.Fatalf("the code was sent %d times", posts)
	}
}
'''
