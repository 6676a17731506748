PROP='C12'; PKG='adapter/authserver'
EDITS=[('adapter/authserver/authserver.go','''	if authnMethod != clientPostSecret {
		req.SetBasicAuth''','''	if authnMethod != clientPostSecret || refreshToken != "" {
		req.SetBasicAuth''')]
NEEDS='the refresh of a session of a client with client_secret_post'
BREAKS='the refresh request authenticates with both methods, which is not the configured one (and RFC 6749 forbids it)'
TEST='''
package authserver

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	var url string
	bad := 0
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Method == "POST" {
			_, _, basic := r.BasicAuth()
			if posted := r.FormValue("client_secret") != ""; basic == posted || posted != (r.FormValue("client_id") == "p") {
				bad++
			}
			w.Write([]byte(`{"access_token":"a"}`))
			return
		}
		w.Write([]byte(`{"issuer":"i","jwks_uri":"` + url + `/k","authorization_endpoint":"a","token_endpoint":"` + url + `/t","userinfo_endpoint":"u"}`))
	}))
	defer s.Close()
	url = s.URL
	a := New(s.URL + "/d")
	a.GetTokens("client_secret_post", "p", "secret", "code", "https://r", "")
	a.GetTokens("client_secret_post", "p", "secret", "", "", "refresh")
	a.GetTokens("client_secret_basic", "b", "secret", "code", "https://r", "")
	a.GetTokens("client_secret_basic", "b", "secret", "", "", "refresh")
	if bad != 0 {
		t.Fatalf("%d token requests authenticate in another way than configured", bad)
	}
}
'''
