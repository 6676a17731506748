PROP='C13'; PKG='adapter/networking'
EDITS=[('adapter/networking/networking.go','''	defer res.Body.Close()

	// Decode from json
	if successV != nil || failureV != nil {
		err = decodeResponse(res, successV, failureV)
	}
''','''	// Decode from json
	if successV != nil || failureV != nil {
		defer res.Body.Close()
		err = decodeResponse(res, successV, failureV)
	}
''')]
NEEDS='an opaque access token, which is checked at the userinfo endpoint without decoding the answer'
BREAKS='the userinfo response body is never closed: every such request leaks a connection'
TEST='''
package networking

import (
	"io"
	"net/http"
	"net/http/httptest"
	"testing"
)

type body struct {
	io.ReadCloser
	closed *bool
}

func (b body) Close() error { *b.closed = true; return b.ReadCloser.Close() }

type rt struct{ closed *bool }

func (r rt) RoundTrip(q *http.Request) (*http.Response, error) {
	res, err := http.DefaultTransport.RoundTrip(q)
	if err == nil {
		res.Body = body{res.Body, r.closed}
	}
	return res, err
}

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("{}")) }))
	defer s.Close()
	closed := false
	c := New()
	c.Client.Transport = rt{&closed}
	req, _ := http.NewRequest("GET", s.URL, nil)
	if _, err := c.Do(req, nil, nil); err != nil {
		t.Fatal(err)
	}
	if !closed {
		t.Fatal("the response body was left open")
	}
}
'''
