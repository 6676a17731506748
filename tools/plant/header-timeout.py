PROP='C13'; PKG='adapter/networking'
EDITS=[('adapter/networking/networking.go','''		&http.Client{
			Timeout:       defaultTimeout,
''','''		Client: &http.Client{
			// large key sets may take longer than this to arrive: limit the wait for the answer
			Transport: &http.Transport{
				Proxy:                 http.ProxyFromEnvironment,
				DialContext:           (&net.Dialer{Timeout: defaultTimeout}).DialContext,
				TLSHandshakeTimeout:   defaultTimeout,
				ResponseHeaderTimeout: defaultTimeout,
			},
'''),('adapter/networking/networking.go','''	"go.uber.org/zap"
	"net/http"
''','''	"go.uber.org/zap"
	"net"
	"net/http"
''')]
NEEDS='a provider that answers with headers and then stops in the middle of the body'
BREAKS='reading the body has no time limit any more, so the request hangs for ever'
TEST='''
package networking

import (
	"net/http"
	"net/http/httptest"
	"testing"
	"time"
)

type doc struct{ A string }

func (*doc) OK() error { return nil }

func TestDemo(t *testing.T) {
	stop := make(chan struct{})
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(`{"A":`))
		w.(http.Flusher).Flush()
		<-stop
	}))
	defer s.Close()
	defer close(stop)
	done := make(chan struct{})
	go func() {
		req, _ := http.NewRequest("GET", s.URL, nil)
		New().Do(req, &doc{}, &doc{})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(4 * defaultTimeout):
		t.Fatal("the call has not returned after 20 s")
	}
}
'''
