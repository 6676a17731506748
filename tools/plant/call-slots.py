PROP='C14'; PKG='adapter/networking'
EDITS=[('adapter/networking/networking.go','''	res, err := c.Client.Do(req)
''','''	res, err := c.send(req)
'''),('adapter/networking/networking.go','''// Do performs an Http request, decodes and validates the response
''','''// send limits the number of calls in progress
func (c *HTTPClient) send(req *http.Request) (*http.Response, error) {
	slots <- struct{}{}
	defer func() { <-slots }()
	return c.Client.Do(req)
}

// slots limits the outbound calls in progress
var slots = make(chan struct{}, 3)

// Do performs an Http request, decodes and validates the response
''')]
NEEDS='three calls to a stalling provider in progress when a healthy one is needed'
BREAKS='calls to healthy providers queue behind those to a stalled one'
TEST='''
package networking

import (
	"net/http"
	"net/http/httptest"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	stop := make(chan struct{})
	slow := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { <-stop }))
	fast := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
	defer slow.Close()
	defer fast.Close()
	defer close(stop)
	for i := 0; i < 20; i++ {
		go func() {
			req, _ := http.NewRequest("GET", slow.URL, nil)
			New().Do(req, nil, nil)
		}()
	}
	time.Sleep(300 * time.Millisecond)
	start := time.Now()
	req, _ := http.NewRequest("GET", fast.URL, nil)
	if _, err := New().Do(req, nil, nil); err != nil {
		t.Fatal(err)
	}
	if d := time.Since(start); d > 2*time.Second {
		t.Fatalf("the healthy provider was asked after %v", d)
	}
}
'''
