PROP='C16'; PKG='adapter/authserver'
EDITS=[('adapter/authserver/authserver.go','''	if err != nil {
		zap.L().Debug("Could not sync discovery endpoint", zap.String("url", s.discoveryURL), zap.Error(err))
		return err
	}

	return nil
}
''','''	if err != nil {
		if n := atomic.AddInt32(&s.failures, 1); n >= maxFailures {
			// do not flood a provider that does not answer
			s.discoveryURL = ""
		} else {
			zap.L().Debug("Could not sync discovery endpoint", zap.Int32("failures", n), zap.String("url", s.discoveryURL), zap.Error(err))
		}
		return err
	}

	return nil
}
'''),('adapter/authserver/authserver.go','''	requestGroup singleflight.Group
''','''	requestGroup singleflight.Group
	failures     int32
'''),('adapter/authserver/authserver.go','''const (
	clientPostSecret = "client_secret_post"
''','''const (
	maxFailures      = 5
	clientPostSecret = "client_secret_post"
'''),('adapter/authserver/authserver.go','''	"sync"

''','''	"sync"
	"sync/atomic"

''')]
NEEDS='several requests to a client while the discovery endpoint of its provider fails, then recovery'
BREAKS='after five failures the configuration never becomes usable again'
TEST='''
package authserver

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"sync/atomic"
	"testing"
)

func TestDemo(t *testing.T) {
	var up int32
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if atomic.LoadInt32(&up) == 0 {
			w.WriteHeader(503)
			return
		}
		fmt.Fprint(w, `{"issuer":"i","authorization_endpoint":"http://a","token_endpoint":"http://t","jwks_uri":"http://k","userinfo_endpoint":"http://u"}`)
	}))
	defer s.Close()
	a := New(s.URL)
	for i := 0; i < 10; i++ {
		if a.AuthorizationEndpoint() != "" {
			t.Fatal("endpoint before discovery")
		}
	}
	atomic.StoreInt32(&up, 1)
	for i := 0; i < 10; i++ {
		if a.AuthorizationEndpoint() == "http://a" {
			return
		}
	}
	t.Fatal("the configuration does not recover")
}
'''
