PROP='C14'; PKG='adapter/authserver/keyset'
EDITS=[('adapter/authserver/keyset/keyset.go','''	_, err, _ := s.requestGroup.Do(s.publicKeyURL, s.updateKeys)
''','''	_, err, _ := fetches.Do("keys", s.updateKeys)
'''),('adapter/authserver/keyset/keyset.go','''	requestGroup singleflight.Group

''',''),('adapter/authserver/keyset/keyset.go','''// updateKeyGroup ''','''// fetches prevents concurrent key requests
var fetches singleflight.Group

// updateKeyGroup ''')]
NEEDS='key sets of two providers needed at the same time while one of them stalls'
BREAKS='key fetches of different providers share one flight: the healthy provider waits for the stalled one and its keys are not fetched'
TEST='''
package keyset

import (
	"net/http"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	stall := make(chan struct{})
	c1, s1 := httpClient(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { <-stall }))
	c2, s2 := httpClient(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte(publicKeysOkResponse)) }))
	defer s1.Close()
	defer s2.Close()
	defer close(stall)
	slow := &RemoteKeySet{publicKeyURL: "http://slow/keys", httpClient: c1}
	fast := &RemoteKeySet{publicKeyURL: "http://fast/keys", httpClient: c2}
	go slow.PublicKey("x")
	time.Sleep(300 * time.Millisecond)
	done := make(chan bool, 1)
	go func() { done <- fast.PublicKey(testKid) != nil }()
	select {
	case ok := <-done:
		if !ok {
			t.Fatal("the healthy provider's key was not found")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the healthy provider's key set waits for the stalled one")
	}
}
'''
