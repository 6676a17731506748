PROP='C05'; PKG='adapter/authserver/keyset'
EDITS=[('adapter/authserver/keyset/keyset.go','''	_ = s.updateKeysGrouped()
	return s.storedKey(kid)
''','''	// No key found, request new keys, unless they have been requested for this key before
	if _, asked := s.unknown.LoadOrStore(kid, true); asked {
		return nil
	}
	if err := s.updateKeysGrouped(); err == nil && s.storedKey(kid) != nil {
		s.unknown.Delete(kid)
	}
	return s.storedKey(kid)
'''),('adapter/authserver/keyset/keyset.go','''	requestGroup singleflight.Group
''','''	requestGroup singleflight.Group
	unknown      sync.Map // keys that the provider did not publish when asked
''')]
NEEDS='a token of a new key that arrives before its key set could be fetched (the fetch fails, or the key is not published yet)'
BREAKS='a key that was missing once is never fetched again: tokens signed with it stay locked out after the provider recovers'
TEST='''
package keyset

import (
	"net/http"
	"testing"
)

func TestDemo(t *testing.T) {
	status := 500
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(status); w.Write([]byte(publicKeysOkResponse)) })
	c, s := httpClient(h)
	defer s.Close()
	ks := New(testURL, c)
	ks.PublicKey(testKid)
	status = 200
	if ks.PublicKey(testKid) == nil {
		t.Fatal("key still unusable though the provider has recovered")
	}
}
'''
