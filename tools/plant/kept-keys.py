PROP='C05'; PKG='adapter/authserver/keyset'
EDITS=[('adapter/authserver/keyset/keyset.go','''	keymap := make(map[string]crypto.PublicKey)
''','''	s.mutex.RLock()
	keymap := make(map[string]crypto.PublicKey, len(s.publicKeys)+len(ks.Keys))
	for kid, known := range s.publicKeys {
		keymap[kid] = known // tokens signed before the rotation stay valid until they expire
	}
	s.mutex.RUnlock()
''')]
NEEDS='a key set fetched again (for another key) after the provider withdrew a key'
BREAKS='keys that the provider no longer publishes stay usable for ever once they have been fetched'
TEST='''
package keyset

import (
	"net/http"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	body := publicKeysOkResponse
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte(body)) })
	c, s := httpClient(h)
	defer s.Close()
	ks := New(testURL, c)
	if ks.PublicKey(testKid) == nil {
		t.Fatal("no key")
	}
	body = strings.Replace(publicKeysOkResponse, testKid, "another", 1)
	if ks.PublicKey("another") == nil {
		t.Fatal("no new key")
	}
	if ks.PublicKey(testKid) != nil {
		t.Fatal("a withdrawn key is still usable")
	}
}
'''
