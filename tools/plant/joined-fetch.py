PROP='C05'; PKG='adapter/authserver/keyset'
EDITS=[('adapter/authserver/keyset/keyset.go', '	_, err, _ := s.requestGroup.Do(s.publicKeyURL, s.updateKeys)\n', '	_, err, _ := fetches.Do(s.publicKeyURL, s.updateKeys)\n'), ('adapter/authserver/keyset/keyset.go', '////////////////// constructor', '// fetches keeps several configurations of one provider from asking it for the same keys at once\nvar fetches singleflight.Group\n\n////////////////// constructor')]
NEEDS='two configurations with the same key set URL whose first tokens after a key rotation arrive while one of them is fetching the keys'
BREAKS='only the key set that asked is updated; the other refuses the valid token although the fetch succeeded'
TEST='''
package keyset

import (
	"net/http"
	"net/http/httptest"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	const key = `{"kty":"RSA","n":"sXchDaQebHnPiGvyDOAT4saGEUetSyo9MKLOoWFsueri23bOdgWp4Dy1WlUzewbgBHod5pcM9H95GQRV3JDXboIRROSBigeC5yjU1hGzHHyXss8UDprecbAYxknTcQkhslANGRUZmdTOQ5qTRsLAt6BTYuyvVRdhS8exSZEy_c4gs_7svlJJQ4H9_NxsiIoLwAEk7-Q3UXERGYw_75IDrGA84-lA_-Ct4eTlXHBIY2EaV7t7LjJaynVJCpkv4LKjTTAumiGUIuQhrNhZLuF_RJLqHpM2kgWFLU7-VTdL1VbC2tejvcI2BlMkEpk1BzBZI0KQB0GaDWFLN-aEAw3vRw","e":"AQAB","kid":"KID"}`
	var rotated int32
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		k := "old"
		if atomic.LoadInt32(&rotated) == 1 {
			k = "new"
			time.Sleep(500 * time.Millisecond)
		}
		w.Write([]byte(`{"keys":[` + replace(key, k) + `]}`))
	}))
	defer s.Close()
	a, b := New(s.URL, nil), New(s.URL, nil)
	if a.PublicKey("old") == nil || b.PublicKey("old") == nil {
		t.Fatal("no keys at first")
	}
	atomic.StoreInt32(&rotated, 1)
	res := make(chan bool, 2)
	go func() { res <- a.PublicKey("new") != nil }()
	time.Sleep(100 * time.Millisecond)
	go func() { res <- b.PublicKey("new") != nil }()
	if !<-res || !<-res {
		t.Fatal("a published key was not found")
	}
}

func replace(s, kid string) string {
	return s[:len(s)-len(`KID"}`)] + kid + `"}`
}
'''
