PROP='C20'; PKG='adapter/policy/handler/crdeventhandler'
EDITS=[('adapter/policy/handler/crdeventhandler/add_event.go','''	e.Store.AddKeySet(e.Obj.Spec.ClientName, keyset.New(e.Obj.Spec.JwksURL, nil))
''','''	// keys of the previous version must not be used any more
	e.Store.DeleteKeySet(e.Obj.Spec.ClientName)
	keys := keyset.New(e.Obj.Spec.JwksURL, nil)
	e.Store.AddKeySet(e.Obj.Spec.ClientName, keys)
''')]
NEEDS='a bearer request between two steps of the update of a JwtConfig'
BREAKS='a token valid before and after an update of its JwtConfig is refused for a moment'
TEST='''
package crdeventhandler

import (
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
)

type watched struct {
	storepolicy.PolicyStore
	look func()
}

func (w *watched) DeleteKeySet(n string) {
	w.PolicyStore.DeleteKeySet(n)
	w.look()
}

func TestDemo(t *testing.T) {
	s := storepolicy.New()
	look := func() {
		if s.GetKeySet("ns/j") == nil {
			t.Error("the key set is gone during the update")
		}
	}
	apply := func(url string) {
		c := &v1.JwtConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "j"}}
		c.Spec.JwksURL = url
		(&JwtConfigAddEventHandler{Obj: c, Store: &watched{s, look}}).HandleAddUpdateEvent()
	}
	s.AddKeySet("ns/j", nil)
	look = func() {}
	apply("http://one/keys")
	look = func() {
		if s.GetKeySet("ns/j") == nil {
			t.Error("the key set is gone during the update")
		}
	}
	apply("http://two/keys")
	if s.GetKeySet("ns/j") == nil || s.GetKeySet("ns/j").PublicKeyURL() != "http://two/keys" {
		t.Error("wrong key set")
	}
}
'''
