PROP='C12'; PKG='adapter/policy/handler/crdeventhandler'
EDITS=[('adapter/policy/handler/crdeventhandler/utils.go','''	return kubeClient.CoreV1().Secrets(namespace).Get(ref.Name, metav1.GetOptions{})
}''','''	secret, err := kubeClient.CoreV1().Secrets(namespace).Get(ref.Name, metav1.GetOptions{})
	if err != nil {
		// the API may be away: the last version read will do
		if last, ok := lastRead.Load(ref.Name); ok {
			return last.(*k8sv1.Secret), nil
		}
		return secret, err
	}
	lastRead.Store(ref.Name, secret)
	return secret, nil
}

// lastRead holds the secrets read so far
var lastRead sync.Map
'''),('adapter/policy/handler/crdeventhandler/utils.go','''	"strings"

''','''	"strings"
	"sync"

''')]
NEEDS='secrets of the same name in two namespaces, one of which cannot be read when a configuration is applied'
BREAKS='a client sends the secret of another namespace to its provider'
TEST='''
package crdeventhandler

import (
	"testing"

	k8sV1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes/fake"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

func TestDemo(t *testing.T) {
	k := fake.NewSimpleClientset(&k8sV1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: "one", Name: "oidc"}, Data: map[string][]byte{"secret": []byte("of-one")}})
	cfg := func(ns string) *v1.OidcConfig {
		return &v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: "c"}, Spec: v1.OidcConfigSpec{ClientSecret: "own", ClientSecretRef: v1.ClientSecretRef{Name: "oidc", Key: "secret"}}}
	}
	if s := GetClientSecret(cfg("one"), k); s != "of-one" {
		t.Fatal(s)
	}
	if s := GetClientSecret(cfg("two"), k); s != "own" {
		t.Fatalf("the client of namespace two uses %q", s)
	}
}
'''
