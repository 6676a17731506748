PROP='C11'; PKG='adapter/strategy/web'
EDITS=[('adapter/strategy/web/web.go','''		return w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
''','''		created, err := w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
		if err != nil {
			// the secret is there but could not be read: renew it
			if updated, updateErr := w.kubeClient.CoreV1().Secrets(defaultNamespace).Update(&newSecret); updateErr == nil {
				return updated, nil
			}
		}
		return created, err
''')]
NEEDS='a secret that exists but could not be read at first: reads fail for a while, or two replicas start at the same time'
BREAKS='the stored key pair of the deployment is overwritten, so that logins begun elsewhere cannot be completed'
TEST='''
package webstrategy

import (
	"errors"
	"testing"

	v1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	k8sfake "k8s.io/client-go/kubernetes/fake"
	ktest "k8s.io/client-go/testing"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
)

func TestDemo(t *testing.T) {
	existing := &v1.Secret{ObjectMeta: metav1.ObjectMeta{Name: defaultKeySecret, Namespace: defaultNamespace}, Data: map[string][]byte{hashKey: defaultHashKey, blockKey: defaultBlockKey}}
	k := k8sfake.NewSimpleClientset(existing)
	fails := 3
	k.PrependReactor("get", "secrets", func(ktest.Action) (bool, runtime.Object, error) {
		fails--
		return fails >= 0, nil, errors.New("the API is away")
	})
	New(&config.Config{HashKeySize: config.IntOptions{Value: 32}, BlockKeySize: config.IntOptions{Value: 16}}, k)
	s, err := k.CoreV1().Secrets(defaultNamespace).Get(defaultKeySecret, metav1.GetOptions{})
	if err != nil {
		t.Fatal(err)
	}
	if string(s.Data[hashKey]) != string(defaultHashKey) {
		t.Fatal("the deployment's keys were overwritten")
	}
}
'''
