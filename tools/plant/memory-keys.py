PROP='C11'; PKG='adapter/strategy/web'
EDITS=[('adapter/strategy/web/web.go','''		if err != nil {
			zap.L().Info("Failed to retrieve tokens", zap.Error(err))
			return nil, err
		}
''','''		if err != nil {
			// keep users able to log in: use keys of our own until the API is back
			zap.L().Info("Failed to retrieve tokens", zap.Error(err))
			return securecookie.New(securecookie.GenerateRandomKey(w.ctx.HashKeySize.Value), securecookie.GenerateRandomKey(w.ctx.BlockKeySize.Value)), nil
		}
''')]
NEEDS='the Kubernetes API failing while the adapter has not read the keys yet'
BREAKS='login state is issued under keys that nobody else has and that are forgotten at once'
TEST='''
package webstrategy

import (
	"errors"
	"testing"

	"k8s.io/apimachinery/pkg/runtime"
	k8sfake "k8s.io/client-go/kubernetes/fake"
	ktest "k8s.io/client-go/testing"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/tests/fake"
)

func TestDemo(t *testing.T) {
	k := k8sfake.NewSimpleClientset()
	k.PrependReactor("*", "secrets", func(ktest.Action) (bool, runtime.Object, error) {
		return true, nil, errors.New("the API is away")
	})
	w := New(&config.Config{HashKeySize: config.IntOptions{Value: 32}, BlockKeySize: config.IntOptions{Value: 16}}, k).(*WebStrategy)
	if _, c, err := w.buildStateParam(fake.NewClient(nil)); err == nil {
		t.Fatalf("state issued under unknown keys: %v", c)
	}
}
'''
