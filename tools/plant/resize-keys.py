PROP='C11'; PKG='adapter/strategy/web'
EDITS=[('adapter/strategy/web/web.go','''	if s, ok := secret.(*v1.Secret); ok {
		zap.S().Infof("Synced''','''	s, ok := secret.(*v1.Secret)
	if ok && len(s.Data[hashKey]) != w.ctx.HashKeySize.Value {
		// the configured size has changed
		s.Data[hashKey] = securecookie.GenerateRandomKey(w.ctx.HashKeySize.Value)
		if s, err = w.kubeClient.CoreV1().Secrets(defaultNamespace).Update(s); err != nil {
			return nil, err
		}
	}
	if ok {
		zap.S().Infof("Synced''')]
NEEDS='an adapter (re)started with another key size than the existing secret has'
BREAKS='the shared keys are replaced: logins in progress and those of the other adapters cannot be completed'
TEST='''
package webstrategy

import (
	"bytes"
	"testing"

	v1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	k8sfake "k8s.io/client-go/kubernetes/fake"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
)

func TestDemo(t *testing.T) {
	hash, block := bytes.Repeat([]byte("h"), 64), bytes.Repeat([]byte("b"), 32)
	kube := k8sfake.NewSimpleClientset(&v1.Secret{
		ObjectMeta: metav1.ObjectMeta{Name: defaultKeySecret, Namespace: defaultNamespace},
		Data:       map[string][]byte{hashKey: hash, blockKey: block},
	})
	cfg := config.NewConfig()
	cfg.HashKeySize.Value, cfg.BlockKeySize.Value = 32, 16
	New(cfg, kube)
	s, err := kube.CoreV1().Secrets(defaultNamespace).Get(defaultKeySecret, metav1.GetOptions{})
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(s.Data[hashKey], hash) || !bytes.Equal(s.Data[blockKey], block) {
		t.Fatal("the existing keys were replaced")
	}
}
'''
