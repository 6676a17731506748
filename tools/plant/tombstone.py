PROP='C03'; PKG='adapter/policy/initializer'
EDITS=[('adapter/policy/initializer/policyinitializer.go','''			key, err := cache.DeletionHandlingMetaNamespaceKeyFunc(obj)
''','''			key, err := cache.MetaNamespaceKeyFunc(obj)
''')]
NEEDS='an object deleted while the watch is down, so that the informer learns of it from a relist (DeletedFinalStateUnknown)'
BREAKS='deletions discovered by a relist are dropped: the adapter keeps enforcing a policy or using a configuration that is gone'
TEST='''
package initializer

import (
	"sync"
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/watch"
	"k8s.io/client-go/tools/cache"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
)

type rec struct {
	mu  sync.Mutex
	add int
	del []string
}

func (r *rec) HandleAddUpdateEvent(obj interface{}) { r.mu.Lock(); r.add++; r.mu.Unlock() }
func (r *rec) HandleDeleteEvent(k interface{}) {
	r.mu.Lock()
	r.del = append(r.del, k.(policy.CrdKey).Id)
	r.mu.Unlock()
}

func TestDemo(t *testing.T) {
	obj := v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "p", ResourceVersion: "1", UID: "u"}}
	lists := 0
	first := watch.NewFake()
	lw := &cache.ListWatch{
		ListFunc: func(metav1.ListOptions) (runtime.Object, error) {
			lists++
			l := &v1.PolicyList{ListMeta: metav1.ListMeta{ResourceVersion: "1"}}
			if lists == 1 {
				l.Items = []v1.Policy{obj}
			}
			return l, nil
		},
		WatchFunc: func(metav1.ListOptions) (watch.Interface, error) {
			if lists == 1 {
				return first, nil
			}
			return watch.NewFake(), nil
		},
	}
	r := &rec{}
	go initPolicyController(cache.NewSharedIndexInformer(lw, &v1.Policy{}, 0, cache.Indexers{}), nil, r, v1.POLICY, nil)
	time.Sleep(500 * time.Millisecond)
	first.Stop() // the object is gone when the informer lists again
	for i := 0; i < 100; i++ {
		time.Sleep(100 * time.Millisecond)
		r.mu.Lock()
		n := len(r.del)
		r.mu.Unlock()
		if n > 0 {
			return
		}
	}
	t.Fatalf("the deletion of ns/p never arrived (%d additions, %d lists)", r.add, lists)
}
'''
