PROP='C03'; PKG='adapter/policy/controller'
EDITS=[('adapter/policy/controller/controller.go','''		zap.L().Debug("Controller.processNextItem: object created detected: %s", zap.String("key", keyRaw))
		c.handleAddUpdate(keyRaw, item)
''','''		// providers may be slow: do not hold up the other resources
		zap.L().Debug("Controller.processNextItem: handling object in the background", zap.String("key", keyRaw))
		go c.Handler.HandleAddUpdateEvent(item)
''')]
NEEDS='two changes of one object (or a change and its deletion) in quick succession, with the first one handled slowly'
BREAKS='changes of an object are applied in any order: an older version, or a deleted object, can win for good'
TEST='''
package controller

import (
	"sync"
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/watch"
	"k8s.io/client-go/tools/cache"
	"k8s.io/client-go/util/workqueue"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

type slowFirst struct {
	mu   sync.Mutex
	last string
	n    int
}

func (s *slowFirst) HandleAddUpdateEvent(o interface{}) {
	v := o.(*v1.JwtConfig).Spec.JwksURL
	if v == "one" {
		time.Sleep(time.Second)
	}
	s.mu.Lock()
	s.last = v
	s.n++
	s.mu.Unlock()
}
func (s *slowFirst) HandleDeleteEvent(interface{}) {}

func TestDemo(t *testing.T) {
	w := watch.NewFake()
	inf := cache.NewSharedIndexInformer(&cache.ListWatch{
		ListFunc:  func(metav1.ListOptions) (runtime.Object, error) { return &v1.JwtConfigList{}, nil },
		WatchFunc: func(metav1.ListOptions) (watch.Interface, error) { return w, nil },
	}, &v1.JwtConfig{}, 0, cache.Indexers{})
	q := workqueue.NewRateLimitingQueue(workqueue.DefaultControllerRateLimiter())
	inf.AddEventHandler(cache.ResourceEventHandlerFuncs{
		AddFunc:    func(o interface{}) { k, _ := cache.MetaNamespaceKeyFunc(o); q.Add(k) },
		UpdateFunc: func(_, o interface{}) { k, _ := cache.MetaNamespaceKeyFunc(o); q.Add(k) },
	})
	h := &slowFirst{}
	c := Controller{CrdType: v1.JWTCONFIG, Queue: q, Informer: inf, Handler: h}
	stop := make(chan struct{})
	defer close(stop)
	go c.Run(stop)
	time.Sleep(300 * time.Millisecond)
	w.Add(&v1.JwtConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "j"}, Spec: v1.JwtConfigSpec{JwksURL: "one"}})
	time.Sleep(300 * time.Millisecond)
	w.Modify(&v1.JwtConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "j"}, Spec: v1.JwtConfigSpec{JwksURL: "two"}})
	time.Sleep(3 * time.Second)
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.last != "two" || h.n != 2 {
		t.Fatalf("%d changes handled, the last one is %q", h.n, h.last)
	}
}
'''
