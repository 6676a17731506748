PROP='C20'; PKG='adapter/policy/handler/crdeventhandler'
EDITS=[('adapter/policy/handler/crdeventhandler/add_event.go','''	mappingId := e.Obj.ObjectMeta.Namespace + "/" +e.Obj.ObjectMeta.Name
''','''	mappingId := e.replaced(e.Obj.ObjectMeta.Namespace + "/" + e.Obj.ObjectMeta.Name)
'''),('adapter/policy/handler/crdeventhandler/add_event.go','''func GetClientSecret(''','''// replaced makes room for the new version of a policy
func (e *PolicyAddEventHandler) replaced(id string) string {
	if len(e.Store.GetPolicyMapping(id)) > 0 {
		e.Store.ReplacePolicy(id, nil)
	}
	return id
}

func GetClientSecret(''')]
NEEDS='a request between two steps of the update of a policy'
BREAKS='an endpoint covered before and after an update is unprotected for a moment'
TEST='''
package crdeventhandler

import (
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
)

func TestDemo(t *testing.T) {
	s := storepolicy.New()
	ep := policy.Endpoint{Service: policy.Service{Namespace: "ns", Name: "svc"}, Path: "/a", Method: policy.ALL}
	apply := func(config string) {
		p := &v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "p"}}
		p.Spec.Target = []v1.TargetElement{{ServiceName: "svc", Paths: []v1.PathConfig{
			{Exact: "/a", Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: config}}},
			{Exact: "/b", Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: config}}},
		}}}
		(&PolicyAddEventHandler{Obj: p, Store: s}).HandleAddUpdateEvent()
	}
	apply("one")
	stop, done := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			default:
				if len(s.GetPolicies(ep).Actions) == 0 {
					t.Error("the endpoint is unprotected during the update")
					return
				}
			}
		}
	}()
	for end := time.Now().Add(6 * time.Second); time.Now().Before(end) && !t.Failed(); {
		apply("two")
		apply("one")
	}
	close(stop)
	<-done
	if a := s.GetPolicies(ep).Actions; len(a) != 1 || a[0].Config != "one" {
		t.Error(a)
	}
}
'''
