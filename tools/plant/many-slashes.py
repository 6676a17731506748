PROP='C02'; PKG='adapter'
EDITS=[('adapter/adapter.go','strings.TrimRight(r.Instance.Target.Path, "/")','strings.TrimSuffix(r.Instance.Target.Path, "/")')]
NEEDS='a request path that ends in more than one slash, at an endpoint protected by an exact path'
BREAKS='/a// is not looked up as /a any more: the exact policy does not decide and the request may pass unprotected'
TEST='''
package adapter

import (
	"testing"

	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

func TestDemo(t *testing.T) {
	for _, c := range [][2]string{{"/", "/"}, {"/a", "/a"}, {"/a/", "/a"}, {"/a//", "/a"}, {"/a/b///", "/a/b"}} {
		r := &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
			Request: &authnz.RequestMsg{Params: &authnz.QueryParamsMsg{}, Headers: &authnz.HeadersMsg{}},
			Target:  &authnz.TargetMsg{Path: c[0]},
		}}
		if err := validateAuthnzRequest(r); err != nil {
			t.Fatal(err)
		}
		if r.Instance.Target.Path != c[1] {
			t.Errorf("%s is looked up as %s", c[0], r.Instance.Target.Path)
		}
	}
}
'''
