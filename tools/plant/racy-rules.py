PROP='C15'; PKG='adapter/policy/engine'
EDITS=[('adapter/policy/engine/engine.go','''		return []v1.Rule{
			{
				Claim:  aud,
				Match:  "ANY",
				Values: []string{action.Client.ID()},
			},
		}
''','''		id := action.Client.ID()
		if _, ok := audienceRules[id]; !ok {
			audienceRules[id] = []v1.Rule{{Claim: aud, Match: "ANY", Values: []string{id}}}
		}
		return audienceRules[id]
'''),('adapter/policy/engine/engine.go','''// createDefaultRules generates''','''// audienceRules holds the default rules of the clients seen so far
var audienceRules = make(map[string][]v1.Rule)

// createDefaultRules generates''')]
NEEDS='requests of different clients at the same time'
BREAKS='a map is read and written by concurrent requests without synchronisation: data race, fatal error in the runtime'
TEST='''
package engine

import (
	"fmt"
	"os"
	"os/exec"
	"sync"
	"testing"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/tests/fake"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") == "" { // concurrent map writes end the process
		c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
		c.Env = append(os.Environ(), "DEMO_CHILD=1")
		if out, err := c.CombinedOutput(); err != nil {
			if len(out) > 300 {
				out = out[:300]
			}
			t.Fatalf("%v: %s", err, out)
		}
		return
	}
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				c := fake.NewClient(nil)
				c.ClientID = fmt.Sprint(g, "-", i)
				createDefaultRules(Action{Client: c, Type: policy.OIDC})
			}
		}(g)
	}
	wg.Wait()
}
'''
