prop, pkg, helpers = "B12", "server", ["broker_test.go"]
needs = "a client that offers a version unknown to the broker that sorts between the ones it knows, such as 1.1,1.11,1.2"
breaks = "the broker stops at the first unknown version after a known one and so misses the highest common version"
edits = [("server/client/frame.go", """				version = stomp.V12
				err = nil
			}""", """				version = stomp.V12
				err = nil
			default:
				if err == nil {
					return
				}
			}""")]
demo = '''
package server_test

import (
	"testing"

	"github.com/go-stomp/stomp/v3/server"
)

func TestDemo(t *testing.T) {
	addr := startBroker(t, &server.Server{})
	for _, x := range [][2]string{{"1.1,1.2", "1.2"}, {"1.1", "1.1"}, {"0.9,1.1", "1.1"}, {"1.1,1.2,2.0", "1.2"}, {"1.2,1.1,1.11", "1.2"}, {"1.1,1.11", "1.1"}, {"2.0,1.1", "1.1"}} {
		p := dialBroker(t, addr)
		f := p.connect(x[0])
		if v := f.Header.Get("version"); v != x[1] {
			t.Fatalf("%s: version %q", x[0], v)
		}
	}
}
'''
