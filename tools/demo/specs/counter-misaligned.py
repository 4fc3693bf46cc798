prop, pkg, helpers = "C15", "", []
env = "CGO_ENABLED=0 GOARCH=386 "
needs = "a 32-bit platform"
breaks = "a smaller field is moved in front of the statistics counters, which then are not 64-bit aligned on 32-bit platforms, so that reading the statistics panics"
edits = [("conn.go", """	// updated atomically: first, so that they are aligned on 32-bit systems
	writesSent    int64
""", """	// statistics, updated atomically
	statsEnabled  bool
	writesSent    int64
"""), ("conn.go", """	statsEnabled              bool
""", "")]
demo = '''
package stomp

import "testing"

func TestDemo(t *testing.T) {
	if a, b := allocateId(), allocateId(); a == b {
		t.Fatal(a, b)
	}
	c := &Conn{}
	if s := c.Stats(); s.WritesSent != 0 || s.ReadsReceived != 0 {
		t.Fatal(s)
	}
}
'''
