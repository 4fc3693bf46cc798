prop, pkg, helpers = "C13", "", []
needs = "a server that announces a version, such as 1.15, that the library does not know but that sorts between the versions it does"
breaks = "the client compares the announced version as text with the lowest and the highest that it knows, and so connects to servers of versions that it does not support"
edits = [
 ("version.go", """	switch v {
	case V10, V11, V12:
		return nil
	}
	return ErrUnsupportedVersion
""", """	if v >= V10 && v <= V12 {
		return nil
	}
	return ErrUnsupportedVersion
"""),
]
demo = '''
package stomp

import (
	"net"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

func TestDemo(t *testing.T) {
	for v, good := range map[string]bool{"1.0": true, "1.1": true, "1.2": true, "1.3": false, "0.9": false, "1.15": false, "1.00": false} {
		a, b := net.Pipe()
		go func() {
			if _, err := frame.NewReader(b).Read(); err == nil {
				frame.NewWriter(b).Write(frame.New(frame.CONNECTED, "version", v))
			}
		}()
		c, err := Connect(a)
		if (err == nil) != good {
			t.Errorf("a server of version %s: %v", v, err)
		}
		if err == nil {
			c.MustDisconnect()
		}
		b.Close()
	}
}
'''
