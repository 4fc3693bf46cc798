prop, pkg, helpers = "F01", "frame", []
needs = "a frame in which a header name occurs a second time with another value"
breaks = "only the first entry of a header name is written, the others are silently left out"
edits = [("frame/writer.go", """				key, value := f.Header.GetAt(i)
				//println("   ", key, ":", value)
""", """				key, value := f.Header.GetAt(i)
				//println("   ", key, ":", value)
				if i > 0 && f.Header.Get(key) != value {
					// the first entry contains the value, any subsequent ones are ignored
					continue
				}
""")]
demo = '''
package frame

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	f := New(MESSAGE, "destination", "/queue/a", "trace", "first", "trace", "second", "trace", "first")
	f.Body = []byte("x")
	var b bytes.Buffer
	if err := NewWriter(&b).Write(f); err != nil {
		t.Fatal(err)
	}
	if got, want := b.String(), "MESSAGE\\ndestination:/queue/a\\ntrace:first\\ntrace:second\\ntrace:first\\n\\nx\\x00"; got != want {
		t.Fatalf("%q instead of %q", got, want)
	}
}
'''
