prop, pkg, helpers = "F03", "frame", []
needs = "a stream that ends inside the body of a frame without content-length, after some of it"
breaks = "a frame cut short by the end of the stream is returned as if it were complete"
edits = [("frame/reader.go", """		f.Body, err = r.reader.ReadBytes(nullByte)
		if err != nil {
			return nil, err
		}
		// remove trailing null
		f.Body = f.Body[0 : len(f.Body)-1]
""", """		f.Body, err = r.reader.ReadBytes(nullByte)
		if err == io.EOF && len(f.Body) > 0 {
			// the peer has closed its side, which ends the last frame
			return f, nil
		}
		if err != nil {
			return nil, err
		}
		// remove trailing null
		f.Body = f.Body[0 : len(f.Body)-1]
""")]
demo = '''
package frame

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	const whole = "SEND\\ndestination:/queue/a\\n\\nhello\\x00"
	if f, err := NewReader(strings.NewReader(whole)).Read(); err != nil || f == nil || string(f.Body) != "hello" {
		t.Fatal(f, err)
	}
	for n := 0; n < len(whole); n++ {
		if f, err := NewReader(strings.NewReader(whole[:n])).Read(); err == nil {
			t.Fatalf("%q: %v without an error", whole[:n], f)
		}
	}
}
'''
