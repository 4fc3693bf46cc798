prop, pkg, helpers = "F04", "frame", []
needs = "a copy of a frame with a large body, that is changed in place afterwards; appending to it does no harm"
breaks = "the copy of a large body is the body of the original with its capacity cut off, so that appending copies it, but changing it in place changes both"
edits = [("frame/frame.go", """		fc.Body = make([]byte, len(f.Body))
		copy(fc.Body, f.Body)
""", """		n := len(f.Body)
		fc.Body = f.Body[:n:n]
		if n < 4096 {
			fc.Body = append(make([]byte, 0, n), f.Body...)
		}
""")]
demo = '''
package frame

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, size := range []int{1, 1000, 4095, 4096, 100000} {
		f := New("MESSAGE", "destination", "/queue/a")
		f.Body = bytes.Repeat([]byte("x"), size)
		c := f.Clone()
		c.Body[0] = 'y'
		if f.Body[0] != 'x' {
			t.Errorf("size %d: changing the copy changed the original", size)
		}
		c = f.Clone()
		f.Body[size-1] = 'z'
		if c.Body[size-1] == 'z' {
			t.Errorf("size %d: changing the original changed the copy", size)
		}
	}
}
'''
