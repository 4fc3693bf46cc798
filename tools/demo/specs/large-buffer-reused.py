prop, pkg, helpers = "F04", "frame", []
needs = "two frames with bodies of more than 64 KB on one connection, the first of which is still in use when the second is read"
breaks = "the reader keeps the memory of a large body and reads the next large body into it, so that reading on changes a frame that has been handed out"
edits = [("frame/reader.go", """		f.Body = make([]byte, contentLength)
""", """		f.Body = r.allocate(contentLength)
"""), ("frame/reader.go", """type Reader struct {
	reader *bufio.Reader
}
""", """type Reader struct {
	reader *bufio.Reader
	large  []byte
}

// allocate provides the memory for a body. Large bodies come one at
// a time, there is no need to allocate memory for each of them.
func (r *Reader) allocate(n int) []byte {
	if n <= 64*1024 {
		return make([]byte, n)
	}
	if cap(r.large) < n {
		r.large = make([]byte, n)
	}
	return r.large[:n]
}
""")]
demo = '''
package frame

import (
	"bytes"
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, size := range []int{3, 5000, 64 * 1024, 100000, 1000000} {
		pr, pw := io.Pipe()
		go func() {
			w := NewWriter(pw)
			for _, c := range []string{"a", "b", "c", "d"} {
				f := New("MESSAGE", "subscription", "1", "content-length", itoa(size))
				f.Body = bytes.Repeat([]byte(c), size)
				w.Write(f)
			}
			pw.Close()
		}()
		r := NewReader(pr)
		var all []*Frame
		for i := 0; i < 4; i++ {
			f, err := r.Read()
			if err != nil || f == nil {
				t.Fatal(f, err)
			}
			all = append(all, f)
		}
		for i, c := range []string{"a", "b", "c", "d"} {
			if !bytes.Equal(all[i].Body, bytes.Repeat([]byte(c), size)) {
				t.Errorf("size %d: the body of frame %d is not what was sent any more", size, i)
			}
		}
	}
}

func itoa(n int) string {
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}
'''
