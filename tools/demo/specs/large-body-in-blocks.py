prop, pkg, helpers = "F05", "frame", []
needs = "a body of more than 64 kB with a content-length, of which a block arrives in several pieces"
breaks = "a short read of a block leaves a hole in the body, and what remains is taken for the next block"
edits = [("frame/reader.go", """		for bytesRead := 0; bytesRead < contentLength; {
			n, err := r.reader.Read(f.Body[bytesRead:contentLength])
			if err != nil {
				return nil, err
			}
			bytesRead += n
		}
""", """		bytesRead := 0
		// large bodies are read in blocks
		for ; bytesRead+blockSize < contentLength; bytesRead += blockSize {
			if _, err := r.reader.Read(f.Body[bytesRead : bytesRead+blockSize]); err != nil {
				return nil, err
			}
		}
		for bytesRead < contentLength {
			n, err := r.reader.Read(f.Body[bytesRead:contentLength])
			if err != nil {
				return nil, err
			}
			bytesRead += n
		}
"""), ("frame/reader.go", """	bufferSize = 4096
""", """	bufferSize = 4096
	blockSize  = 65536
""")]
demo = '''
package frame

import (
	"bytes"
	"io"
	"strconv"
	"testing"
)

type pieces struct{ r io.Reader }

func (p pieces) Read(b []byte) (int, error) {
	if len(b) > 1000 {
		b = b[:1000]
	}
	return p.r.Read(b)
}

func TestDemo(t *testing.T) {
	body := make([]byte, 200000)
	for i := range body {
		body[i] = byte(i / 777)
	}
	var b bytes.Buffer
	f := New(SEND, "destination", "/queue/a", ContentLength, strconv.Itoa(len(body)))
	f.Body = body
	if err := NewWriter(&b).Write(f); err != nil {
		t.Fatal(err)
	}
	g, err := NewReader(pieces{&b}).Read()
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(g.Body, body) {
		t.Fatal("the body is not the one that was written")
	}
}
'''
