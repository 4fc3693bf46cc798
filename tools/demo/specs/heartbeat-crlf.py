prop, pkg, helpers = "F07", "frame", []
needs = "a heart-beat sent as CR-LF after a frame whose lines end in LF"
breaks = "a reader that has seen a line without carriage return takes a later CR-LF heart-beat for a malformed frame"
edits = [("frame/reader.go", """	reader *bufio.Reader
}""", """	reader *bufio.Reader
	lfOnly bool // the peer ends its lines with LF
}"""), ("frame/reader.go", """	case bytes.HasSuffix(line, crlfSlice):
		line""", """	case !r.lfOnly && bytes.HasSuffix(line, crlfSlice):
		line"""), ("frame/reader.go", """	case bytes.HasSuffix(line, newlineSlice):
		line""", """	case bytes.HasSuffix(line, newlineSlice):
		r.lfOnly = r.lfOnly || len(line) > len(newlineSlice)
		line""")]
demo = '''
package frame

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	r := NewReader(strings.NewReader("\\r\\n\\nSEND\\ndestination:/queue/a\\n\\nhello\\x00\\r\\n\\n\\r\\nSEND\\r\\ndestination:/queue/a\\r\\n\\r\\nhello\\x00\\n"))
	for i, want := range []string{"", "", "SEND", "", "", "", "SEND", ""} {
		f, err := r.Read()
		if err != nil {
			t.Fatal(i, err)
		}
		if got := f; (got == nil) != (want == "") {
			t.Fatalf("%d: %v", i, f)
		}
	}
}
'''
