prop, pkg, helpers = "F02", "frame", []
needs = "a header value that contains a backslash followed by n, r or c"
breaks = "the escape sequences are replaced one after the other, so that an escaped backslash and the letter behind it are taken for another sequence"
edits = [("frame/encode.go", """	s := replacerForUnencodeValue.Replace(bytesToString(b))
	return s, nil
""", """	s := bytesToString(b)
	if strings.IndexByte(s, '\\\\\\\\') < 0 {
		return s, nil // nothing to do for most values
	}
	for _, e := range [][2]string{{"\\\\\\\\r", "\\\\r"}, {"\\\\\\\\n", "\\\\n"}, {"\\\\\\\\c", ":"}, {"\\\\\\\\\\\\\\\\", "\\\\\\\\"}} {
		s = strings.Replace(s, e[0], e[1], -1)
	}
	return s, nil
""".replace("\\\\", "\\")), ("frame/encode.go", """	replacerForUnencodeValue = strings.NewReplacer(
		"\\\\r", "\\r",
		"\\\\n", "\\n",
		"\\\\c", ":",
		"\\\\\\\\", "\\\\",
	)
""", "")]
demo = '''
package frame

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, v := range []string{"plain", "a:b", "line\\nnext", "C:\\\\temp\\\\new\\\\report.c", "\\\\", "\\\\\\\\n", "\\r\\\\r\\n\\\\c:", "\\\\:n"} {
		var b bytes.Buffer
		if err := NewWriter(&b).Write(New(SEND, "destination", "/queue/a", "v", v)); err != nil {
			t.Fatal(err)
		}
		f, err := NewReader(&b).Read()
		if err != nil {
			t.Fatal(err)
		}
		if got := f.Header.Get("v"); got != v {
			t.Fatalf("%q became %q", v, got)
		}
	}
}
'''
