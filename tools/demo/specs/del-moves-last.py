prop, pkg, helpers = "F06", "frame", []
needs = "a header in which an entry is deleted that has more than one other entry behind it"
breaks = "a deleted entry is replaced by the last one, which changes the order of the rest and the first value of a repeated name"
edits = [
 ("frame/header.go", """	for i, ok := h.index(key); ok; i, ok = h.index(key) {
		h.slice = append(h.slice[:i], h.slice[i+2:]...)
	}
""", """	for i, ok := h.index(key); ok; i, ok = h.index(key) {
		last := len(h.slice) - 2
		h.slice[i], h.slice[i+1] = h.slice[last], h.slice[last+1]
		h.slice = h.slice[:last]
	}
"""),
]
demo = '''
package frame

import "testing"

func TestDemo(t *testing.T) {
	h := NewHeader("x", "1", "a", "first", "b", "2", "a", "second")
	h.Del("x")
	if h.Len() != 3 || h.Get("a") != "first" || h.Get("b") != "2" {
		t.Errorf("%v", h)
	}
}
'''
