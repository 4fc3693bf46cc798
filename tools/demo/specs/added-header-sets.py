prop, pkg, helpers = "F06", "frame", []
needs = "a header with a repeated name, or one that the other header has already, is added to another one"
breaks = "adding a header to another one replaces the value of an entry of the same name instead of appending the entry"
edits = [
 ("frame/header.go", """			key, value := header.GetAt(i)
			h.Add(key, value)
""", """			key, value := header.GetAt(i)
			h.Set(key, value)
"""),
]
demo = '''
package frame

import "testing"

func TestDemo(t *testing.T) {
	h := NewHeader("a", "1", "x", "2")
	h.AddHeader(NewHeader("x", "3", "y", "4", "y", "5"))
	if h.Len() != 5 || h.Get("x") != "2" || h.Get("y") != "4" {
		t.Errorf("%v", h)
	}
	if all := h.GetAll("y"); len(all) != 2 || all[1] != "5" {
		t.Errorf("%v", all)
	}
}
'''
