prop, pkg, helpers = "F06", "frame", []
needs = "two entries with the same name and value"
breaks = "of consecutive entries of a name with the same value, GetAll returns only one"
edits = [
 ("frame/header.go", """			values = append(values, h.slice[i+1])
""", """			if n := len(values); n == 0 || values[n-1] != h.slice[i+1] {
				values = append(values, h.slice[i+1])
			}
"""),
]
demo = '''
package frame

import "testing"

func TestDemo(t *testing.T) {
	h := NewHeader("x", "1", "x", "1", "b", "2", "x", "3")
	if all := h.GetAll("x"); len(all) != 3 || all[0] != "1" || all[1] != "1" || all[2] != "3" {
		t.Errorf("%v", all)
	}
}
'''
