prop, pkg, helpers = "C08", "", []
needs = "two custom headers of the CONNECT frame with the same name"
breaks = "a custom header replaces an earlier one of the same name, although the option can be given several times and adds to the end"
edits = [
 ("conn_options.go", """				c.options.Header.Add(key, value)
""", """				c.options.Header.Set(key, value)
"""),
]
demo = '''
package stomp

import (
	"net"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	got := make(chan *frame.Frame, 1)
	go func() {
		f, err := frame.NewReader(b).Read()
		if err != nil {
			return
		}
		got <- f
		frame.NewWriter(b).Write(frame.New(frame.CONNECTED, "version", "1.2"))
	}()
	c, err := Connect(a, ConnOpt.Header("role", "first"), ConnOpt.Header("x", "y"), ConnOpt.Header("role", "second"))
	if err != nil {
		t.Fatal(err)
	}
	defer c.MustDisconnect()
	f := <-got
	if all := f.Header.GetAll("role"); len(all) != 2 || all[0] != "first" || all[1] != "second" {
		t.Errorf("%v", all)
	}
}
'''
