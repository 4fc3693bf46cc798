prop, pkg, helpers = "C08", "", []
needs = "a connection made by Dial, with a Host option"
breaks = "Dial applies the host that it has dialled after the options of the application, and so overrides a Host option"
edits = [
 ("conn.go", """	opts = append([]func(*Conn) error{ConnOpt.Host(host)}, opts...)
""", """	opts = append(opts, ConnOpt.Host(host))
"""),
]
demo = '''
package stomp

import (
	"net"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	host := make(chan string, 1)
	go func() {
		b, err := l.Accept()
		if err != nil {
			return
		}
		f, err := frame.NewReader(b).Read()
		if err != nil {
			return
		}
		host <- f.Header.Get(frame.Host)
		frame.NewWriter(b).Write(frame.New(frame.CONNECTED, "version", "1.2"))
	}()
	c, err := Dial("tcp", l.Addr().String(), ConnOpt.Login("a", "b"), ConnOpt.Host("virtual.example"))
	if err != nil {
		t.Fatal(err)
	}
	defer c.MustDisconnect()
	if h := <-host; h != "virtual.example" {
		t.Errorf("host %q", h)
	}
}
'''
