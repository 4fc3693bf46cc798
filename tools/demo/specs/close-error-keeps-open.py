prop, pkg, helpers = "C04", "", []
needs = "a network connection whose Close returns an error when Disconnect closes it"
breaks = "the connection is not marked as closed, so that Send still succeeds after Disconnect and nothing is sent"
edits = [
 ("conn.go", '''	if err == nil {
		c.closed = true
		return c.conn.Close()
	}
''', '''	if err == nil {
		if err = c.conn.Close(); err == nil {
			c.closed = true
		}
		return err
	}
'''),
]
demo = '''
package stomp

import (
	"errors"
	"net"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

// hung is a connection that cannot be closed properly.
type hung struct{ net.Conn }

func (hung) Close() error { return errors.New("close failed") }

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	defer b.Close()
	go func() {
		r, w := frame.NewReader(b), frame.NewWriter(b)
		for {
			f, err := r.Read()
			if err != nil {
				return
			}
			switch f.Command {
			case frame.CONNECT:
				w.Write(frame.New(frame.CONNECTED, frame.Version, "1.2"))
			case frame.DISCONNECT:
				w.Write(frame.New(frame.RECEIPT, frame.ReceiptId, f.Header.Get(frame.Receipt)))
			}
		}
	}()
	c, err := Connect(hung{a})
	if err != nil {
		t.Fatal(err)
	}
	c.Disconnect()
	if err := c.Send("/queue/a", "text/plain", []byte("x")); err == nil {
		t.Error("sent after Disconnect")
	}
}
'''
