prop, pkg, helpers = "C02", "", ["client_test.go"]
needs = "a Subscribe whose option fails, then any other operation"
breaks = "Subscribe does not let go of the connection's mutex when an option fails, so that every later operation, and the end of the connection, waits forever"
edits = [
 ("conn.go", """func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Frame) error) (*Subscription, error) {
	c.closeMutex.Lock()
	defer c.closeMutex.Unlock()
	if c.closed {
		c.conn.Close()
		return nil, ErrClosedUnexpectedly
	}
""", """func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Frame) error) (*Subscription, error) {
	c.closeMutex.Lock()
	if c.closed {
		c.closeMutex.Unlock()
		c.conn.Close()
		return nil, ErrClosedUnexpectedly
	}
"""),
 ("conn.go", """	err := c.sendRequest(request, 0)
	if err != nil {
		return nil, err
	}

	go sub.readLoop(ch)
""", """	err := c.sendRequest(request, 0)
	c.closeMutex.Unlock()
	if err != nil {
		return nil, err
	}

	go sub.readLoop(ch)
"""),
]
demo = '''
package stomp

import (
	"errors"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
)

func TestDemo(t *testing.T) {
	c, s := connect(t, []string{"version", "1.2"}, confirm)
	failing := func(f *frame.Frame) error { return errors.New("no") }
	if _, err := c.Subscribe("/queue/a", AckAuto, failing); err == nil {
		t.Fatal("the option has not failed")
	}
	s.c.Close()
	within(t, 10*time.Second, "Send", func() {
		c.Send("/queue/a", "", []byte("x"))
	})
	within(t, 10*time.Second, "MustDisconnect", func() {
		c.MustDisconnect()
	})
}
'''
