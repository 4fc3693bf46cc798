prop, pkg, helpers = "C14", "", []
flags = "-race"
needs = "a connection with statistics, whose Stats are asked for while another goroutine sends"
breaks = "the number of writes is counted without atomic operations, as all who count hold the lock of the connection; Stats, which reads the number, does not"
edits = [
 ("conn.go", """	f, err := createSendFrame(destination, contentType, body, opts)
	if err != nil {
		return nil, err
	}

	if c.statsEnabled {
		atomic.AddInt64(&c.writesSent, 1)
	}
""", """	f, err := createSendFrame(destination, contentType, body, opts)
	if err != nil {
		return nil, err
	}

	if c.statsEnabled {
		c.writesSent++
	}
"""),
]
demo = '''
package stomp

import (
	"net"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	go func() {
		r := frame.NewReader(b)
		if _, err := r.Read(); err != nil {
			return
		}
		frame.NewWriter(b).Write(frame.New(frame.CONNECTED, "version", "1.2"))
		for {
			if _, err := r.Read(); err != nil {
				return
			}
		}
	}()
	c, err := Connect(a, ConnOpt.WithStats())
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 1000; i++ {
			c.Send("/queue/a", "", nil)
		}
	}()
	for i := 0; i < 1000; i++ {
		c.Stats()
	}
	<-done
	if n := c.Stats().WritesSent; n != 1000 {
		t.Errorf("%d messages sent, %d counted", 1000, n)
	}
	c.MustDisconnect()
}
'''
