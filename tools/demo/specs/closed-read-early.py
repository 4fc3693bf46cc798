prop, pkg, helpers = "C01", "", ["client_test.go"]
needs = "two MustDisconnect calls (one may be that of the I/O goroutine) that wait for a Disconnect which fails"
breaks = "MustDisconnect reads whether the connection is closed before it has the lock, so that two of them may close the write channel, which panics"
edits = [
 ("conn.go", """func (c *Conn) MustDisconnect() error {
	c.closeMutex.Lock()
	defer c.closeMutex.Unlock()
	if c.closed {
		return nil
	}
""", """func (c *Conn) MustDisconnect() error {
	if c.closed {
		return nil
	}
	c.closeMutex.Lock()
	defer c.closeMutex.Unlock()
"""),
]
demo = '''
package stomp

import (
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
)

func TestDemo(t *testing.T) {
	c, s := connect(t, []string{"version", "1.2"}, nil)
	ended := make(chan struct{}, 3)
	go func() { c.Disconnect(); ended <- struct{}{} }()
	s.waitFor(t, frame.DISCONNECT, 1)
	for i := 0; i < 2; i++ {
		go func() { c.MustDisconnect(); ended <- struct{}{} }()
	}
	time.Sleep(300 * time.Millisecond)
	// the server goes away without confirming
	s.c.Close()
	within(t, 10*time.Second, "disconnecting", func() {
		for i := 0; i < 3; i++ {
			<-ended
		}
	})
	time.Sleep(300 * time.Millisecond)
}
'''
