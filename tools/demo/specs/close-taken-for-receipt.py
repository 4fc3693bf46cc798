prop, pkg, helpers = "C03", "", ["client_test.go"]
needs = "a server that closes the connection after DISCONNECT without a RECEIPT, while the receipt of another frame is outstanding"
breaks = "the end of the connection counts as the receipt of all frames that are waiting for one once DISCONNECT has been written"
edits = [
 ("conn.go", '''			if !ok {
				err := newErrorMessage("connection closed")
				sendError(channels, err)
				return
			}

			if f == nil {''', '''			if !ok {
				if leaving {
					// the server has hung up right away: that will do
					for id, ch := range channels {
						ch <- frame.New(frame.RECEIPT, frame.ReceiptId, id)
					}
					return
				}
				err := newErrorMessage("connection closed")
				sendError(channels, err)
				return
			}

			if f == nil {'''),
 ("conn.go", '''	var writeTimer *time.Timer

	defer c.MustDisconnect()''', '''	var writeTimer *time.Timer
	leaving := false

	defer c.MustDisconnect()'''),
 ("conn.go", '''			switch req.Frame.Command {
			case frame.SUBSCRIBE:
''', '''			switch req.Frame.Command {
			case frame.DISCONNECT:
				leaving = true

			case frame.SUBSCRIBE:
'''),
]
demo = '''
package stomp

import (
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
)

func TestDemo(t *testing.T) {
	c, _ := connect(t, []string{"version", "1.2"}, func(s *fakeServer, f *frame.Frame) {
		if f != nil && f.Command == frame.DISCONNECT {
			s.c.Close()
		}
	})
	result := make(chan error, 1)
	go func() { result <- c.Send("/queue/a", "text/plain", []byte("a"), SendOpt.Receipt) }()
	time.Sleep(200 * time.Millisecond)
	within(t, 10*time.Second, "Disconnect", func() {
		if err := c.Disconnect(); err == nil {
			t.Error("disconnected without a receipt")
		}
	})
	within(t, 10*time.Second, "Send", func() {
		if err := <-result; err == nil {
			t.Error("sent without a receipt")
		}
	})
}
'''
