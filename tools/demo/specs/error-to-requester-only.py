prop, pkg, helpers = "C10", "", ["client_test.go"]
needs = "an ERROR frame with a receipt-id while there are open subscriptions"
breaks = "the ERROR is handed only to whoever waits for that receipt; the subscriptions do not get the server's error"
edits = [
 ("conn.go", '''				for _, ch := range channels {
					ch <- f
					close(ch)
				}

				return''', '''				if id, ok := f.Header.Contains(frame.ReceiptId); ok && channels[id] != nil {
					// it is about one request only
					channels[id] <- f
					close(channels[id])
					return
				}
				for _, ch := range channels {
					ch <- f
					close(ch)
				}

				return'''),
]
demo = '''
package stomp

import (
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
)

func TestDemo(t *testing.T) {
	c, _ := connect(t, []string{"version", "1.2"}, func(s *fakeServer, f *frame.Frame) {
		if f != nil && f.Command == frame.SEND {
			s.send(frame.ERROR, frame.ReceiptId, f.Header.Get(frame.Receipt), frame.Message, "boom")
		}
	})
	sub, err := c.Subscribe("/queue/a", AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	within(t, 10*time.Second, "Send", func() {
		if err := c.Send("/queue/a", "text/plain", []byte("a"), SendOpt.Receipt); err == nil {
			t.Error("sent")
		}
	})
	within(t, 10*time.Second, "the subscription", func() {
		m := <-sub.C
		if m == nil || m.Err == nil {
			t.Error("no error message")
		} else if e, ok := m.Err.(*Error); !ok || e.Message != "boom" {
			t.Error("error message:", m.Err)
		}
		if m := <-sub.C; m != nil {
			t.Error("not closed:", m)
		}
	})
}
'''
