prop, pkg, helpers = "C11", "", ["client_test.go"]
needs = "a MESSAGE that the server sends after the client has called Unsubscribe, but before the RECEIPT"
breaks = "the message is not delivered although the subscription has not ended yet"
edits = [
 ("subscription.go", '''				Body:         f.Body,
			}
			s.C <- msg
''', '''				Body:         f.Body,
			}
			if s.Active() {
				s.C <- msg
			}
'''),
]
demo = '''
package stomp

import (
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
)

func TestDemo(t *testing.T) {
	c, _ := connect(t, []string{"version", "1.2"}, func(s *fakeServer, f *frame.Frame) {
		if f != nil && f.Command == frame.UNSUBSCRIBE {
			s.send(frame.MESSAGE, frame.Subscription, f.Header.Get(frame.Id), frame.MessageId, "1", frame.Destination, "/queue/a")
		}
		confirm(s, f)
	})
	sub, err := c.Subscribe("/queue/a", AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	within(t, 10*time.Second, "Unsubscribe", func() {
		if err := sub.Unsubscribe(); err != nil {
			t.Error(err)
		}
	})
	n := 0
	for range sub.C {
		n++
	}
	if n != 1 {
		t.Error("messages:", n)
	}
}
'''
