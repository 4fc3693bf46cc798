prop, pkg, helpers = "C06", "", ["client_test.go"]
needs = "a message received over STOMP 1.1 or 1.0 whose subscription header is absent or differs from the subscription (a temporary queue, for which the broker picks the id)"
breaks = "ACK names the subscription by the header of the message instead of the id that the client subscribed with"
edits = [("conn.go", """		f.Header.Add(frame.Subscription, msg.Subscription.Id())
		if messageId""", """		f.Header.Add(frame.Subscription, msg.Header.Get(frame.Destination))
		if id, ok := msg.Header.Contains(frame.Subscription); ok {
			f.Header.Set(frame.Subscription, id)
		}
		if messageId""")]
demo = '''
package stomp

import (
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

func TestDemo(t *testing.T) {
	c, s := connect(t, []string{"version", "1.1"}, confirm)
	sub, err := c.Subscribe("/queue/a", AckClient, SubscribeOpt.Id("one"))
	if err != nil {
		t.Fatal(err)
	}
	m := &Message{
		Header:       frame.NewHeader("message-id", "7", "destination", "/queue/a"),
		Subscription: sub,
		Conn:         c,
	}
	if err := c.Ack(m); err != nil {
		t.Fatal(err)
	}
	s.waitFor(t, "ACK", 1)
	s.Lock()
	defer s.Unlock()
	for _, f := range s.frames {
		if f.Command == "ACK" && (f.Header.Get("subscription") != "one" || f.Header.Get("message-id") != "7") {
			t.Errorf("ACK with %v", f.Header)
		}
	}
}
'''
