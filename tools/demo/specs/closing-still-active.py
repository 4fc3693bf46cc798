prop, pkg, helpers = "C12", "", ["client_test.go"]
needs = "an Unsubscribe that the server does not confirm in time"
breaks = "after it the subscription still says that it is active, and Read waits on it for ever"
edits = [
 ("subscription.go", "	return atomic.LoadInt32(&s.state) == subStateActive", "	return atomic.LoadInt32(&s.state) != subStateClosed"),
]
demo = '''
package stomp

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c, _ := connect(t, []string{"version", "1.2"}, nil, ConnOpt.UnsubscribeReceiptTimeout(200*time.Millisecond))
	sub, err := c.Subscribe("/queue/a", AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	within(t, 10*time.Second, "Unsubscribe", func() {
		if err := sub.Unsubscribe(); err == nil {
			t.Error("unsubscribed without a confirmation")
		}
	})
	if sub.Active() {
		t.Error("active after Unsubscribe")
	}
}
'''
