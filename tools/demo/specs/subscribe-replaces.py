prop, pkg, helpers = "B14", "server", ["broker_test.go"]
needs = "a second SUBSCRIBE with an id that is in use, for the same destination"
breaks = "a SUBSCRIBE that repeats an id and destination in use is silently accepted, although it registers nothing"
edits = [("server/client/conn.go", """	sub, ok := c.subs[id]
	if ok {
		return subscriptionExists
	}
""", """	sub, ok := c.subs[id]
	if ok {
		if sub.dest == dest {
			// repeated subscription, nothing to do
			return c.sendReceiptImmediately(f)
		}
		return subscriptionExists
	}
""")]
demo = '''
package server_test

import (
	"testing"

	"github.com/go-stomp/stomp/v3/server"
)

func TestDemo(t *testing.T) {
	addr := startBroker(t, &server.Server{})
	p := dialBroker(t, addr)
	p.connect("1.1")
	p.send("SUBSCRIBE", "", "id", "1", "destination", "/queue/demo")
	p.send("SUBSCRIBE", "", "id", "1", "destination", "/queue/demo", "ack", "client")
	p.want("ERROR")
}
'''
