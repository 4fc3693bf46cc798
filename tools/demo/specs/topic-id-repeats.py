prop, pkg, helpers = "B11", "server", ["broker_test.go"]
needs = "a connection that is given several topic messages (queue messages keep their own ids)"
breaks = "the counter behind the message-ids grows only for queue messages, so the topic messages in between repeat an id"
edits = [("server/client/conn.go", """		c.lastMsgId++
		messageId""", """		if sub != nil || c.lastMsgId == 0 {
			c.lastMsgId++
		}
		messageId""")]
demo = '''
package server_test

import (
	"testing"

	"github.com/go-stomp/stomp/v3/server"
)

func TestDemo(t *testing.T) {
	addr := startBroker(t, &server.Server{})
	p := dialBroker(t, addr)
	p.connect("1.2")
	for _, d := range []string{"/topic/a", "/queue/b"} {
		p.send("SUBSCRIBE", "", "id", d, "destination", d, "ack", "auto", "receipt", "r")
		p.want("RECEIPT")
	}
	seen := map[string]bool{}
	for _, d := range []string{"/topic/a", "/queue/b", "/topic/a", "/topic/a", "/queue/b", "/topic/a"} {
		p.send("SEND", "x", "destination", d)
		f := p.want("MESSAGE")
		id := f.Header.Get("message-id")
		if id == "" || seen[id] {
			t.Fatalf("message-id %q repeats", id)
		}
		seen[id] = true
	}
}
'''
