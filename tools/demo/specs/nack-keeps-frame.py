prop, pkg, helpers = "B01", "server", ["broker_test.go"]
needs = "a message is negatively acknowledged, comes back to the same subscription, and is delivered again, in that order"
breaks = "NACK leaves the requeued message on the subscription, so that the next delivery to it makes the dispatcher panic"
edits = [("server/client/conn.go", """			// send frame back to upper layer for requeue
			c.requestChannel <- Request{Op: RequeueOp, Frame: s.frame}

			// remove frame from the subscription, it has been requeued
			s.frame = nil
""", """			// send frame back to upper layer for requeue
			c.requestChannel <- Request{Op: RequeueOp, Frame: s.frame}
""")]
demo = '''
package server_test

import (
	"testing"

	"github.com/go-stomp/stomp/v3/server"
)

func TestDemo(t *testing.T) {
	addr := startBroker(t, &server.Server{})
	p := dialBroker(t, addr)
	p.connect("1.1")
	p.send("SUBSCRIBE", "", "id", "1", "destination", "/queue/demo", "ack", "client-individual")
	p.send("SEND", "hello", "destination", "/queue/demo")
	m := p.want("MESSAGE")
	p.send("NACK", "", "subscription", "1", "message-id", m.Header.Get("message-id"))
	m = p.want("MESSAGE")
	if string(m.Body) != "hello" {
		t.Fatalf("body %q", m.Body)
	}
	p.send("ACK", "", "subscription", "1", "message-id", m.Header.Get("message-id"))
	p.send("DISCONNECT", "", "receipt", "r")
	p.want("RECEIPT")
}
'''
