prop, pkg, helpers = "B07", "server", ["broker_test.go"]
needs = "a queue with stored messages, one of which has been delivered and is given back when its consumer disconnects"
breaks = "a requeued message goes to the end of its queue, so it comes out after messages that were sent later"
edits = [("server/queue/queue.go", """func (q *Queue) Requeue(f *frame.Frame) error {
	// find a subscription ready to receive the frame
	sub := q.subs.Get()
	if sub == nil {
		// no subscription available, add to the queue
		return q.qstore.Requeue(q.destination, f)
	} else {
		// subscription is available, send it now without adding to queue
		sub.SendQueueFrame(f)
	}
	return nil
}""", """func (q *Queue) Requeue(f *frame.Frame) error {
	return q.Enqueue(f)
}""")]
demo = '''
package server_test

import (
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/server"
)

func TestDemo(t *testing.T) {
	addr := startBroker(t, &server.Server{})
	p := dialBroker(t, addr)
	p.connect("1.1")
	p.send("SEND", "one", "destination", "/queue/demo")
	p.send("SEND", "two", "destination", "/queue/demo", "receipt", "r")
	p.want("RECEIPT")
	p.send("SUBSCRIBE", "", "id", "1", "destination", "/queue/demo", "ack", "client-individual")
	if m := p.want("MESSAGE"); string(m.Body) != "one" {
		t.Fatalf("first message is %q", m.Body)
	}
	p.c.Close()
	for i := 0; i < 20; i++ {
		time.Sleep(200 * time.Millisecond)
		q := dialBroker(t, addr)
		q.connect("1.1")
		q.send("SUBSCRIBE", "", "id", "1", "destination", "/queue/demo", "ack", "client-individual")
		m := q.want("MESSAGE")
		if string(m.Body) == "two" {
			// the first connection may not have been cleaned up yet: give it back and try again
			q.send("NACK", "", "subscription", "1", "message-id", m.Header.Get("message-id"))
			q.send("UNSUBSCRIBE", "", "id", "1")
			q.send("DISCONNECT", "", "receipt", "bye")
			for f := q.recv(5e9); f != nil && f.Command != "RECEIPT"; f = q.recv(5e9) {
			}
			q.c.Close()
			continue
		}
		return
	}
	t.Fatal("the requeued message does not come out first")
}
'''
