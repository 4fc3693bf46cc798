prop, pkg, helpers = "B16", "server", ["broker_test.go"]
needs = "a large message, published to a topic that has several subscriptions"
breaks = "a topic message with a large body is handed to all subscriptions without being copied, so that the goroutines of several connections write to one frame"
edits = [("server/topic/topic.go", """			if e.Next() == nil {
				// the last in the list, send the frame
				// without copying
""", """			if e.Next() == nil || len(f.Body) > 32*1024 {
				// the last in the list, or too much to copy:
				// send the frame without copying
""")]
demo = '''
package server_test

import (
	"strings"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/server"
)

func TestDemo(t *testing.T) {
	addr := startBroker(t, &server.Server{})
	p := dialBroker(t, addr)
	p.connect("1.2")
	for _, id := range []string{"a", "b", "c"} {
		p.send("SUBSCRIBE", "", "id", id, "destination", "/topic/a", "ack", "auto", "receipt", "r"+id)
		p.want("RECEIPT")
	}
	q := dialBroker(t, addr)
	q.connect("1.2")
	const N = 300
	go func() {
		for i := 0; i < N; i++ {
			q.send("SEND", strings.Repeat("x", 40000), "destination", "/topic/a")
		}
	}()
	got := map[string]int{}
	ids := map[string]bool{}
	for i := 0; i < 3*N; i++ {
		f := p.recv(10 * time.Second)
		if f == nil {
			t.Fatalf("only %d of %d messages arrived", i, 3*N)
		}
		got[f.Header.Get("subscription")]++
		if id := f.Header.Get("message-id"); ids[id] {
			t.Fatalf("message-id %s twice", id)
		} else {
			ids[id] = true
		}
	}
	for _, id := range []string{"a", "b", "c"} {
		if got[id] != N {
			t.Fatalf("subscription %s got %d of %d messages: %v", id, got[id], N, got)
		}
	}
}
'''
