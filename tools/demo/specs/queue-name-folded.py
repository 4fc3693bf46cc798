prop, pkg, helpers = "B08", "server", ["broker_test.go"]
needs = "two queue names that differ only in a trailing slash"
breaks = "messages sent to /queue/a/ are delivered to subscribers of /queue/a"
edits = [("server/queue/manager.go", "package queue\n", "package queue\n\nimport \"strings\"\n"), ("server/queue/manager.go", """	q, ok := qm.queues[destination]
""", """	destination = strings.TrimSuffix(destination, "/")
	q, ok := qm.queues[destination]
""")]
demo = '''
package server_test

import (
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/server"
)

func TestDemo(t *testing.T) {
	addr := startBroker(t, &server.Server{})
	p := dialBroker(t, addr)
	p.connect("1.1")
	p.send("SUBSCRIBE", "", "id", "1", "destination", "/queue/a")
	p.send("SEND", "other", "destination", "/queue/a/")
	if f := p.recv(500 * time.Millisecond); f != nil {
		t.Fatalf("%s frame: %v", f.Command, f.Header)
	}
}
'''
