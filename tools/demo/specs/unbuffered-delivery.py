prop, pkg, helpers = "B15", "server", ["broker_test.go"]
needs = "a client that stops reading while a delivery to it is being written, and one further message for it"
breaks = "without room in the channel of deliveries the dispatcher waits for the client at the very next message for it"
edits = [("server/client/conn.go", "make(chan *Subscription, maxPendingWrites)", "make(chan *Subscription)")]
demo = '''
package server_test

import (
	"strings"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/server"
)

func TestDemo(t *testing.T) {
	addr := startBroker(t, &server.Server{})
	slow := dialBroker(t, addr)
	defer slow.c.Close()
	slow.connect("1.2")
	for _, id := range []string{"1", "2"} {
		slow.send("SUBSCRIBE", "", "id", id, "destination", "/queue/"+id, "ack", "client", "receipt", "r")
		slow.want("RECEIPT")
	}
	p := dialBroker(t, addr)
	defer p.c.Close()
	p.connect("1.2")
	p.send("SEND", strings.Repeat("x", 64<<20), "destination", "/queue/1")
	p.send("SEND", "x", "destination", "/queue/2")
	p.send("SUBSCRIBE", "", "id", "1", "destination", "/queue/3", "ack", "auto", "receipt", "r")
	p.want("RECEIPT")
	time.Sleep(2 * time.Second)
	p.send("SEND", "x", "destination", "/queue/3")
	f := p.recv(10 * time.Second)
	if f == nil || f.Command != "MESSAGE" {
		t.Fatal("a client that does not read keeps the broker from serving another one")
	}
}
'''
