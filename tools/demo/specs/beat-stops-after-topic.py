prop, pkg, helpers = "B13", "server", ["broker_test.go"]
needs = "a connection with heart-beats that is given a topic message and is quiet afterwards"
breaks = "the stopped timer is kept after a topic message, so that it is never started again and no heart-beat is sent any more"
edits = [("server/client/conn.go", """			if timer != nil {
				timer.Stop()
				timer = nil
			}

			c.allocateMessageId(f, nil)""", """			if timer != nil {
				timer.Stop()
			}

			c.allocateMessageId(f, nil)""")]
demo = '''
package server_test

import (
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/server"
)

func TestDemo(t *testing.T) {
	addr := startBroker(t, &server.Server{HeartBeat: 50 * time.Millisecond})
	p := dialBroker(t, addr)
	p.connect("1.2", "heart-beat", "0,50")
	beat := func(after string) {
		t.Helper()
		p.c.SetReadDeadline(time.Now().Add(5 * time.Second))
		for {
			f, err := p.r.Read()
			if err != nil {
				t.Fatalf("no heart-beat after %s: %v", after, err)
			}
			if f == nil {
				return
			}
		}
	}
	beat("CONNECTED")
	beat("a heart-beat")
	p.send("SUBSCRIBE", "", "id", "1", "destination", "/topic/a", "ack", "auto", "receipt", "r")
	p.want("RECEIPT")
	beat("RECEIPT")
	p.send("SEND", "x", "destination", "/topic/a")
	p.want("MESSAGE")
	beat("MESSAGE")
	beat("MESSAGE")
}
'''
