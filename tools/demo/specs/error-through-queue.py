prop, pkg, helpers = "B04", "server", ["broker_test.go"]
needs = "a rejected frame followed at once by further frames, and a receipt header on the rejected frame"
breaks = "the ERROR frame goes through the write channel, so frames after the rejected one are still processed and the receipt-id is missing"
edits = [("server/client/conn.go", """			err := c.stateFunc(c, f)
			if err != nil {
				c.sendErrorImmediately(err, f)
				return
			}
""", """			err := c.stateFunc(c, f)
			if err != nil {
				// the loop ends once it has sent the ERROR frame
				c.SendError(err)
			}
""")]
demo = '''
package server_test

import (
	"testing"

	"github.com/go-stomp/stomp/v3/server"
)

func TestDemo(t *testing.T) {
	addr := startBroker(t, &server.Server{})
	p := dialBroker(t, addr)
	p.connect("1.2")
	p.send("UNSUBSCRIBE", "", "id", "nope", "receipt", "r1")
	f := p.want("ERROR")
	if f.Header.Get("receipt-id") != "r1" {
		t.Fatal("no receipt-id", f.Header)
	}
}
'''
