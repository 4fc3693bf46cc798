prop, pkg, helpers = "B03", "server", ["broker_test.go"]
needs = "an UNSUBSCRIBE frame that asks for a receipt and names a subscription that does not exist"
breaks = "a rejected UNSUBSCRIBE is confirmed with a RECEIPT before it is answered with ERROR"
edits = [("server/client/conn.go", """	sub, ok := c.subs[id]
	if !ok {
		return subscriptionNotFound
	}

	// Send a receipt and remove the header
	err := c.sendReceiptImmediately(f)
	if err != nil {
		return err
	}

	// remove""", """	// Send a receipt and remove the header
	err := c.sendReceiptImmediately(f)
	if err != nil {
		return err
	}

	sub, ok := c.subs[id]
	if !ok {
		return subscriptionNotFound
	}

	// remove""")]
demo = '''
package server_test

import (
	"testing"

	"github.com/go-stomp/stomp/v3/server"
)

func TestDemo(t *testing.T) {
	addr := startBroker(t, &server.Server{})
	p := dialBroker(t, addr)
	p.connect("1.2")
	p.send("UNSUBSCRIBE", "", "id", "nope", "receipt", "r1")
	f := p.want("ERROR")
	if f.Header.Get("receipt-id") != "r1" {
		t.Fatal("no receipt-id", f.Header)
	}
}
'''
