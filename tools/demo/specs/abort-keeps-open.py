prop, pkg, helpers = "B10", "server", ["broker_test.go"]
needs = "a SEND that names a transaction which has been aborted"
breaks = "an aborted transaction stays open, so that frames which name it afterwards are accepted instead of being rejected"
edits = [("server/client/tx_store.go", """	if list, ok := txs.transactions[tx]; ok {
		list.Init()
		delete(txs.transactions, tx)
		return nil
	}""", """	if list, ok := txs.transactions[tx]; ok {
		list.Init()
		return nil
	}""")]
demo = '''
package server_test

import (
	"testing"

	"github.com/go-stomp/stomp/v3/server"
)

func TestDemo(t *testing.T) {
	addr := startBroker(t, &server.Server{})
	p := dialBroker(t, addr)
	p.connect("1.1")
	p.send("BEGIN", "", "transaction", "t")
	p.send("SEND", "one", "destination", "/queue/demo", "transaction", "t")
	p.send("ABORT", "", "transaction", "t")
	p.send("SEND", "two", "destination", "/queue/demo", "transaction", "t")
	p.want("ERROR")
}
'''
