prop, pkg, helpers = "C05", "", ["client_test.go"]
needs = "AbortWithReceipt (for instance deferred) after a Commit"
breaks = "the abort with receipt forgets whether the transaction is over: it is sent after COMMIT"
edits = [("transaction.go", """	return tx.abort(true)
""", """	f := frame.New(frame.ABORT, frame.Transaction, tx.id)
	f.Header.Set(frame.Receipt, allocateId())
	tx.completed = true
	return tx.conn.sendFrame(f)
"""), ("transaction.go", "	return tx.abort(false)\n", "	return tx.abort()\n"), ("transaction.go", """func (tx *Transaction) abort(receipt bool) error {""", """func (tx *Transaction) abort() error {"""), ("transaction.go", """	f := frame.New(frame.ABORT, frame.Transaction, tx.id)

	if receipt {
		id := allocateId()
		f.Header.Set(frame.Receipt, id)
	}
""", """	f := frame.New(frame.ABORT, frame.Transaction, tx.id)
""")]
demo = '''
package stomp

import "testing"

func TestDemo(t *testing.T) {
	c, s := connect(t, []string{"version", "1.2"}, confirm)
	tx := c.Begin()
	if err := tx.CommitWithReceipt(); err != nil {
		t.Fatal(err)
	}
	if tx.AbortWithReceipt() == nil {
		t.Error("abort after commit succeeds")
	}
	if s.count("ABORT") != 0 {
		t.Error("ABORT after COMMIT")
	}
}
'''
