prop, pkg, helpers = "C07", "", []
needs = "two sends with receipts that are given the same option"
breaks = "the receipt id is made when the option is made instead of when it is applied, so that every send has the same one"
edits = [("send_options.go", """	SendOpt.Receipt = func(f *frame.Frame) error {
		if f.Command != frame.SEND {
			return ErrInvalidCommand
		}
		id := allocateId()
		f.Header.Set(frame.Receipt, id)
		return nil
	}
""", """	SendOpt.Receipt = receiptOption(frame.SEND)
"""), ("send_options.go", """func init() {
	SendOpt""", """// receiptOption requests a receipt for a frame with the given command.
func receiptOption(command string) func(*frame.Frame) error {
	id := allocateId()
	return func(f *frame.Frame) error {
		if f.Command != command {
			return ErrInvalidCommand
		}
		f.Header.Set(frame.Receipt, id)
		return nil
	}
}

func init() {
	SendOpt""")]
demo = '''
package stomp

import (
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

func TestDemo(t *testing.T) {
	seen := map[string]bool{}
	for i := 0; i < 3; i++ {
		f := frame.New(frame.SEND)
		if err := SendOpt.Receipt(f); err != nil {
			t.Fatal(err)
		}
		id := f.Header.Get(frame.Receipt)
		if id == "" || seen[id] {
			t.Fatalf("receipt %q again", id)
		}
		seen[id] = true
	}
}
'''
