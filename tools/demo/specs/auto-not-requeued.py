prop, pkg, helpers = "B06", "server/client", []
needs = "an UNSUBSCRIBE that is processed between the dispatcher's assignment of a message to an auto-acknowledging subscription and its delivery"
breaks = "a message on its way to a subscription that has just been withdrawn is discarded instead of being given back to its queue"
edits = [("server/client/conn.go", """				// Subscription no longer exists, requeue
				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
""", """				// Subscription no longer exists, requeue
				// unless nobody would have acknowledged it
				if sub.ack != frame.AckAuto {
					c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
				}
""")]
demo = '''
package client

import (
	"net"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
)

type quiet struct{}

func (quiet) Debugf(string, ...interface{})   {}
func (quiet) Infof(string, ...interface{})    {}
func (quiet) Warningf(string, ...interface{}) {}
func (quiet) Errorf(string, ...interface{})   {}
func (quiet) Debug(string)                    {}
func (quiet) Info(string)                     {}
func (quiet) Warning(string)                  {}
func (quiet) Error(string)                    {}

type conf struct{}

func (conf) HeartBeat() time.Duration                    { return time.Minute }
func (conf) Authenticate(login, passcode string) bool   { return true }
func (conf) Logger() stomp.Logger                        { return quiet{} }

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	ch := make(chan Request, 10)
	NewConn(conf{}, b, ch)
	next := func(op RequestOp) Request {
		t.Helper()
		select {
		case r := <-ch:
			if r.Op != op {
				t.Fatalf("request %v, expected %v", r.Op, op)
			}
			return r
		case <-time.After(5 * time.Second):
			t.Fatalf("no request, expected %v", op)
		}
		panic("not reached")
	}
	go func() {
		buf := make([]byte, 4096)
		for {
			if _, err := a.Read(buf); err != nil {
				return
			}
		}
	}()
	w := frame.NewWriter(a)
	w.Write(frame.New("CONNECT", "accept-version", "1.2", "host", "h"))
	next(ConnectedOp)
	w.Write(frame.New("SUBSCRIBE", "id", "1", "destination", "/queue/demo"))
	sub := next(SubscribeOp).Sub
	// the dispatcher has a message for the subscription, but before it is delivered ...
	w.Write(frame.New("UNSUBSCRIBE", "id", "1"))
	next(UnsubscribeOp)
	f := frame.New("MESSAGE", "destination", "/queue/demo")
	sub.SendQueueFrame(f)
	if r := next(RequeueOp); r.Frame != f {
		t.Fatal("another frame is requeued")
	}
}
'''
