prop, pkg, helpers = "B18", "server", ["broker_test.go"]
needs = "a storage that refuses to take a message back after it was rejected by its subscriber"
breaks = "the error of the storage's Requeue is dropped, so that the message is lost without a trace in the log"
edits = [("server/queue/queue.go", """		// no subscription available, add to the queue
		return q.qstore.Requeue(q.destination, f)
	} else {
		// subscription is available, send it now without adding to queue
		sub.SendQueueFrame(f)
	}
	return nil
""", """		// no subscription available, add to the queue
		_ = q.qstore.Requeue(q.destination, f)
		return nil
	}

	// subscription is available, send it now without adding to queue
	sub.SendQueueFrame(f)
	return nil
""")]
demo = '''
package server_test

import (
	"errors"
	"net"
	"sync/atomic"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"
	"github.com/go-stomp/stomp/v3/server/queue"
)

type full struct {
	queue.Storage
	calls int32
}

func (s *full) Requeue(string, *frame.Frame) error {
	atomic.AddInt32(&s.calls, 1)
	return errors.New("disk full")
}

type counting struct {
	quiet
	n *int32
}

func (c counting) Errorf(string, ...interface{})   { atomic.AddInt32(c.n, 1) }
func (c counting) Warningf(string, ...interface{}) { atomic.AddInt32(c.n, 1) }
func (c counting) Error(string)                    { atomic.AddInt32(c.n, 1) }
func (c counting) Warning(string)                  { atomic.AddInt32(c.n, 1) }

func TestDemo(t *testing.T) {
	st := &full{Storage: queue.NewMemoryQueueStorage()}
	var n int32
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go (&server.Server{QueueStorage: st, Log: counting{n: &n}}).Serve(l)
	p := dialBroker(t, l.Addr().String())
	p.connect("1.2")
	p.send("SUBSCRIBE", "", "id", "1", "destination", "/queue/a", "ack", "client-individual", "receipt", "r")
	p.want("RECEIPT")
	p.send("SEND", "x", "destination", "/queue/a")
	m := p.want("MESSAGE")
	p.send("UNSUBSCRIBE", "", "id", "1", "receipt", "u")
	p.want("RECEIPT")
	p.send("NACK", "", "id", m.Header.Get("ack"))
	for i := 0; i < 100 && (atomic.LoadInt32(&st.calls) == 0 || atomic.LoadInt32(&n) == 0); i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if atomic.LoadInt32(&st.calls) == 0 {
		t.Skip("the message was not given back")
	}
	if atomic.LoadInt32(&n) == 0 {
		t.Fatal("a message was lost without anything in the log")
	}
}
'''
