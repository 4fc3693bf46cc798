prop, pkg, helpers = "B05", "server", ["broker_test.go"]
needs = "a connection whose peer has gone away silently, so that writing a heart-beat fails while reading does not"
breaks = "when writing a heart-beat fails, the connection ends without any cleanup: its unacknowledged messages are lost and its socket stays open"
edits = [("server/client/conn.go", """	defer c.cleanupConn()

	c.writer""", """	cleanup := true
	defer func() {
		if cleanup {
			c.cleanupConn()
		}
	}()

	c.writer"""), ("server/client/conn.go", """			err := c.writer.Write(nil)
			if err != nil {
				return
			}""", """			err := c.writer.Write(nil)
			if err != nil {
				// the peer is gone, there is nothing left to tell it
				cleanup = false
				return
			}""")]
demo = '''
package server_test

import (
	"errors"
	"net"
	"sync/atomic"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/server"
)

// lame is a connection whose writes start to fail while its reads go on waiting.
type lame struct {
	net.Conn
	broken int32
	gone   chan struct{}
}

func (l *lame) Write(b []byte) (int, error) {
	if atomic.LoadInt32(&l.broken) != 0 {
		return 0, errors.New("no route to host")
	}
	return l.Conn.Write(b)
}

func (l *lame) Close() error {
	select {
	case <-l.gone:
	default:
		close(l.gone)
	}
	return l.Conn.Close()
}

type lameListener struct {
	net.Listener
	conns chan *lame
}

func (l *lameListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	x := &lame{Conn: c, gone: make(chan struct{})}
	l.conns <- x
	return x, nil
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	ll := &lameListener{l, make(chan *lame, 10)}
	serveOn(&server.Server{HeartBeat: 50 * time.Millisecond}, ll)

	p := dialBroker(t, l.Addr().String())
	x := <-ll.conns
	p.connect("1.1", "heart-beat", "0,50")
	p.send("SUBSCRIBE", "", "id", "1", "destination", "/queue/demo", "ack", "client")
	p.send("SEND", "hello", "destination", "/queue/demo")
	p.want("MESSAGE")
	atomic.StoreInt32(&x.broken, 1)
	select {
	case <-x.gone:
	case <-time.After(5 * time.Second):
		t.Fatal("the socket stays open")
	}

	q := dialBroker(t, l.Addr().String())
	q.connect("1.1")
	q.send("SUBSCRIBE", "", "id", "1", "destination", "/queue/demo")
	if m := q.want("MESSAGE"); string(m.Body) != "hello" {
		t.Fatalf("body %q", m.Body)
	}
}
'''
