prop, pkg, helpers = "C16", "server", ["broker_test.go"]
needs = "a heart-beat that arrives while a large frame is being written to the same client, which reads slowly"
breaks = "the read loop answers heart-beats itself, through the writer that the other goroutine is using, so that frames are interleaved on the wire"
edits = [("server/client/conn.go", """			// if the frame is nil, then it is a heartbeat
			continue
""", """			// if the frame is nil, then it is a heartbeat: answer it, unless
			// we do not know yet whether the client wants any
			if !expectingConnect && readTimeout > 0 {
				c.writer.Write(nil)
			}
			continue
""")]
demo = '''
package server_test

import (
	"bytes"
	"net"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"
)

type pipeListener struct {
	conns chan net.Conn
}

func (l *pipeListener) Accept() (net.Conn, error) { return <-l.conns, nil }
func (l *pipeListener) Close() error              { return nil }
func (l *pipeListener) Addr() net.Addr            { return &net.TCPAddr{} }

func TestDemo(t *testing.T) {
	l := &pipeListener{make(chan net.Conn, 1)}
	serveOn(&server.Server{HeartBeat: 30 * time.Second}, l)
	near, far := net.Pipe()
	l.conns <- far
	p := &peer{t, near, frame.NewReader(near), frame.NewWriter(near)}
	p.send("CONNECT", "", "accept-version", "1.2", "host", "x", "heart-beat", "30000,30000")
	p.want("CONNECTED")
	p.send("SUBSCRIBE", "", "id", "1", "destination", "/queue/a", "ack", "auto", "receipt", "r")
	p.want("RECEIPT")
	body := make([]byte, 50000)
	for i := range body {
		body[i] = 'a' + byte(i/100%26)
	}
	p.send("SEND", string(body), "destination", "/queue/a")
	// the message is being written, and we take our time
	for i := 0; i < 4; i++ {
		time.Sleep(100 * time.Millisecond)
		near.SetWriteDeadline(time.Now().Add(time.Second))
		near.Write([]byte{'\\n'})
	}
	f := p.want("MESSAGE")
	if !bytes.Equal(f.Body, body) {
		t.Fatalf("a body of %d bytes arrives as another one of %d", len(body), len(f.Body))
	}
}
'''
