prop, pkg, helpers = "B17", "server", ["broker_test.go"]
needs = "a connection with heart-beats that is ended because the client has fallen silent, while nothing is sent to it"
breaks = "after a read timeout the read loop closes the socket but does not tell the processing goroutine, which waits forever"
edits = [("server/client/conn.go", """				c.log.Errorf("read failed: %v : %s", err, c.rw.RemoteAddr())
			}
""", """				c.log.Errorf("read failed: %v : %s", err, c.rw.RemoteAddr())
			}
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				c.rw.Close()
				return
			}
""")]
demo = '''
package server_test

import (
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/server"
)

func loops() int {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	return strings.Count(string(buf), "server/client.(*Conn)")
}

func TestDemo(t *testing.T) {
	addr := startBroker(t, &server.Server{HeartBeat: 50 * time.Millisecond})
	p := dialBroker(t, addr)
	p.connect("1.2", "heart-beat", "50,0")
	p.send("SUBSCRIBE", "", "id", "1", "destination", "/topic/a", "ack", "auto", "receipt", "r")
	p.want("RECEIPT")
	for !p.closed(5 * time.Second) {
	}
	for i := 0; loops() > 0; i++ {
		if i == 100 {
			t.Fatal("a goroutine of the connection is left")
		}
		time.Sleep(50 * time.Millisecond)
	}
}
'''
