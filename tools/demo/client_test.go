package stomp

import (
	"net"
	"sync"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
)

type silent struct{}

func (silent) Debugf(string, ...interface{})   {}
func (silent) Infof(string, ...interface{})    {}
func (silent) Warningf(string, ...interface{}) {}
func (silent) Errorf(string, ...interface{})   {}
func (silent) Debug(string)                    {}
func (silent) Info(string)                     {}
func (silent) Warning(string)                  {}
func (silent) Error(string)                    {}

// fakeServer is the other end of a client's connection. It records the
// frames that it gets (nil for a heart-beat), and calls on for each of them.
type fakeServer struct {
	sync.Mutex
	c      net.Conn
	w      *frame.Writer
	frames []*frame.Frame
}

func (s *fakeServer) send(command string, headers ...string) error {
	return s.w.Write(frame.New(command, headers...))
}

func (s *fakeServer) count(command string) int {
	s.Lock()
	defer s.Unlock()
	n := 0
	for _, f := range s.frames {
		if f == nil && command == "" || f != nil && f.Command == command {
			n++
		}
	}
	return n
}

// waitFor waits until n frames with the command have arrived.
func (s *fakeServer) waitFor(t *testing.T, command string, n int) {
	for i := 0; s.count(command) < n; i++ {
		if i > 500 {
			t.Fatalf("no %s", command)
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// connect connects a client to a server that announces the given headers.
func connect(t *testing.T, announce []string, on func(s *fakeServer, f *frame.Frame), opts ...func(*Conn) error) (*Conn, *fakeServer) {
	a, b := net.Pipe()
	s := &fakeServer{c: b, w: frame.NewWriter(b)}
	go func() {
		r := frame.NewReader(b)
		if _, err := r.Read(); err != nil {
			return
		}
		s.send(frame.CONNECTED, announce...)
		for {
			f, err := r.Read()
			if err != nil {
				return
			}
			s.Lock()
			s.frames = append(s.frames, f)
			s.Unlock()
			if on != nil {
				on(s, f)
			}
		}
	}()
	c, err := Connect(a, append([]func(*Conn) error{ConnOpt.Logger(silent{})}, opts...)...)
	if err != nil {
		t.Fatal(err)
	}
	return c, s
}

// confirm answers receipt requests.
func confirm(s *fakeServer, f *frame.Frame) {
	if f == nil {
		return
	}
	if id, ok := f.Header.Contains(frame.Receipt); ok {
		s.send(frame.RECEIPT, frame.ReceiptId, id)
	}
}

// within fails the test if f does not return in time.
func within(t *testing.T, d time.Duration, what string, f func()) {
	done := make(chan bool)
	go func() {
		f()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("%s does not return", what)
	}
}
