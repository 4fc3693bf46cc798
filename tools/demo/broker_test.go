package server_test

import (
	"io"
	"net"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"
)

type quiet struct{}

func (quiet) Debugf(string, ...interface{})   {}
func (quiet) Infof(string, ...interface{})    {}
func (quiet) Warningf(string, ...interface{}) {}
func (quiet) Errorf(string, ...interface{})   {}
func (quiet) Debug(string)                    {}
func (quiet) Info(string)                     {}
func (quiet) Warning(string)                  {}
func (quiet) Error(string)                    {}

// startBroker runs a broker on a loopback port and returns its address.
func startBroker(t *testing.T, s *server.Server) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	serveOn(s, l)
	return l.Addr().String()
}

func serveOn(s *server.Server, l net.Listener) {
	s.Log = quiet{}
	go s.Serve(l)
}

type peer struct {
	t *testing.T
	c net.Conn
	r *frame.Reader
	w *frame.Writer
}

func dialBroker(t *testing.T, addr string) *peer {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	return &peer{t, c, frame.NewReader(c), frame.NewWriter(c)}
}

func (p *peer) send(cmd, body string, headers ...string) {
	f := frame.New(cmd, headers...)
	f.Body = []byte(body)
	if err := p.w.Write(f); err != nil {
		p.t.Logf("write %s: %v", cmd, err)
	}
}

// recv returns the next frame, or nil if there is none within d or the connection is closed.
func (p *peer) recv(d time.Duration) *frame.Frame {
	end := time.Now().Add(d)
	for {
		p.c.SetReadDeadline(end)
		f, err := p.r.Read()
		if err != nil {
			return nil
		}
		if f != nil {
			return f
		}
	}
}

// want reads the next frame and fails the test unless it has the command.
func (p *peer) want(cmd string) *frame.Frame {
	p.t.Helper()
	f := p.recv(5 * time.Second)
	if f == nil {
		p.t.Fatalf("no %s frame", cmd)
	}
	if f.Command != cmd {
		p.t.Fatalf("%s frame instead of %s: %v %q", f.Command, cmd, f.Header, f.Body)
	}
	return f
}

// closed reports whether the broker closes the connection without sending anything more.
func (p *peer) closed(d time.Duration) bool {
	p.c.SetReadDeadline(time.Now().Add(d))
	_, err := p.r.Read()
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return false
	}
	return err == io.EOF || err != nil
}

func (p *peer) connect(version string, headers ...string) *frame.Frame {
	p.t.Helper()
	p.send("CONNECT", "", append([]string{"accept-version", version, "host", "h"}, headers...)...)
	return p.want("CONNECTED")
}
