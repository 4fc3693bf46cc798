package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("B15", "Blocking-operation analysis of the dispatcher: on every path, from any request to the wait for the next one, it performs no operation that can wait for somebody else (unconditional send, receive or select on a channel, lock, sleep, network I/O); and every operation in which a connection that ends waits for the dispatcher also takes what the dispatcher may be handing to it", checkB15)
	register("B17", "Path analysis of the goroutines of a broker connection: every failed read ends the read loop after closing the read channel and bounding the writes that are under way; every wait of the connection's goroutine also waits for the read channel, whose end ends it, or for the dispatcher; and at its end it closes the socket and then empties the read channel until it is closed, so that the read loop can end", checkB17)
}

// blockingCall tells whether a call can wait for an outside event.
func blockingCall(e *Event) bool {
	switch e.Kind {
	case "lock":
		return true
	case "call", "invoke":
		switch e.Name {
		case "time.Sleep", "sync.WaitGroup.Wait", "sync.Cond.Wait", "io.ReadFull", "io.Copy", "io.ReadAll", "net.Dial", "net.DialTimeout":
			return true
		}
		for _, t := range []string{"net.Conn.", "io.Reader.", "io.Writer.", "io.ReadWriter.", "io.ReadWriteCloser.", "bufio.Writer.", "bufio.Reader."} {
			if strings.HasPrefix(e.Name, t) {
				switch e.Name[len(t):] {
				case "Read", "Write", "Flush", "WriteString", "WriteByte", "ReadSlice", "ReadByte", "ReadString", "ReadBytes":
					return true
				}
			}
		}
	case "read", "write":
		return true
	}
	return false
}

func blockName(e *Event) string {
	if e.Name != "" {
		return e.Kind + " " + e.Name
	}
	return e.Kind
}

func checkB15(c *Ctx) {
	v := newSrv(c)
	released := c.field("server/client", "Conn", "released", "")
	if !v.ok() {
		return
	}
	buffered := map[string]bool{} // channels with room for what is sent
	d := &dcycle{v: v}
	d.begin = func(s *State, op string, e *Event) { s.ex.Obl("request", op) }
	d.on = func(s *State, e *Event) {
		ex := s.ex
		bad := func(k, format string, args ...interface{}) {
			ex.Bad(s, "never-waits", k, e.Instr, format, args...)
		}
		switch e.Kind {
		case "send":
			ex.Obl("never-waits", "send "+e.Name)
			if e.Tag == "blocking" && !(e.Name == released && buffered[released]) {
				bad("send "+e.Name, "the dispatcher waits for a connection until it takes what is sent to it on %s", e.Name)
			}
		case "select":
			if e.Tag != "blocking" {
				return
			}
			for i, a := range e.Args {
				if isRequestChan(a) && !e.X[i].IsTrue() {
					return
				}
			}
			bad("select", "the dispatcher waits in a select for something else than the next request")
		case "recvwait":
			if !isRequestChan(e.Args[0]) {
				bad("receive "+e.Name, "the dispatcher waits for something else than the next request")
			}
		case "storage":
			// the storage is part of the broker
		default:
			if blockingCall(e) {
				bad(blockName(e), "the dispatcher waits in %s", e.Name)
			} else if e.Kind == "invoke" || e.Kind == "call" {
				ex.Obl("never-waits", "call "+e.Name)
			}
		}
	}
	// what the connection makes
	v.scanRead(func(s *State, e *Event) {
		if e.Kind == "makechan" && len(e.Args) > 0 {
			if n, ok := e.Args[0].Int(); ok && n > 0 {
				s.cells["buf."+e.Res.String()] = s.ex.ts.Int(n)
			}
		}
		if e.Kind != "go" {
			return
		}
		for _, ch := range []string{v.subCh, v.writeCh, released} {
			for k, t := range s.heap {
				if k.K == KFldAddr && k.S == ch && s.cells["buf."+t.String()] != nil {
					buffered[ch] = true
				}
			}
		}
	})
	for _, ch := range []string{v.subCh, v.writeCh} {
		c.Obl("buffered", ch)
		if !buffered[ch] {
			c.Fail("buffered", ch, c.p.Pos(v.ctor.Pos()), "every delivery waits for the connection's goroutine, because the channel %s has no buffer", ch)
		}
	}
	v.dispatcher("dispatcher", d, v.opaqueStorage)

	// the end of a connection
	y := &cycle{v: v}
	y.on = func(s *State, e *Event) {
		ex := s.ex
		if s.cells[cellEnd] == nil {
			return
		}
		drains := func() bool {
			sub, wr := false, false
			for i, a := range e.Args {
				if !e.X[i].IsTrue() {
					sub = sub || ex.chanName(a) == v.subCh
					wr = wr || ex.chanName(a) == v.writeCh
				}
			}
			return sub && wr
		}
		switch e.Kind {
		case "recv", "recvclosed":
			if e.Name == released {
				s.cells["e.rel"] = ex.ts.Int(1)
			}
		case "select":
			if e.Tag == "blocking" && s.cells["e.rel"] == nil {
				ex.Obl("gone", "select")
				if !drains() {
					ex.Bad(s, "gone", "select", e.Instr, "a connection that ends waits without taking what the dispatcher may be handing to it: both wait forever")
				}
			}
		case "send":
			if e.Tag == "blocking" && s.cells["e.rel"] == nil {
				ex.Bad(s, "gone", "send "+e.Name, e.Instr, "a connection that ends waits for %s without taking what the dispatcher may be handing to it: both wait forever", e.Name)
			}
		case "recvwait":
			if s.cells["e.rel"] == nil {
				ex.Bad(s, "gone", "receive "+e.Name, e.Instr, "a connection that ends waits for %s without taking what the dispatcher may be handing to it: both wait forever", e.Name)
			}
		}
	}
	y.explore("connection goroutine", nil)
	c.NeedObl("request", 6)
	c.NeedObl("never-waits", 3)
	c.NeedObl("gone", 1)
	c.NeedObl("buffered", 2)
}

func checkB17(c *Ctx) {
	v := newSrv(c)
	released := c.field("server/client", "Conn", "released", "")
	rw := c.field("server/client", "Conn", "rw", "net.Conn")
	if !v.ok() {
		return
	}
	isRw := func(e *Event, m ...string) bool {
		for _, x := range m {
			if strings.HasSuffix(e.Name, "."+x) && (fieldIs(e.Args[0], rw) || e.Args[0].String() == "rw") {
				return true
			}
		}
		return false
	}
	plain := false // the read loop hands over unconditionally
	unbounded := false
	gos := map[*ssa.Function]bool{}
	v.scanRead(func(s *State, e *Event) {
		ex := s.ex
		if e.Kind == "go" {
			if e.Fn == nil {
				ex.undecided("a goroutine that is not known is started for a connection")
			} else {
				gos[e.Fn] = true
			}
			return
		}
		if len(s.frames) == 0 || s.frames[0].fn != v.read {
			return
		}
		switch e.Kind {
		case "read":
			ex.Obl("read-loop", "read "+e.Tag)
			if s.cells["r.fail"] != nil {
				ex.Bad(s, "read-loop", "goes on", e.Instr, "the read loop goes on after a failed read: its goroutine does not end with the connection")
			}
			if e.Tag == "error" {
				s.cells["r.fail"] = ex.ts.Int(1)
			}
		case "invoke":
			if isRw(e, "SetWriteDeadline", "SetDeadline") && len(e.Args) > 1 {
				if t := s.val(e.Args[1]); t.IsApp("time.Time.Add") {
					s.cells["r.bound"] = ex.ts.Int(1)
				} else {
					delete(s.cells, "r.bound")
				}
			}
			if isRw(e, "Close") {
				s.cells["r.bound"] = ex.ts.Int(1)
			}
		case "send":
			ex.Obl("read-loop", "send")
			if e.Name != v.readCh {
				ex.Bad(s, "read-loop", "send "+e.Name, e.Instr, "the read loop waits on another channel than that on which it hands over frames")
			}
			plain = plain || e.Tag == "blocking"
			if s.cells["r.fail"] != nil {
				ex.Bad(s, "read-loop", "send after failure", e.Instr, "the read loop hands over something after a failed read")
			}
		case "recvwait":
			ex.Bad(s, "read-loop", "receive", e.Instr, "the read loop waits on a channel: its goroutine does not end with the connection")
		case "select":
			if e.Tag == "blocking" {
				ok := false
				for i, a := range e.Args {
					ok = ok || ex.chanName(a) == v.readCh && e.X[i].IsTrue()
				}
				if !ok {
					ex.Bad(s, "read-loop", "select", e.Instr, "the read loop waits on other channels: its goroutine does not end with the connection")
				}
			}
		case "close":
			if e.Name == v.readCh {
				s.cells["r.closed"] = ex.ts.Int(1)
			}
		case "exit":
			ex.Obl("read-loop", "exit")
			if s.cells["r.closed"] == nil {
				ex.Bad(s, "read-loop", "exit", e.Instr, "the read loop ends without closing the read channel: the goroutine that waits for it never ends")
			}
			if s.cells["r.bound"] == nil {
				unbounded = true
			}
		}
	})
	for f := range gos {
		c.Obl("goroutines", c.p.FuncName(f))
		if f == v.proc || f == v.read {
			continue
		}
		f := f
		c.Explore("goroutine "+c.p.FuncName(f), f, &funcRule{on: func(s *State, e *Event) {
			switch {
			case e.Kind == "send" && e.Tag == "blocking", e.Kind == "select" && e.Tag == "blocking", e.Kind == "recvwait", e.Kind == "read":
				s.ex.Bad(s, "goroutines", c.p.FuncName(f), e.Instr, "a further goroutine of a connection may wait forever")
			}
		}}, nil, nil, nil)
	}

	y := &cycle{v: v}
	one := func(s *State) *T { return s.ex.ts.Int(1) }
	failed := func(s *State, e *Event) {
		if s.cells["x.fail"] != nil {
			s.ex.Bad(s, "ends", "continues", e.Instr, "the connection's goroutine goes on although the read loop has ended")
		}
	}
	y.idle = failed
	y.accept = func(s *State, f *T, e *Event) { failed(s, e) }
	y.on = func(s *State, e *Event) {
		ex := s.ex
		ended := s.cells[cellEnd] != nil
		switch e.Kind {
		case "recvclosed":
			if e.Name == v.readCh {
				s.cells["x.fail"] = one(s)
				if s.cells["x.close"] != nil {
					s.cells["x.drained"] = one(s)
				}
			}
			if e.Name == released {
				s.cells["x.rel"] = one(s)
			}
		case "recv":
			if e.Name == released {
				s.cells["x.rel"] = one(s)
			}
		case "select":
			if e.Tag != "blocking" {
				return
			}
			ex.Obl("waits", map[bool]string{false: "select", true: "select at the end"}[ended])
			ok := false
			for i, a := range e.Args {
				n := ex.chanName(a)
				ok = ok || n == v.readCh && !e.X[i].IsTrue() || n == v.reqCh && e.X[i].IsTrue() ||
					n == released && !e.X[i].IsTrue() && s.cells["x.disc"] != nil && s.cells["x.rel"] == nil
			}
			if !ok {
				ex.Bad(s, "waits", "select", e.Instr, "the connection's goroutine waits without watching the read channel: it does not end with the connection")
			}
		case "recvwait":
			ex.Obl("waits", "receive "+e.Name)
			switch {
			case e.Name == v.readCh && (!ended || s.cells["x.close"] != nil):
			case e.Name == v.readCh:
				ex.Bad(s, "waits", "early", e.Instr, "the connection's goroutine waits for the end of the read loop before the socket is closed: neither may ever end")
			case e.Name == released && s.cells["x.disc"] != nil:
			default:
				ex.Bad(s, "waits", "receive "+e.Name, e.Instr, "the connection's goroutine waits on a channel without watching the read channel: it may never end")
			}
		case "send":
			if e.Name == v.reqCh && v.reqOp(s, e.Args[1]) == "DisconnectedOp" {
				s.cells["x.disc"] = one(s)
			}
			if e.Tag != "blocking" {
				return
			}
			ex.Obl("waits", "send "+e.Name)
			if e.Name != v.reqCh {
				ex.Bad(s, "waits", "send "+e.Name, e.Instr, "the connection's goroutine waits until something is taken from %s: it may never end", e.Name)
			}
		case "blocked":
			ex.Bad(s, "waits", "forever", e.Instr, "the connection's goroutine waits on a nil channel forever")
		case "invoke":
			if isRw(e, "Close") {
				s.cells["x.close"] = one(s)
				delete(s.cells, "x.drained")
			}
			if isRw(e, "SetWriteDeadline", "SetDeadline") && len(e.Args) > 1 && s.val(e.Args[1]).IsApp("time.Time.Add") {
				s.cells["x.dl"] = one(s)
			}
		case "write":
			ex.Obl("writes", "bounded")
			if unbounded && s.cells["x.dl"] == nil {
				ex.Bad(s, "writes", "unbounded", e.Instr, "a write to a client that takes no more data is never given up, not even after a failed read: the goroutine does not end with the connection")
			}
			delete(s.cells, "x.dl")
		case "exit":
			ex.Obl("exit", "socket and read loop")
			if s.cells["x.close"] == nil {
				ex.Bad(s, "exit", "socket", e.Instr, "the connection's goroutine ends without closing the socket: the read loop stays blocked in a read")
			} else if plain && s.cells["x.drained"] == nil {
				ex.Bad(s, "exit", "drain", e.Instr, "the connection's goroutine ends without emptying the read channel after the socket was closed: the read loop may stay blocked handing over a frame")
			}
		}
	}
	y.explore("connection goroutine", nil)
	c.NeedObl("read-loop", 4)
	c.NeedObl("waits", 3)
	c.NeedObl("exit", 1)
	c.NeedObl("writes", 1)
	c.Need("goroutines of a connection", len(gos), 2)
}
