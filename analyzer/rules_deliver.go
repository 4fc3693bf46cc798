package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// messageChan is the channel of a subscription on which the application receives.
func (a *api) messageChan() string {
	var l []string
	for k, t := range a.subFields() {
		if ch, ok := t.Underlying().(*types.Chan); ok && isNamed(derefType(ch.Elem()), "stomp", "Message") && token.IsExported(k[strings.LastIndex(k, ".")+1:]) {
			l = append(l, k)
		}
	}
	if len(l) != 1 {
		a.c.Undecided("the message channel of a subscription: found %d", len(l))
		return ""
	}
	return l[0]
}

// ---- C11 ----

func init() {
	register("C11", "Path-sensitive value-flow analysis of a MESSAGE frame through the three goroutines that it passes: the reading goroutine hands every frame that it has read to the I/O goroutine once and reads no further before; the I/O goroutine hands a MESSAGE once to the channel found under its subscription header before it waits again, and goes on when there is none; the goroutine of the subscription, of which there is one, sends the application one message with the frame's destination, content type, headers and body before it waits again; nobody changes the frame, and whatever else is sent to the application is an error; Read returns what it has received", checkC11)
}

func checkC11(c *Ctx) {
	a := newAPI(c)
	proc := c.clientProcess()
	read := c.clientRead()
	loop := c.subscriptionLoop()
	readCh := c.field("", "Conn", "readCh", "chan *frame.Frame")
	msgChan := a.messageChan()
	if !a.ok() || proc == nil || read == nil || loop == nil {
		return
	}
	changed := func(s *State, e *Event, f *T) bool {
		if f == nil {
			return false
		}
		switch e.Kind {
		case "hdrset", "hdradd", "hdrdel", "hdraddall":
			return len(e.Args) > 0 && e.Args[0] == s.peek(f, "frame.Frame.Header")
		case "store":
			return len(e.Args) > 1 && e.Args[0] == f && e.Args[1] != e.X[0]
		}
		return false
	}

	// the reading goroutine
	reads := 0
	c.Explore("reading goroutine", read, &funcRule{
		on: func(s *State, e *Event) {
			ex := s.ex
			f := s.cells["d.f"]
			if changed(s, e, f) {
				ex.Bad(s, "read", "changed", e.Instr, "a frame is changed after it has been read")
			}
			switch e.Kind {
			case "read":
				if f != nil {
					ex.Bad(s, "read", "dropped", e.Instr, "the reading goroutine reads on although it has not handed over the frame that it has read")
				}
				delete(s.cells, "d.f")
				if e.Tag != "error" {
					reads++
					ex.Obl("read", "frame")
					s.cells["d.f"] = e.Res
				}
			case "send":
				if e.Name != readCh {
					return
				}
				ex.Obl("read", "handed over")
				if f == nil || e.Args[1] != f {
					ex.Bad(s, "read", "other", e.Instr, "the reading goroutine hands over something else than the frame that it has read, or the same frame twice")
				}
				delete(s.cells, "d.f")
			case "recvclosed", "recv":
				s.cells["d.over"] = ex.ts.Int(1)
			case "exit":
				if f != nil && s.cells["d.over"] == nil {
					ex.Bad(s, "read", "lost", e.Instr, "the reading goroutine ends without having handed over the frame that it has read")
				}
			}
		}}, nil, nil, nil)
	c.Need("frames read", reads, 1)

	// the I/O goroutine
	clear := func(s *State) {
		for _, k := range []string{"d.f", "d.n", "d.hit", "d.id"} {
			delete(s.cells, k)
		}
	}
	got := 0
	settle := func(s *State, e *Event, what string) {
		ex := s.ex
		f := s.cells["d.f"]
		if f == nil || s.cmd(f) != "MESSAGE" {
			return
		}
		got++
		ex.Obl("routed", what)
		has, _ := s.hdrOfFrame(f, "subscription")
		hit := s.cells["d.hit"]
		found := hit != nil && s.isNil(hit) != 1
		switch {
		case has == 0:
			ex.Bad(s, "routed", "unknown", e.Instr, "the I/O goroutine does not find out which subscription a MESSAGE is for")
		case has == 1 && hit == nil:
			ex.Bad(s, "routed", "not looked up", e.Instr, "the I/O goroutine does not look for the subscription of a MESSAGE")
		case has == 1 && found && s.cells["d.n"] == nil:
			ex.Bad(s, "routed", "dropped", e.Instr, "a MESSAGE is not handed to its subscription")
		case what == "ends" && !(has == 1 && found):
			ex.Bad(s, "routed", "ends", e.Instr, "a MESSAGE for an unknown subscription ends the connection")
		}
	}
	c.Explore("I/O goroutine: messages", proc, &funcRule{
		on: func(s *State, e *Event) {
			ex := s.ex
			f := s.cells["d.f"]
			if changed(s, e, f) {
				ex.Bad(s, "routed", "changed", e.Instr, "a frame is changed after it has been received")
			}
			switch e.Kind {
			case "recv":
				if e.Name == readCh {
					clear(s)
					s.cells["d.f"] = e.Res
				}
			case "maplookup":
				if f == nil || !ex.isFrameChan(e.Res.Typ) && e.Tag == "present" {
					return
				}
				if has, v := s.hdrOfFrame(f, "subscription"); has == 1 && s.equals(e.Args[1], v) == 1 {
					s.cells["d.hit"] = ex.ts.Nil()
					if e.Tag == "present" {
						s.cells["d.hit"] = e.Res
					}
				}
			case "send":
				if f == nil || !ex.isFrameChan(e.Args[0].Typ) || e.Args[1] != f || s.cmd(f) != "MESSAGE" {
					return
				}
				if s.cells["d.n"] != nil {
					ex.Bad(s, "routed", "twice", e.Instr, "a MESSAGE is handed out more than once")
				}
				s.cells["d.n"] = ex.ts.Int(1)
			case "select":
				if e.Tag == "blocking" {
					hold := false
					for _, x := range e.Args {
						hold = hold || ex.chanName(x) == readCh || ex.chanName(x) == a.writeCh
					}
					if hold {
						settle(s, e, "waits")
						clear(s)
					}
				}
			case "exit":
				settle(s, e, "ends")
			}
		}}, forkNilFrames, nil, nil)
	c.Need("MESSAGE frames received by the I/O goroutine", got, 2)

	// the goroutine of a subscription
	field := func(n string) string { return c.field("", "Message", n, "") }
	mDest, mType, mBody, mErr := field("Destination"), field("ContentType"), field("Body"), field("Err")
	errorsFrom := map[string]bool{} // channels from which messages are passed on
	sent := 0
	due := func(s *State, e *Event) {
		f := s.cells["d.f"]
		if f == nil || s.cmd(f) != "MESSAGE" {
			return
		}
		s.ex.Obl("delivered", "each")
		if s.cells["d.n"] == nil {
			s.ex.Bad(s, "delivered", "dropped", e.Instr, "the goroutine of a subscription does not pass on a MESSAGE")
		}
	}
	c.Explore("goroutine of a subscription: messages", loop, &funcRule{
		on: func(s *State, e *Event) {
			ex := s.ex
			f := s.cells["d.f"]
			if changed(s, e, f) {
				ex.Bad(s, "delivered", "changed", e.Instr, "a frame is changed before it has been delivered")
			}
			switch e.Kind {
			case "recv", "recvclosed":
				if ex.isFrameChan(e.Args[0].Typ) {
					due(s, e)
					clear(s)
					delete(s.cells, "d.msg")
					if e.Kind == "recv" {
						s.cells["d.f"] = e.Res
					}
				} else if e.Kind == "recv" && isNamed(derefType(e.Res.Typ), "stomp", "Message") {
					s.cells["d.msg"] = e.Res
					s.cells["d.from"] = ex.ts.Str(e.Name)
				}
			case "select":
				if e.Tag == "blocking" {
					due(s, e)
					clear(s)
				}
			case "exit":
				due(s, e)
			case "send":
				if e.Name != msgChan {
					return
				}
				sent++
				m := e.Args[1]
				if m == s.cells["d.msg"] {
					from, _ := s.cells["d.from"].Str()
					errorsFrom[from] = true
					return
				}
				if v := s.peek(m, mErr); v != nil && s.isNil(v) == -1 {
					return
				}
				ex.Obl("delivered", "message")
				bad := func(k, what string) {
					ex.Bad(s, "delivered", k, e.Instr, "the message that is delivered for a MESSAGE frame does not have %s", what)
				}
				if f == nil || s.cmd(f) != "MESSAGE" {
					ex.Bad(s, "delivered", "made up", e.Instr, "a message is delivered without an error although no MESSAGE has been received")
					return
				}
				if s.cells["d.n"] != nil {
					ex.Bad(s, "delivered", "twice", e.Instr, "a MESSAGE is delivered more than once")
				}
				s.cells["d.n"] = ex.ts.Int(1)
				if e.Args[0] != s.at(subOf(s, loop), msgChan) {
					ex.Bad(s, "delivered", "elsewhere", e.Instr, "a MESSAGE is delivered to another subscription")
				}
				if v := s.peek(m, a.msgHeader); v == nil || v != s.peek(f, "frame.Frame.Header") {
					bad("header", "the frame's headers")
				}
				if v := s.peek(m, mBody); v == nil || v != s.peek(f, "frame.Frame.Body") {
					bad("body", "the frame's body")
				}
				if v := s.peek(m, mErr); v == nil || s.isNil(v) != 1 {
					bad("error", "an empty error")
				}
				if v := s.peek(m, a.msgSub); v == nil || s.equals(v, subOf(s, loop)) != 1 {
					bad("subscription", "the subscription that it belongs to")
				}
				if v := s.peek(m, a.msgConn); v == nil || s.equals(v, s.at(subOf(s, loop), a.subConn)) != 1 {
					bad("connection", "the connection that it came on")
				}
				for fld, h := range map[string]string{mDest: "destination", mType: "content-type"} {
					has, hv := s.hdrOfFrame(f, h)
					v := s.peek(m, fld)
					switch {
					case v == nil, has == 0, has == 1 && s.equals(v, hv) != 1, has == -1 && !s.val(v).IsStr(""):
						bad(h, "the frame's "+h)
					}
				}
			}
		}}, nil, nil, nil)
	c.Need("messages sent to the application", sent, 3)
	if len(errorsFrom) > 0 {
		prefix := a.subID[:strings.LastIndex(a.subID, ".")+1]
		for _, f := range c.exportedMethods("Conn", "Transaction", "Subscription") {
			f := f
			c.Explore(c.p.FuncName(f), f, &funcRule{on: func(s *State, e *Event) {
				if e.Kind != "send" || !strings.HasPrefix(e.Name, prefix) || !errorsFrom[e.Name] && e.Name != msgChan {
					return
				}
				s.ex.Obl("delivered", "passed on")
				if v := s.peek(e.Args[1], mErr); v == nil || s.isNil(v) != -1 {
					s.ex.Bad(s, "delivered", "from "+f.Name(), e.Instr, "%s makes up a message for the application that is not an error", f.Name())
				}
			}}, nil, nil, nil)
		}
	}

	// one goroutine for each subscription
	subscribe := c.method("", "Conn", "Subscribe")
	if subscribe == nil {
		return
	}
	started := 0
	c.Explore("Subscribe: goroutine", subscribe, &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		switch e.Kind {
		case "go":
			if e.Fn == loop {
				started++
				s.count("d.go")
			}
		case "exit":
			ex.Obl("started", "Subscribe")
			if n := s.counted("d.go"); n > 1 || n == 0 && failed(s, e) != 1 {
				ex.Bad(s, "started", "Subscribe", e.Instr, "Subscribe starts %d goroutines for a subscription", n)
			}
		}
	}}, nil, nil, nil)
	c.Need("goroutines started by Subscribe", started, 1)
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok && goTarget(g) == loop && !c.p.info.Reach(subscribe)[f] {
					c.Fail("started", c.p.FuncName(f), c.p.Pos(in.Pos()), "a second goroutine serves a subscription")
				}
			}
		}
	}

	// Read
	if f := c.method("", "Subscription", "Read"); f != nil {
		c.Explore("Read", f, &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			switch e.Kind {
			case "recv":
				if e.Name == msgChan {
					if s.cells["d.m"] != nil {
						ex.Bad(s, "delivered", "Read twice", e.Instr, "Read receives more than one message")
					}
					s.cells["d.m"] = e.Res
				}
			case "exit":
				ex.Obl("delivered", "Read")
				m := s.cells["d.m"]
				if len(e.Args) < 2 {
					return
				}
				ok := m != nil && s.isNil(s.peek(m, mErr)) == 1
				switch {
				case failed(s, e) == 1:
					if m != nil && s.isNil(s.peek(m, mErr)) != -1 {
						ex.Bad(s, "delivered", "Read loses", e.Instr, "Read may lose a message")
					}
				case failed(s, e) == 0 || !ok || e.Args[0] != m:
					ex.Bad(s, "delivered", "Read", e.Instr, "Read may succeed without returning the message that it has received")
				}
			}
		}}, nil, nil, nil)
	}
	c.NeedObl("read", 2)
	c.NeedObl("routed", 1)
	c.NeedObl("delivered", 3)
	c.NeedObl("started", 1)
}

// ---- C10 ----

func init() {
	register("C10", "Path-sensitive analysis of how the client's goroutines end: the reading goroutine closes its channel on every way out; the I/O goroutine ends after a failure, an ERROR frame or the end of either of its channels, closes the channel that announces the end on every way out, and has handed an ERROR frame to every channel in its map before; whoever waits for a response waits for that announcement as well; the goroutine of a subscription, which Subscribe has started, ends after it and after an ERROR frame, and on every way out has closed the message channel and, unless it was unsubscribed, before sent one message with an error", checkC10)
}

func checkC10(c *Ctx) {
	a := newAPI(c)
	proc := c.clientProcess()
	read := c.clientRead()
	loop := c.subscriptionLoop()
	readCh := c.field("", "Conn", "readCh", "chan *frame.Frame")
	doneCh := c.field("", "Conn", "done", "chan struct{}")
	mErr := c.field("", "Message", "Err", "error")
	msgChan := a.messageChan()
	if !a.ok() || proc == nil || read == nil || loop == nil {
		return
	}
	c.Explore("reading goroutine", read, &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		switch e.Kind {
		case "close":
			if e.Name == readCh {
				s.cells["n.closed"] = ex.ts.Int(1)
			}
		case "read":
			if s.cells["n.fail"] != nil {
				ex.Bad(s, "reading", "continues", e.Instr, "the reading goroutine reads on after a failure")
			}
			if e.Tag == "error" {
				s.cells["n.fail"] = ex.ts.Int(1)
			}
		case "exit":
			ex.Obl("reading", "exit")
			if s.cells["n.closed"] == nil {
				ex.Bad(s, "reading", "silent", e.Instr, "the reading goroutine ends without telling the I/O goroutine")
			}
		}
	}}, nil, nil, nil)

	// the I/O goroutine
	causes := map[string]bool{}
	c.Explore("I/O goroutine: end", proc, &funcRule{
		on: func(s *State, e *Event) {
			ex := s.ex
			cause := func(k string) {
				causes[k] = true
				ex.Obl("ends", k)
				if s.cells["n.cause"] == nil {
					s.cells["n.cause"] = ex.ts.Str(k)
				}
			}
			switch e.Kind {
			case "recvclosed":
				if e.Name == readCh || e.Name == a.writeCh {
					cause("end of " + e.Name)
				}
			case "recv":
				if e.Name == readCh {
					s.cells["n.f"] = e.Res
				}
			case "write":
				if e.Tag == "fail" {
					cause("write failure")
				}
			case "range":
				if !ex.isFrameChanMap(e.Args[0]) {
					return
				}
				if ch := s.cells["n.pending"]; ch != nil {
					ex.Bad(s, "told", "skipped", e.Instr, "the I/O goroutine passes over a channel when it hands out an ERROR frame")
				}
				delete(s.cells, "n.pending")
				if f := s.cells["n.f"]; f == nil || s.cmd(f) != "ERROR" {
					return
				}
				if e.Tag == "end" {
					s.cells["n.all"] = ex.ts.Int(1)
				} else {
					s.cells["n.pending"] = e.Args[2]
				}
			case "send":
				if e.Args[0] == s.cells["n.pending"] {
					ex.Obl("told", "ERROR")
					if s.cmd(e.Args[1]) != "ERROR" {
						ex.Bad(s, "told", "other", e.Instr, "another frame than the ERROR is handed out")
					}
					delete(s.cells, "n.pending")
				}
			case "close":
				if e.Name == doneCh {
					s.cells["n.done"] = ex.ts.Int(1)
				}
			case "select":
				if e.Tag != "blocking" {
					return
				}
				hold := false
				for _, x := range e.Args {
					hold = hold || ex.chanName(x) == readCh || ex.chanName(x) == a.writeCh
				}
				if !hold {
					return
				}
				f := s.cells["n.f"]
				if f != nil && s.cmd(f) == "ERROR" {
					ex.Bad(s, "ends", "ERROR", e.Instr, "the I/O goroutine goes on after an ERROR frame")
				}
				if k := s.cells["n.cause"]; k != nil {
					what, _ := k.Str()
					ex.Bad(s, "ends", what, e.Instr, "the I/O goroutine goes on after %s", what)
				}
				delete(s.cells, "n.f")
				delete(s.cells, "n.all")
				delete(s.cells, "n.pending")
			case "exit":
				ex.Obl("ends", "announced")
				if s.cells["n.done"] == nil {
					ex.Bad(s, "ends", "silent", e.Instr, "the I/O goroutine may end without closing the channel that announces it")
				}
				if f := s.cells["n.f"]; f != nil && s.cmd(f) == "ERROR" {
					ex.Obl("told", "all")
					if s.cells["n.all"] == nil || s.cells["n.pending"] != nil {
						ex.Bad(s, "told", "ERROR", e.Instr, "the I/O goroutine ends without having handed the ERROR frame to everyone")
					}
				}
			}
		}}, forkNilFrames, nil, nil)
	c.Need("reasons for the I/O goroutine to end", len(causes), 3)

	// who waits for a response
	waits := 0
	for _, f := range c.exportedMethods("Conn", "Transaction", "Subscription") {
		f := f
		if !c.sends(f) {
			continue
		}
		c.Explore(c.p.FuncName(f), f, &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			switch e.Kind {
			case "select":
				if e.Tag != "blocking" {
					return
				}
				resp, done := false, false
				for _, x := range e.Args {
					resp = resp || ex.isFrameChan(x.Typ)
					done = done || ex.chanName(x) == doneCh
				}
				if resp {
					waits++
					ex.Obl("waits", f.Name())
					if !done {
						ex.Bad(s, "waits", f.Name(), e.Instr, "%s waits for a response without noticing the end of the connection", f.Name())
					}
				}
			case "recvwait":
				if ex.isFrameChan(e.Args[0].Typ) {
					ex.Bad(s, "waits", f.Name(), e.Instr, "%s waits for a response without noticing the end of the connection", f.Name())
				}
			case "exit":
				if f.Name() == "Subscribe" && failed(s, e) != 1 {
					ex.Obl("started", "Subscribe")
					if s.cells["n.go"] == nil {
						ex.Bad(s, "started", "Subscribe", e.Instr, "Subscribe may succeed without a goroutine that serves the subscription")
					}
				}
			case "go":
				if e.Fn == loop {
					ch := fieldByType(s.cellOr("n.req"), ex.isFrameChan)
					for _, x := range e.Args {
						if ex.isFrameChan(x.Typ) && x == ch {
							s.cells["n.go"] = ex.ts.Int(1)
						}
					}
					if len(e.Args) < 2 {
						s.cells["n.go"] = ex.ts.Int(1)
					}
				}
			case "send":
				if e.Name == a.writeCh {
					s.cells["n.req"] = e.Args[1]
				}
			}
		}}, nil, nil, nil)
	}
	c.Need("waits for a response", waits, 4)

	// the goroutine of a subscription
	born := a.subBorn()
	states := a.openStates(born)
	if len(states) == 0 {
		c.Undecided("the states of a subscription")
		return
	}
	temp := a.tempField()
	for _, m := range states {
		m := m
		var pin *pinned
		reasons := map[string]bool{}
		c.Explore("goroutine of a subscription, "+describe(m), loop, &funcRule{
			on: func(s *State, e *Event) {
				ex := s.ex
				pin.observe(s, e)
				sub := subOf(s, loop)
				why := func() string { w, _ := s.cellOr("n.why").Str(); return w }
				switch e.Kind {
				case "recv", "recvclosed":
					delete(s.cells, "n.err")
					switch {
					case ex.isFrameChan(e.Args[0].Typ) && e.Kind == "recv":
						s.cells["n.f"] = e.Res
						s.cells["n.why"] = ex.ts.Str("frame")
					case ex.isFrameChan(e.Args[0].Typ):
						delete(s.cells, "n.f")
						s.cells["n.why"] = ex.ts.Str("channel")
						if temp != "" && s.eval(s.at(sub, temp)) == 1 {
							s.cells["n.why"] = ex.ts.Str("temporary")
						}
					case e.Name == doneCh:
						delete(s.cells, "n.f")
						s.cells["n.why"] = ex.ts.Str("end")
					default:
						delete(s.cells, "n.f")
						s.cells["n.why"] = ex.ts.Str("other")
					}
				case "send":
					if e.Name != msgChan {
						return
					}
					if v := s.peek(e.Args[1], mErr); v != nil && s.isNil(v) == -1 {
						if s.cells["n.err"] != nil {
							ex.Bad(s, "told", "twice", e.Instr, "a subscription is told twice of the end of the connection")
						}
						s.cells["n.err"] = ex.ts.Int(1)
					}
				case "close":
					if e.Name == msgChan {
						s.cells["n.closed"] = ex.ts.Int(1)
					}
				case "select":
					if e.Tag != "blocking" {
						return
					}
					done := false
					for _, x := range e.Args {
						done = done || ex.chanName(x) == doneCh
					}
					ex.Obl("waits", "subscription")
					if !done {
						ex.Bad(s, "waits", "subscription", e.Instr, "the goroutine of a subscription waits for frames without noticing the end of the connection")
					}
					w := why()
					if f := s.cells["n.f"]; w == "frame" && f != nil && s.cmd(f) == "ERROR" {
						w = "ERROR"
					}
					switch w {
					case "end", "channel", "temporary", "ERROR":
						ex.Bad(s, "told", "goes on "+w, e.Instr, "the goroutine of a subscription goes on after the end of the connection")
					}
				case "recvwait":
					if ex.isFrameChan(e.Args[0].Typ) {
						ex.Bad(s, "waits", "subscription", e.Instr, "the goroutine of a subscription waits for frames without noticing the end of the connection")
					}
				case "exit":
					w := why()
					f := s.cells["n.f"]
					if w == "frame" {
						w = s.cmd(f)
					}
					reasons[w] = true
					ex.Obl("told", "exit "+w)
					if s.cells["n.closed"] == nil {
						ex.Bad(s, "told", "not closed", e.Instr, "the goroutine of a subscription may end without closing the message channel (%s)", describe(m))
					}
					switch {
					case w == "RECEIPT" || w == "temporary":
					case s.cells["n.err"] == nil:
						// a closed channel of which it is not known what for
						if w == "channel" && temp != "" && s.eval(s.at(sub, temp)) == 1 {
							return
						}
						ex.Bad(s, "told", "no error", e.Instr, "a subscription may end without an error message although it was not unsubscribed")
					}
				}
			}}, func(ex *Exec) {
			pin = &pinned{values: m, types: map[string]types.Type{}}
			for k := range m {
				pin.types[k] = a.subFields()[k]
			}
			pin.conf(ex)
			ex.Opts.Once = func(s *State, addr *T) bool {
				return addr.K == KFldAddr && addr.A[0] == subOf(s, loop) && c.onlyBy(addr.S, loop)
			}
		}, nil, func(s *State) {
			pin.base = subOf(s, loop)
			pin.init(s)
		})
		c.Need("reasons for the goroutine of a subscription to end", len(reasons), 3)
	}
	c.NeedObl("reading", 1)
	c.NeedObl("ends", 4)
	c.NeedObl("waits", 5)
	c.NeedObl("told", 4)
	c.NeedObl("started", 1)
}

// onlyBy tells whether a field is accessed by one goroutine only.
func (c *Ctx) onlyBy(field string, root *ssa.Function) bool {
	for _, acc := range c.p.info.accesses[field] {
		if acc.ctor {
			continue
		}
		if roots, user := c.p.info.rootsOf(acc.fn); user || len(roots) != 1 || !roots[root] {
			return false
		}
	}
	return true
}

func (s *State) cellOr(k string) *T {
	if v := s.cells[k]; v != nil {
		return v
	}
	return s.ex.ts.Nil()
}

// isFrameChanMap tells whether a value is a map to channels of frames.
func (ex *Exec) isFrameChanMap(t *T) bool {
	if t.Typ == nil {
		return false
	}
	m, ok := t.Typ.Underlying().(*types.Map)
	return ok && ex.isFrameChan(m.Elem())
}

// openStates are the contents of a subscription before its goroutine has ended it: those that it is born with, and
// those with which it is left while its UNSUBSCRIBE frame is being sent.
func (a *api) openStates(born *subEnd) []map[string]constant.Value {
	c := a.c
	active := c.method("", "Subscription", "Active")
	unsub := c.method("", "Subscription", "Unsubscribe")
	if active == nil || unsub == nil {
		return nil
	}
	prefix := a.subID[:strings.LastIndex(a.subID, ".")+1]
	state := a.stateFields(active)
	open := map[string]constant.Value{}
	for k := range state {
		if v := born.values[k]; v != nil {
			open[k] = v
		}
	}
	if len(open) == 0 {
		return nil
	}
	out := []map[string]constant.Value{open}
	seen := map[string]bool{describe(open): true}
	c.Explore("Unsubscribe: state", unsub, &funcRule{
		on: func(s *State, e *Event) {
			sub := param(s.ex, unsub, 0)
			switch e.Kind {
			case "atomic":
				setAtomic(s, e, sub)
			case "send":
				if e.Name != a.writeCh {
					return
				}
				m := map[string]constant.Value{}
				for k, v := range leftIn(s, sub, prefix) {
					if open[k] != nil {
						m[k] = v
					}
				}
				for k, v := range open {
					if m[k] == nil {
						m[k] = v
					}
				}
				if k := describe(m); !seen[k] {
					seen[k] = true
					out = append(out, m)
				}
			}
		}}, nil, nil, nil)
	sort.Slice(out[1:], func(i, j int) bool { return describe(out[1+i]) < describe(out[1+j]) })
	return out
}

// stateFields are the fields of a subscription that Active looks at.
func (a *api) stateFields(active *ssa.Function) map[string]bool {
	c := a.c
	prefix := a.subID[:strings.LastIndex(a.subID, ".")+1]
	fieldTypes := a.subFields()
	state := map[string]bool{}
	c.Explore("Active: reads", active, &funcRule{
		on: func(s *State, e *Event) {
			sub := param(s.ex, active, 0)
			switch e.Kind {
			case "load":
				if len(e.Args) > 0 && e.Args[0] == sub && strings.HasPrefix(e.Name, prefix) {
					state[e.Name] = true
				}
			case "atomic":
				if x := e.Args[0]; x.K == KFldAddr && x.A[0] == sub {
					state[x.S] = true
				}
			}
		}}, func(ex *Exec) { ex.Opts.Loads = true }, nil, nil)
	for k := range state {
		switch fieldTypes[k].Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Chan, *types.Struct:
			delete(state, k) // a mutex, say
		}
	}
	return state
}
