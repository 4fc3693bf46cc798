package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "Blocking-operation analysis of the client: every operation in which a method of a connection, subscription or transaction can wait also ends by a timer that runs, or by a channel that a goroutine of the library closes on every one of its ways out; mutexes are let go on every path; the I/O goroutine waits for the reading goroutine only, hands at most one response to the buffered channel of a request, hands further frames to goroutines of subscriptions only, which go on receiving until it ends or forgets them, ends when the reading goroutine has ended, and announces that before it takes a mutex; the reading goroutine ends with the network connection", checkC02)
}

// closings collects the channels in fields of a type that a goroutine has closed on every one of its ways out.
type closings struct {
	all  map[string]bool
	seen bool
}

func (k *closings) exit(s *State) {
	have := map[string]bool{}
	for c := range s.cells {
		if strings.HasPrefix(c, "w.closed.") {
			have[strings.TrimPrefix(c, "w.closed.")] = true
		}
	}
	if !k.seen {
		k.seen, k.all = true, have
		return
	}
	for f := range k.all {
		if !have[f] {
			delete(k.all, f)
		}
	}
}

// final removes the channels that are replaced.
func (k *closings) final(c *Ctx) {
	for f := range k.all {
		for _, acc := range c.p.info.accesses[f] {
			if acc.write && !acc.ctor {
				delete(k.all, f)
			}
		}
	}
}

// timer tells whether a channel is that of a timer, which is running.
func (s *State) timer(ch *T, typ types.Type) bool {
	if typ == nil || s.isNil(ch) == 1 {
		return false
	}
	c, ok := typ.Underlying().(*types.Chan)
	return ok && typKey(c.Elem()) == "time.Time"
}

// selectTypes are the types of the channels of a select.
func selectTypes(e *Event) []types.Type {
	var out []types.Type
	if in, ok := e.Instr.(*ssa.Select); ok {
		for _, st := range in.States {
			out = append(out, st.Chan.Type())
		}
	}
	return out
}

// room tells whether a channel field has always been made with a buffer.
func (c *Ctx) room(field string) bool {
	n := 0
	for _, acc := range c.p.info.accesses[field] {
		if !acc.write {
			continue
		}
		st, ok := acc.instr.(*ssa.Store)
		if !ok {
			return false
		}
		mk, ok := st.Val.(*ssa.MakeChan)
		if !ok {
			return false
		}
		size, ok := mk.Size.(*ssa.Const)
		if !ok || size.Value == nil || size.Int64() < 1 {
			return false
		}
		n++
	}
	return n > 0
}

func checkC02(c *Ctx) {
	a := newAPI(c)
	proc, read, loop := c.clientProcess(), c.clientRead(), c.subscriptionLoop()
	readCh := c.field("", "Conn", "readCh", "chan *frame.Frame")
	msgChan := a.messageChan()
	if !a.ok() || proc == nil || read == nil || loop == nil {
		return
	}
	closed := func(s *State, e *Event) {
		if b, f := fieldBase(e.Args[0]); b != nil && strings.HasPrefix(f, "stomp.") {
			s.cells["w.closed."+f] = b
		}
	}
	// operations that block in other ways
	other := func(s *State, e *Event, who string) {
		if e.Kind != "lock" && e.Kind != "read" && e.Kind != "write" && blockingCall(e) {
			s.ex.Bad(s, "waits", who+" "+e.Name, e.Instr, "the %s may wait in %s", who, e.Name)
		}
		if e.Kind == "blocked" {
			s.ex.Bad(s, "waits", who+" forever", e.Instr, "the %s waits on a nil channel forever", who)
		}
	}

	// the reading goroutine
	ends := &closings{}
	doneOf := &closings{}
	c.Explore("I/O goroutine: what it closes", proc, &funcRule{on: func(s *State, e *Event) {
		switch e.Kind {
		case "close":
			closed(s, e)
		case "exit":
			doneOf.exit(s)
		}
	}}, nil, nil, nil)
	doneOf.final(c)
	for f := range doneOf.all {
		if !strings.HasPrefix(f, "stomp.Conn.") || f == a.writeCh {
			delete(doneOf.all, f)
		}
	}
	c.Need("channels that announce the end of the I/O goroutine", len(doneOf.all), 1)

	c.Explore("reading goroutine", read, &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		other(s, e, "reading goroutine")
		switch e.Kind {
		case "read":
			if s.cells["w.fail"] != nil {
				ex.Bad(s, "reading", "continues", e.Instr, "the reading goroutine reads on after a failure, or the end of the I/O goroutine")
			}
			if e.Tag == "error" {
				s.cells["w.fail"] = ex.ts.Int(1)
			}
		case "select":
			if e.Tag != "blocking" {
				return
			}
			ex.Obl("reading", "select")
			ok := false
			for i, x := range e.Args {
				ok = ok || doneOf.all[ex.chanName(x)] && !e.X[i].IsTrue()
			}
			if !ok {
				ex.Bad(s, "reading", "select", e.Instr, "the reading goroutine waits without noticing the end of the I/O goroutine")
			}
		case "recvclosed", "recv":
			s.cells["w.fail"] = ex.ts.Int(1)
		case "send":
			if e.Tag == "blocking" {
				ex.Bad(s, "reading", "send", e.Instr, "the reading goroutine hands over without noticing the end of the I/O goroutine")
			}
		case "recvwait":
			ex.Bad(s, "reading", "receive", e.Instr, "the reading goroutine waits for something else than the network")
		case "close":
			closed(s, e)
		case "exit":
			ex.Obl("reading", "exit")
			ends.exit(s)
			if len(s.locks) > 0 {
				ex.Bad(s, "mutexes", "reading", e.Instr, "the reading goroutine ends without letting go of a mutex")
			}
		}
	}}, nil, nil, nil)
	c.Obl("reading", "told")
	if !ends.all[readCh] {
		c.Fail("reading", "silent", c.p.Pos(read.Pos()), "the reading goroutine may end without closing the channel by which the I/O goroutine notices")
	}

	// the I/O goroutine
	c.Explore("I/O goroutine", proc, &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		one := ex.ts.Int(1)
		bad := func(k, format string, args ...interface{}) {
			ex.Bad(s, "I/O goroutine", k, e.Instr, format, args...)
		}
		other(s, e, "I/O goroutine")
		waiting := func() {
			if s.cells["w.end"] != nil {
				bad("continues", "the I/O goroutine goes on although the connection has ended")
			}
			if s.cells["w.all"] != nil || s.cells["w.pend"] != nil {
				bad("again", "the I/O goroutine goes on after it has handed an end or a response to a channel that is still registered: the next one may block it forever")
			}
			delete(s.cells, "w.k")
			delete(s.cells, "w.v")
			delete(s.cells, "w.rv")
		}
		switch e.Kind {
		case "select":
			if e.Tag != "blocking" {
				return
			}
			waiting()
			ex.Obl("I/O goroutine", "select")
			ok := false
			for i, x := range e.Args {
				ok = ok || ex.chanName(x) == readCh && !e.X[i].IsTrue()
			}
			if !ok {
				bad("select", "the I/O goroutine waits without noticing the end of the reading goroutine")
			}
			if len(s.locks) > 0 {
				bad("mutex", "the I/O goroutine waits with a mutex locked")
			}
		case "recvwait":
			waiting()
			if e.Name != readCh {
				bad("receive "+e.Name, "the I/O goroutine waits without noticing the end of the reading goroutine")
			}
		case "recvclosed":
			if e.Name == readCh || e.Name == a.writeCh {
				s.cells["w.end"] = one
			}
		case "read", "write":
			if e.Kind == "read" {
				bad("read", "the I/O goroutine reads from the network")
			}
			if e.Tag == "fail" {
				s.cells["w.end"] = one
			}
		case "lock":
			ex.Obl("I/O goroutine", "mutex")
			announced := false
			for k := range s.cells {
				announced = announced || strings.HasPrefix(k, "w.closed.") && doneOf.all[strings.TrimPrefix(k, "w.closed.")]
			}
			if !announced {
				bad("lock", "the I/O goroutine waits for a mutex before it has announced its end: an operation that waits for it may have it locked")
			}
		case "close":
			closed(s, e)
		case "maplookup":
			if e.Res != nil && ex.frameChan(e.Res) && e.Tag != "absent" {
				s.cells["w.k"], s.cells["w.v"] = e.Args[1], e.Res
			}
		case "range":
			if e.Tag != "end" && len(e.Args) > 2 && ex.frameChan(e.Args[2]) {
				s.cells["w.rk"], s.cells["w.rv"] = e.Args[1], e.Args[2]
			}
		case "mapdel":
			if p := s.cells["w.pend"]; p != nil && s.equals(p, e.Args[1]) == 1 {
				delete(s.cells, "w.pend")
			}
		case "send":
			if e.Tag != "blocking" {
				return
			}
			ch := e.Args[0]
			if _, f := fieldBase(ch); f != "" && strings.HasPrefix(f, "stomp.") || !ex.frameChan(ch) {
				bad("send "+e.Name, "the I/O goroutine waits for somebody to receive from %s", e.Name)
				return
			}
			cmd := s.cmd(e.Args[1])
			ex.Obl("I/O goroutine", "hands over "+cmd)
			switch {
			case cmd == "MESSAGE":
			case ch == s.cells["w.rv"]:
				if p := s.cells["w.sent."+ch.String()]; p != nil {
					bad("twice", "the I/O goroutine hands a channel two ends, for which it has no room")
				}
				s.cells["w.all"] = one
			case ch == s.cells["w.v"]:
				s.cells["w.pend"] = s.cells["w.k"]
			default:
				ex.undecided("a channel to which the I/O goroutine sends at %s", c.p.Pos(instrPos(e.Instr)))
			}
		case "exit":
			ex.Obl("I/O goroutine", "exit")
			if len(s.locks) > 0 {
				ex.Bad(s, "mutexes", "I/O", e.Instr, "the I/O goroutine ends without letting go of a mutex")
			}
		}
	}}, forkNilFrames, nil, nil)

	// the goroutine of a subscription
	states := a.openStates(a.subBorn())
	if len(states) == 0 {
		c.Undecided("the states of a subscription")
		return
	}
	subOn := &closings{}
	for _, m := range states {
		m := m
		var pin *pinned
		c.Explore("goroutine of a subscription, "+describe(m), loop, &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			bad := func(k, format string, args ...interface{}) {
				ex.Bad(s, "subscription", k, e.Instr, format, args...)
			}
			pin.observe(s, e)
			other(s, e, "goroutine of a subscription")
			switch e.Kind {
			case "select":
				if e.Tag != "blocking" {
					return
				}
				ex.Obl("subscription", "select")
				ok, frames := false, false
				for i, x := range e.Args {
					ok = ok || doneOf.all[ex.chanName(x)] && !e.X[i].IsTrue()
					frames = frames || ex.frameChan(x) && !e.X[i].IsTrue()
				}
				if !ok {
					bad("select", "the goroutine of a subscription waits without noticing the end of the I/O goroutine")
				}
				if !frames {
					bad("deaf", "the goroutine of a subscription waits for something else than its frames, which the I/O goroutine may be handing to it")
				}
				if s.cells["w.end"] != nil {
					bad("continues", "the goroutine of a subscription goes on after the end of the connection")
				}
				if len(s.locks) > 0 {
					bad("mutex", "the goroutine of a subscription waits with a mutex locked")
				}
				delete(s.cells, "w.why")
			case "recvwait":
				bad("receive "+e.Name, "the goroutine of a subscription waits without noticing the end of the I/O goroutine")
			case "recvclosed", "recv":
				if e.Kind == "recvclosed" || doneOf.all[e.Name] {
					s.cells["w.why"] = ex.ts.Str("closed")
					if doneOf.all[e.Name] {
						s.cells["w.end"] = ex.ts.Int(1)
					}
					return
				}
				s.cells["w.why"] = ex.ts.Str("other")
				if ex.frameChan(e.Args[0]) || ex.isFrameChan(e.Args[0].Typ) {
					s.cells["w.why"], s.cells["w.f"] = ex.ts.Str("frame"), e.Res
				}
			case "send":
				if e.Tag == "blocking" && e.Name != msgChan {
					bad("send "+e.Name, "the goroutine of a subscription waits for somebody to receive from %s", e.Name)
				}
				if e.Name == msgChan && len(s.locks) > 0 {
					bad("locked", "the goroutine of a subscription waits for the application with a mutex locked")
				}
			case "close":
				closed(s, e)
			case "exit":
				ex.Obl("subscription", "exit")
				subOn.exit(s)
				why, _ := s.cellOr("w.why").Str()
				switch {
				case why == "frame":
					if cmd := s.cmd(s.cells["w.f"]); cmd != "RECEIPT" && cmd != "ERROR" {
						bad("early", "the goroutine of a subscription may end on a %s frame: the next frame for it blocks the I/O goroutine forever", cmd)
					}
				case why == "other":
					bad("early", "the goroutine of a subscription may end while frames for it still arrive: the next one blocks the I/O goroutine forever")
				}
				if len(s.locks) > 0 {
					ex.Bad(s, "mutexes", "subscription", e.Instr, "the goroutine of a subscription ends without letting go of a mutex")
				}
			}
		}}, func(ex *Exec) {
			pin = &pinned{values: m, types: map[string]types.Type{}}
			for k := range m {
				pin.types[k] = a.subFields()[k]
			}
			pin.conf(ex)
			ex.Opts.Once = func(s *State, addr *T) bool {
				return addr.K == KFldAddr && addr.A[0] == subOf(s, loop) && c.onlyBy(addr.S, loop)
			}
		}, nil, func(s *State) {
			pin.base = subOf(s, loop)
			pin.init(s)
		})
	}
	subOn.final(c)
	c.Need("channels that announce the end of a subscription", len(subOn.all), 1)

	// the operations
	waits := 0
	type cas struct {
		addr, instr string
		old         *T
	}
	var guards []cas
	sets := map[string][]string{} // atomic field -> what it is set to
	for _, f := range c.exportedMethods("Conn", "Subscription", "Transaction") {
		f := f
		name := c.p.FuncName(f)
		c.Explore(name, f, &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			bad := func(k, format string, args ...interface{}) {
				ex.Bad(s, "waits", name+" "+k, e.Instr, format, args...)
			}
			other(s, e, "operation "+name)
			if e.Kind == "send" && e.Name == a.writeCh {
				s.cells["w.req"] = s.cellOr("none")
				if fr := a.requestFrame(s, e.Args[1]); fr != nil {
					s.cells["w.req"] = fr
				}
				ch := a.requestChan(s, e.Args[1])
				if ch != nil && s.isNil(ch) != 1 {
					ex.Obl("responses", name)
					if s.cells["w.room."+ch.String()] == nil {
						s.cells["w.noroom"] = ch
					}
				}
			}
			locked := func() {
				fr := s.cells["w.req"]
				if len(s.locks) > 0 && fr != nil && s.cmd(fr) != "DISCONNECT" {
					bad("locked", "%s waits for the response with a mutex locked, which keeps all other operations waiting", name)
				}
			}
			ending := func(ch *T) bool { return doneOf.all[ex.chanName(ch)] || subOn.all[ex.chanName(ch)] }
			switch e.Kind {
			case "select":
				if e.Tag != "blocking" {
					return
				}
				waits++
				ex.Obl("waits", name)
				locked()
				ok := false
				ts := selectTypes(e)
				for i, x := range e.Args {
					if e.X[i].IsTrue() {
						continue
					}
					ok = ok || ending(x) || s.timer(x, ts[i])
				}
				if !ok {
					bad("select", "%s may wait forever: nothing wakes it up at the end of the connection, and no timer runs", name)
				}
				if s.cells["w.end"] != nil && s.cells["w.at"] == ex.ts.Str(c.p.Pos(instrPos(e.Instr))) {
					bad("again", "%s goes on waiting after the end of the connection", name)
				}
				s.cells["w.at"] = ex.ts.Str(c.p.Pos(instrPos(e.Instr)))
			case "recvclosed", "recv":
				if doneOf.all[e.Name] {
					s.cells["w.end"] = ex.ts.Int(1)
				}
			case "recvwait":
				waits++
				locked()
				ex.Obl("waits", name)
				var typ types.Type
				if u, ok := e.Instr.(*ssa.UnOp); ok {
					typ = u.X.Type()
				}
				if !ending(e.Args[0]) && !s.timer(e.Args[0], typ) {
					bad("receive", "%s may wait forever: nothing wakes it up at the end of the connection, and no timer runs", name)
				}
			case "atomic":
				if len(e.Args) < 2 {
					return
				}
				_, at := fieldBase(e.Args[0])
				switch {
				case strings.HasPrefix(e.Name, "CompareAndSwap"):
					sets[at] = append(sets[at], e.Args[2].String())
					if e.Res != nil && e.Res.IsTrue() {
						s.cells["w.cas"] = e.Args[0]
						s.cells["w.old"] = e.Args[1]
					}
				case strings.HasPrefix(e.Name, "Store"), strings.HasPrefix(e.Name, "Swap"):
					sets[at] = append(sets[at], e.Args[1].String())
				case strings.HasPrefix(e.Name, "Load"):
				default:
					sets[at] = append(sets[at], "any")
				}
			case "send":
				if e.Tag != "blocking" {
					return
				}
				waits++
				ex.Obl("waits", name)
				if g := s.cells["w.cas"]; g != nil && s.cells["w.sent."+e.Name] == nil && c.room(e.Name) {
					_, at := fieldBase(g)
					guards = append(guards, cas{at, c.p.Pos(instrPos(e.Instr)), s.cells["w.old"]})
					s.cells["w.sent."+e.Name] = g
					return
				}
				if mk := s.cells["w.room."+e.Args[0].String()]; mk != nil && s.cells["w.sent."+e.Args[0].String()] == nil {
					s.cells["w.sent."+e.Args[0].String()] = mk
					return
				}
				bad("send", "%s may wait forever until somebody receives from %s", name, e.Name)
			case "makechan":
				if n, ok := e.Args[0].Int(); ok && n > 0 {
					s.cells["w.room."+e.Res.String()] = e.Res
				}
			case "lock":
				for i, l := range s.locks {
					if i < len(s.locks)-1 && l == e.Args[0] {
						ex.Bad(s, "mutexes", name+" again", e.Instr, "%s locks a mutex that it holds already, and waits forever", name)
					}
				}
			case "go":
				// (a channel for a goroutine that receives from it)
				if e.Fn == loop {
					delete(s.cells, "w.noroom")
				}
			case "exit":
				if s.cells["w.noroom"] != nil {
					ex.Bad(s, "responses", name, e.Instr, "the response to a request of %s has no room: it blocks the I/O goroutine forever if the operation has given up", name)
				}
				ex.Obl("mutexes", name)
				if len(s.locks) > 0 {
					ex.Bad(s, "mutexes", name, e.Instr, "%s may return without letting go of a mutex: the next operation waits forever", name)
				}
			}
		}}, func(ex *Exec) { ex.Opts.Forget = forgetOptions }, nil, nil)
	}
	for _, g := range guards {
		for _, v := range sets[g.addr] {
			if v == g.old.String() || v == "any" {
				c.Fail("waits", "guard "+g.addr, g.instr, "more than one message may be sent here, for which there is no room, because %s may be reset", g.addr)
			}
		}
	}
	c.Need("waits of operations", waits, 6)
	c.NeedObl("reading", 2)
	c.NeedObl("I/O goroutine", 5)
	c.NeedObl("subscription", 2)
	c.NeedObl("mutexes", 10)
	c.NeedObl("responses", 3)
}
