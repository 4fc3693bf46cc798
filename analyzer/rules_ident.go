package main

import (
	"go/token"
	"go/types"
)

func init() {
	register("B11", "Header flow and list search: on every path, a message that the connection writes has been given a message-id made from a counter that has grown since the last one, an ack header with that value exactly if its subscription needs acknowledgements (which then remembers the counter), and otherwise the destination and subscription headers it had; the dispatcher sets the subscription header to the id of the subscription it hands the message to; an acknowledgement compares the number in the header prescribed by the protocol version with every unacknowledged message, to the end of the list, and removes exactly the ones it covers", checkB11)
}

func checkB11(c *Ctx) {
	v := newSrv(c)
	last := c.field("server/client", "Conn", "lastMsgId", "uint64")
	if !v.ok() {
		return
	}
	v.scanRead(nil)
	one := func(s *State) *T { return s.ex.ts.Int(1) }

	x := &cycle{v: v}
	y := &cycle{v: v}
	// the frame that an acknowledgement is about
	ackFrame := func(s *State) *T {
		if x := s.cells["c.inner"]; x != nil {
			return x
		}
		return s.cells[cellF]
	}
	ackCmd := func(s *State) string {
		if s.cells["c.inner"] != nil {
			if t := s.cells["c.innercmd"]; t != nil {
				m, _ := s.val(t).Str()
				return m
			}
			return ""
		}
		return s.fcmd()
	}
	covers := func(s *State, sub *T) int {
		ex := s.ex
		n := s.cells["c.num"]
		if n == nil {
			return 0
		}
		id := s.val(s.peek(sub, v.subMsg))
		n = s.val(n)
		eq := s.eval(ex.ts.Bin(eqTok, n, id, types.Typ[types.Bool]))
		lt := s.eval(ex.ts.Bin(token.LSS, n, id, types.Typ[types.Bool]))
		if ackCmd(s) == "NACK" {
			return eq
		}
		mode, _ := s.val(s.peek(sub, v.subAck)).Str()
		switch mode {
		case "client":
			return -lt
		case "client-individual":
			return eq
		case "auto":
			return 2 // such a subscription is never in the list
		}
		if eq == 1 {
			return 1
		}
		if lt == 1 {
			return -1
		}
		return 0
	}
	bad := func(s *State, e *Event, k, format string, args ...interface{}) {
		s.ex.Bad(s, "acknowledged", ackCmd(s)+" "+k, e.Instr, format, args...)
	}
	decide := func(s *State, e *Event) {
		el := s.cells["c.el"]
		if el != nil && s.cells["c.took"] == nil && s.cells["c.passed"] == nil {
			if r := covers(s, s.elemValue(el, e.Instr).Un()); r == -1 || r == 2 {
				s.cells["c.passed"] = one(s)
			}
		}
	}
	judge := func(s *State, e *Event) {
		el := s.cells["c.el"]
		if el == nil || s.cells["c.took"] != nil {
			return
		}
		decide(s, e)
		s.ex.Obl("acknowledged", ackCmd(s)+" kept")
		if s.cells["c.passed"] == nil {
			bad(s, e, "kept", "a message that the acknowledgement may cover stays unacknowledged")
		}
	}
	advance := func(s *State, e *Event) {
		judge(s, e)
		s.cells["c.el"] = s.cells["c.nx"]
		delete(s.cells, "c.nx")
		delete(s.cells, "c.took")
		delete(s.cells, "c.passed")
	}
	finish := func(s *State, e *Event) {
		m := ackCmd(s)
		if m != "ACK" && m != "NACK" {
			return
		}
		if s.cells["c.inner"] == nil && s.cells["c.stored"] != nil {
			return
		}
		s.ex.Obl("acknowledged", m+" searched")
		if s.cells["c.none"] == nil {
			if s.cells["c.nx"] != nil {
				advance(s, e)
			}
			if s.cells["c.el"] == nil || s.cells["c.last"] == nil {
				bad(s, e, "searched", "%s does not search all unacknowledged messages", m)
			} else {
				judge(s, e)
			}
		}
		for _, k := range []string{"el", "nx", "last", "none", "took", "passed", "num", "stored", "inner", "innercmd"} {
			delete(s.cells, "c."+k)
		}
	}
	drop := func(s *State, e *Event) {
		delete(s.cells, "m.frame")
		delete(s.cells, "m.sub")
	}
	x.accept = func(s *State, f *T, e *Event) { drop(s, e) }
	x.idle, x.end = drop, drop
	x.on = func(s *State, e *Event) {
		ex := s.ex
		ts := ex.ts
		// message identity
		switch e.Kind {
		case "store":
			if e.Name == last {
				ex.Obl("counter", ex.where(e.Instr))
				x, old := e.Args[1], e.X[0]
				ok := false
				if n, isInt := x.Int(); isInt && old != nil {
					m, isInt := old.Int()
					ok = isInt && n > m
				} else if x.IsApp("+") && len(x.A) == 2 {
					for i := range x.A {
						k, isInt := x.A[1-i].Int()
						ok = ok || isInt && k > 0 && x.A[i] == old
					}
				}
				if !ok {
					ex.Bad(s, "counter", "step "+ex.where(e.Instr), e.Instr, "the counter behind the message-ids does not grow (%s)", x)
				}
				s.cells["m.fresh"] = one(s)
			}
		case "recv":
			if e.Name == v.subCh || e.Name == v.writeCh {
				s.cells["m.frame"] = e.Res
				delete(s.cells, "m.sub")
				if e.Name == v.subCh {
					s.cells["m.sub"] = e.Res
					s.cells["m.frame"] = s.peek(e.Res, v.subFrame)
				}
				return
			}
		case "hdrset", "hdradd", "hdrdel":
			f := s.cells["m.frame"]
			if f == nil || e.Args[0] != s.hdrOf(f) {
				return
			}
			if k, _ := e.Args[1].Str(); k == "destination" || k == "subscription" {
				ex.Bad(s, "identified", k, e.Instr, "the %s header of a message is changed", k)
			}
		case "write":
			f := s.cells["m.frame"]
			if f == nil || e.Args[1] != f {
				return
			}
			if m := s.cmd(f); m != "MESSAGE" && m != "" || s.eval(ts.Bin(eqTok, s.cmdOf(f), ts.Str("MESSAGE"), nil)) == -1 {
				return
			}
			kind, sub := "topic", s.cells["m.sub"]
			if sub != nil {
				kind = "queue"
			}
			ex.Obl("identified", kind)
			ib := func(k, format string, args ...interface{}) {
				ex.Bad(s, "identified", kind+" "+k, e.Instr, format, args...)
			}
			p, id := s.hdrOfFrame(f, "message-id")
			var cnt *T
			if cn := v.connTerm(s); cn != nil {
				cnt = s.peek(cn, last)
			}
			if p != 1 || cnt == nil || !isDecimalOf(id, cnt) {
				ib("message-id", "a message is written without a message-id made from the counter")
				return
			}
			if s.cells["m.fresh"] == nil {
				ib("again", "two messages get the same message-id")
			}
			delete(s.cells, "m.fresh")
			needs := 0
			if sub == nil {
				needs = -1
			} else if a, ok := s.val(s.peek(sub, v.subAck)).Str(); ok {
				needs = 1
				if a == "auto" {
					needs = -1
				}
			}
			ap, ack := s.hdrOfFrame(f, "ack")
			switch {
			case needs == 0:
				ib("ack", "a message is written without looking whether it needs an acknowledgement")
			case needs == 1 && (ap != 1 || ack != id):
				ib("ack", "a message that needs an acknowledgement is written without an ack header that names it")
			case needs == -1 && ap != -1:
				ib("ack", "a message that needs no acknowledgement may be written with an ack header")
			}
			if needs == 1 && s.val(s.peek(sub, v.subMsg)) != s.val(cnt) {
				ib("msgId", "a subscription does not remember the id of the message that it has to acknowledge")
			}
		}
		if e.Kind == "store" && e.Name == v.subMsg && s.cells["m.sub"] != e.Args[0] && e.Args[0].K != KAlloc {
			ex.Bad(s, "identified", "msgId "+ex.where(e.Instr), e.Instr, "the id of an unacknowledged message is changed")
		}
	}
	x.explore("connection goroutine, messages", nil)
	c.NeedObl("identified", 2)
	c.NeedObl("counter", 1)

	y.accept = func(s *State, f *T, e *Event) { finish(s, e) }
	y.on = func(s *State, e *Event) {
		ex := s.ex
		if t := s.cells["c.innercmd"]; t != nil && !t.IsConst() {
			if k := s.val(t); k.IsConst() {
				s.cells["c.innercmd"] = k
			}
		}
		f := s.cells[cellF]
		if f == nil || s.cells[cellEnd] != nil {
			return
		}
		if e.Kind == "call" && s.fcmd() == "COMMIT" && v.isStateFn(e.Fn) && len(e.Args) > 1 && e.Args[1] != f && !v.processing(s, e) {
			finish(s, e)
			s.cells["c.inner"] = e.Args[1]
			s.cells["c.innercmd"] = s.peek(e.Args[1], "frame.Frame.Command")
			return
		}
		if m := ackCmd(s); m != "ACK" && m != "NACK" {
			return
		}
		switch e.Kind {
		case "branch":
			if nx := s.cells["c.nx"]; nx != nil && s.cells["c.el"] != nil && (s.cells["c.took"] != nil || s.cells["c.passed"] != nil) {
				// the code may look at the next one already
				if r := covers(s, s.elemValue(nx, e.Instr).Un()); r != 0 {
					advance(s, e)
				}
			}
			decide(s, e)
		case "pure":
			if e.Name == "strconv.ParseUint" && s.cells["c.num"] == nil {
				v.ackNumber(s, e, ackFrame(s), ackCmd(s))
			}
		case "listlen", "listfront":
			if e.Name != v.listField {
				return
			}
			if e.Tag == "empty" {
				s.cells["c.none"] = one(s)
			} else if e.Kind == "listfront" {
				if s.cells["c.el"] == nil {
					s.cells["c.el"] = e.Res
				} else if e.Res != s.cells["c.el"] {
					ex.undecided("an acknowledgement starts its search over")
				}
			}
		case "listback":
			if e.Name == v.listField {
				ex.undecided("an acknowledgement searches from the back")
			}
		case "listnext":
			el, nx := s.cells["c.el"], s.cells["c.nx"]
			switch {
			case el != nil && e.Args[0] == el:
			case nx != nil && e.Args[0] == nx:
				advance(s, e)
			default:
				return
			}
			if e.Res.IsNil() {
				s.cells["c.last"] = one(s)
			} else {
				s.cells["c.nx"] = e.Res
			}
		case "listremove":
			if e.Name != v.listField {
				return
			}
			if nx := s.cells["c.nx"]; nx != nil && e.Args[1] == nx {
				advance(s, e)
			}
			ex.Obl("acknowledged", ackCmd(s)+" removed")
			if e.Args[1] != s.cells["c.el"] {
				bad(s, e, "removed", "an acknowledgement removes another message than the one it looks at")
				return
			}
			if r := covers(s, e.Args[2].Un()); r != 1 {
				if r == 0 || r == -1 {
					bad(s, e, "removed", "a message is removed although the acknowledgement may not cover it")
				}
			}
			s.cells["c.took"] = one(s)
		case "pushback":
			if e.Args[1].Un() == f {
				s.cells["c.stored"] = one(s)
			}
		}
	}
	y.explore("connection goroutine, acknowledgements", nil)
	c.NeedObl("acknowledged", 4)

	// the dispatcher addresses the message
	d := &dcycle{v: v}
	d.on = func(s *State, e *Event) {
		ex := s.ex
		op := d.op(s)
		var sub, f *T
		switch {
		case e.Kind == "send" && e.Name == v.subCh:
			sub, f = e.Args[1], s.peek(e.Args[1], v.subFrame)
		case e.Kind == "send" && e.Name == v.writeCh:
			f = e.Args[1]
			if cn, _, ok := e.Args[0].FieldOf(); ok {
				if b, fl, ok := cn.FieldOf(); ok && fl == v.subConn {
					sub = b
				}
			}
		case e.Kind == "hdrset" || e.Kind == "hdradd" || e.Kind == "hdrdel":
			if k, _ := e.Args[1].Str(); k == "destination" {
				ex.Bad(s, "addressed", op+" destination", e.Instr, "the dispatcher changes the destination of a message")
			}
			return
		default:
			return
		}
		ex.Obl("addressed", op+" "+e.Name)
		if sub == nil || f == nil {
			ex.Bad(s, "addressed", op, e.Instr, "a message is sent without a subscription that it is for")
			return
		}
		p, x := s.hdrOfFrame(f, "subscription")
		if p != 1 || s.val(x) != s.val(s.peek(sub, v.subID)) {
			ex.Bad(s, "addressed", op, e.Instr, "a message is handed to a subscription without its id in the subscription header")
		}
	}
	v.dispatcher("dispatcher", d, v.opaqueStorage)
	c.NeedObl("addressed", 2)
}

// isDecimalOf recognises the decimal representation of a number.
func isDecimalOf(t, n *T) bool {
	if t == nil {
		return false
	}
	strip := func(x *T) *T {
		for x != nil && (x.K == KIface || x.IsApp("conv")) {
			x = x.A[0]
		}
		return x
	}
	switch {
	case t.IsApp("strconv.FormatUint"), t.IsApp("strconv.FormatInt"):
		k, ok := t.A[1].Int()
		return ok && k == 10 && strip(t.A[0]) == n
	case t.IsApp("strconv.Itoa"):
		return strip(t.A[0]) == n
	}
	return false
}

// ackNumber decides that an acknowledgement is identified by the right header.
func (v *srv) ackNumber(s *State, e *Event, f *T, m string) {
	ex := s.ex
	ts := ex.ts
	x := s.val(e.Args[0])
	which := ""
	for _, k := range []string{"id", "ack", "message-id"} {
		if p, val := s.hdrOfFrame(f, k); p == 1 && s.val(val) == x {
			which = k
		}
	}
	bad := func(format string, args ...interface{}) {
		ex.Bad(s, "acknowledged", m+" names", e.Instr, format, args...)
	}
	if which == "" {
		return
	}
	ex.Obl("acknowledged", m+" names by "+which)
	s.cells["c.num"] = e.Res.A[0]
	cn := v.connTerm(s)
	if cn == nil {
		return
	}
	v12 := s.eval(ts.Bin(eqTok, s.val(s.peek(cn, v.version)), ts.Str("1.2"), nil))
	pid, _ := s.hdrOfFrame(f, "id")
	pack, _ := s.hdrOfFrame(f, "ack")
	switch which {
	case "id":
		if v12 != 1 {
			bad("%s goes by the id header although the version may not be 1.2", m)
		}
	case "message-id", "ack":
		if v12 != -1 && pid != -1 {
			bad("%s goes by the %s header although version 1.2 prescribes the id header", m, which)
		}
		if which == "message-id" && pack == 1 {
			return
		}
	}
}
