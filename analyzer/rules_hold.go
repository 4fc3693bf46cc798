package main

import (
	"go/types"
	"strings"
)

func init() {
	register("B06", "Typestate of the messages held by subscriptions, on every path of the connection goroutine and the dispatcher: whatever takes a message out of its place (receive from the subscription channel, removal from the list of unacknowledged deliveries, dequeue, send or requeue request, removal of a waiting subscription) puts it into exactly one other before the goroutine waits again; a subscription is offered the next message exactly when it has disposed of the last one and is still registered", checkB06)
}

// storage returns the operation if the call is one of the queue storage interface.
func (v *srv) storageOp(ci *CallInfo) string {
	st := v.c.p.NamedType("server/queue", "Storage")
	if st == nil {
		return ""
	}
	iface, ok := st.Underlying().(*types.Interface)
	if !ok {
		return ""
	}
	name := ci.Name[strings.LastIndex(ci.Name, ".")+1:]
	has := false
	for i := 0; i < iface.NumMethods(); i++ {
		has = has || iface.Method(i).Name() == name
	}
	if !has {
		return ""
	}
	if ci.Fn == nil {
		if ci.Call.IsInvoke() && types.Identical(ci.Call.Value.Type().Underlying(), iface) {
			return name
		}
		return ""
	}
	if r := ci.Fn.Signature.Recv(); r != nil && types.Implements(r.Type(), iface) {
		return name
	}
	return ""
}

// opaqueStorage makes every operation of a queue storage a "storage" event with the outcomes that
// its contract allows (Args without the receiver).
func (v *srv) opaqueStorage(ex *Exec) {
	ts := ex.ts
	ex.Opts.Model = func(s *State, ci *CallInfo) ([]*State, bool) {
		op := v.storageOp(ci)
		if op == "" {
			return nil, false
		}
		res := ci.Call.Signature().Results()
		var outs [][]*T
		tags := []string{"ok"}
		mk := func(n *State, i int, what string) *T { return n.fresh("st", ci.Instr, what, res.At(i).Type()) }
		f, er := (*T)(nil), (*T)(nil)
		switch res.Len() {
		case 0:
			outs = [][]*T{nil}
		case 1:
			er = mk(s, 0, ".err")
			outs = [][]*T{{ts.Nil()}, {er}}
			tags = []string{"ok", "error"}
		case 2:
			f, er = mk(s, 0, ".frame"), mk(s, 1, ".err")
			outs = [][]*T{{f, ts.Nil()}, {ts.Nil(), ts.Nil()}, {ts.Nil(), er}}
			tags = []string{"ok", "none", "error"}
		default:
			return nil, false
		}
		var r []*State
		for i, o := range outs {
			n := s
			if i < len(outs)-1 {
				n = s.clone()
			}
			for _, t := range o {
				if !t.IsNil() {
					n.assume(ts.Bin(eqTok, t, ts.Nil(), nil), false)
				}
			}
			var rt *T
			switch len(o) {
			case 1:
				rt = o[0]
			case 2:
				rt = ts.Tuple(o...)
				if o[0] == f && f != nil {
					// stored frames are message frames with a destination (checked where they are stored)
					h := n.hdrOf(f)
					n.header(h).e[ts.Str("destination")] = hdrEntry{true, ts.App("hdr", types.Typ[types.String], h, ts.Str("destination"))}
				}
			}
			n.note(instrPos(ci.Instr), "queue storage: "+op+" "+tags[i])
			e := &Event{Kind: "storage", Name: op, Args: ci.Args[1:], Instr: ci.Instr, Tag: tags[i], X: []*T{ci.Args[0]}}
			if len(o) > 0 {
				e.Res = o[0]
				e.X = append(e.X, o[len(o)-1])
			}
			ex.emit(n, e)
			ex.finish(n, ci.Instr, 0, rt)
			r = append(r, n)
		}
		return r, true
	}
}

func checkB06(c *Ctx) {
	v := newSrv(c)
	if !v.ok() {
		return
	}
	v.scanRead(nil)
	v.holdConn()
	v.holdDispatch()
}

// registered tells whether the subscription is in the connection's map under its id.
func (v *srv) registered(s *State, sub *T) int {
	ex := s.ex
	cn := v.connTerm(s)
	if cn == nil {
		return 0
	}
	m := s.peek(cn, v.subs)
	if m.IsNil() {
		return -1
	}
	id := s.val(s.peek(sub, v.subID))
	switch s.mapKnown(m, id) {
	case -1:
		return -1
	case 1:
		x := s.maps[m][id].val
		if x == sub {
			return 1
		}
		return s.eval(ex.ts.Bin(eqTok, x, sub, nil))
	}
	return 0
}

func (v *srv) holdConn() {
	c := v.c
	y := &cycle{v: v}
	one := func(s *State) *T { return s.ex.ts.Int(1) }
	num := func(s *State, k string) int64 {
		if t := s.cells[k]; t != nil {
			n, _ := t.Int()
			return n
		}
		return 0
	}
	inc := func(s *State, k string) {
		n := num(s, k) + 1
		if n > 3 {
			n = 3
		}
		s.cells[k] = s.ex.ts.Int(n)
	}
	cmd := func(s *State) string {
		if s.cells[cellF] == nil {
			return ""
		}
		if m := s.fcmd(); m != "COMMIT" {
			return m
		}
		if t := s.cells["c.innercmd"]; t != nil {
			m, _ := s.val(t).Str()
			return m
		}
		return ""
	}
	settle := func(s *State, e *Event) {
		sub := s.cells["t.sub"]
		if sub == nil {
			return
		}
		ex := s.ex
		src, _ := s.cells["t.src"].Str()
		m := cmd(s)
		ended := s.cells[cellEnd] != nil && s.cells[cellF] == nil
		written := s.cells["t.written"] != nil
		auto := false
		if a, ok := s.val(s.peek(sub, v.subAck)).Str(); ok && a == "auto" {
			auto = true
		}
		if t := s.cells["t.auto"]; t != nil {
			auto = t.IsTrue()
		}
		req, list, offer := num(s, "t.req"), num(s, "t.list"), num(s, "t.offer")
		kind := src
		if src == "list" {
			kind += " " + m
		}
		ex.Obl("one-place", kind)
		bad := func(k, format string, args ...interface{}) {
			ex.Bad(s, "one-place", kind+": "+k, e.Instr, format, args...)
		}
		if req+list > 1 {
			bad("twice", "a message is put into two places (requeued %d times, listed %d times)", req, list)
		}
		switch {
		case src == "channel" && written && auto:
			if req+list > 0 {
				bad("again", "a message that has been delivered and needs no acknowledgement is kept")
			}
		case src == "channel" && written:
			if req > 0 {
				bad("again", "a message that has been delivered is requeued before it is acknowledged or the connection ends")
			} else if list == 0 {
				bad("lost", "a message that has been delivered is forgotten before it is acknowledged")
			}
		case src == "channel":
			if req+list == 0 {
				bad("lost", "a message handed to the connection is neither delivered nor given back")
			}
			if list > 0 && !ended {
				s.cells["t.stuck"] = one(s)
			}
		case m == "ACK" && !ended:
			if req > 0 {
				bad("again", "an acknowledged message is requeued")
			}
		default:
			if req+list == 0 {
				bad("lost", "an unacknowledged message is removed from its subscription without being requeued")
			}
		}
		// afterwards the subscription gets the next message, if it is still there
		ex.Obl("next-message", kind)
		free := list == 0 && !ended
		switch {
		case offer > 1:
			bad("offered", "a subscription is offered to its queue twice")
		case offer == 1 && !free:
			bad("offered", "a subscription is offered to its queue although it still holds a message")
		case offer == 1 && s.cells["t.reg"] == nil:
			bad("revived", "a subscription that may have been withdrawn is offered to its queue again")
		case offer == 0 && free && v.registered(s, sub) != -1:
			if s.cells["t.gone"] == nil {
				bad("starved", "a subscription that is free again is not offered the next message")
			}
		}
		for _, k := range []string{"sub", "frame", "src", "written", "req", "list", "offer", "reg", "auto", "gone"} {
			delete(s.cells, "t."+k)
		}
	}
	take := func(s *State, e *Event, sub *T, src string) {
		settle(s, e)
		s.cells["t.sub"] = sub
		s.cells["t.frame"] = s.peek(sub, v.subFrame)
		s.cells["t.src"] = s.ex.ts.Str(src)
	}
	y.accept = func(s *State, f *T, e *Event) { settle(s, e) }
	y.reject = y.accept
	y.idle = func(s *State, e *Event) {
		settle(s, e)
		if s.cells["t.stuck"] != nil {
			s.ex.Bad(s, "one-place", "stuck", e.Instr, "a message that has not been delivered waits for its acknowledgement")
			delete(s.cells, "t.stuck")
		}
	}
	y.end = func(s *State, e *Event) { settle(s, e) }
	y.on = func(s *State, e *Event) {
		ex := s.ex
		sub := s.cells["t.sub"]
		if t := s.cells["c.innercmd"]; t != nil && !t.IsConst() {
			if k := s.val(t); k.IsConst() {
				s.cells["c.innercmd"] = k
			}
		}
		if sub != nil {
			// what is found out about the subscription while its message is in hand
			if a, ok := s.val(s.peek(sub, v.subAck)).Str(); ok && s.cells["t.auto"] == nil {
				s.cells["t.auto"] = ex.ts.Bool(a == "auto")
			}
			if s.cells["t.gone"] == nil && v.registered(s, sub) == -1 {
				s.cells["t.gone"] = one(s)
			}
		}
		switch e.Kind {
		case "call":
			if s.cells[cellF] != nil && s.fcmd() == "COMMIT" && v.isStateFn(e.Fn) && len(e.Args) > 1 && e.Args[1] != s.cells[cellF] && !v.processing(s, e) {
				settle(s, e)
				s.cells["c.innercmd"] = s.peek(e.Args[1], "frame.Frame.Command")
			}
		case "recv":
			if e.Name == v.subCh {
				take(s, e, e.Res, "channel")
			}
		case "listremove":
			if e.Name == v.listField {
				take(s, e, e.Args[2], "list")
			}
		case "listinit":
			if e.Name == v.listField {
				if st := s.lists[e.Args[0]]; !st.known || !st.empty {
					ex.Bad(s, "one-place", "cleared", e.Instr, "the unacknowledged messages are forgotten")
				}
			}
		case "pushback", "pushfront":
			if e.Name != v.listField {
				return
			}
			if sub == nil || e.Args[1] != sub {
				ex.Bad(s, "held", "listed "+ex.where(e.Instr), e.Instr, "a subscription without a message in hand is put into the list of unacknowledged messages")
				return
			}
			if s.peek(sub, v.subFrame) != s.cells["t.frame"] {
				ex.Bad(s, "held", "frame "+ex.where(e.Instr), e.Instr, "a subscription is put into the list of unacknowledged messages with another message")
			}
			inc(s, "t.list")
		case "write":
			if sub != nil && e.Args[1] == s.cells["t.frame"] {
				ex.Obl("delivered", e.Tag)
				if s.cells["t.written"] != nil || num(s, "t.req") > 0 {
					ex.Bad(s, "delivered", "twice", e.Instr, "a message is written twice, or after it has been requeued")
				}
				if e.Tag == "ok" {
					s.cells["t.written"] = one(s)
					if src, _ := s.cells["t.src"].Str(); src != "channel" {
						ex.Bad(s, "delivered", "again", e.Instr, "an unacknowledged message is written again")
					}
					if s.cells["t.gone"] != nil {
						ex.Bad(s, "delivered", "gone", e.Instr, "a message is delivered for a subscription that has been withdrawn")
					} else if v.registered(s, sub) != 1 {
						ex.Bad(s, "delivered", "maybe gone", e.Instr, "a message is delivered for a subscription that may have been withdrawn")
					}
				}
			}
		case "send":
			if e.Name != v.reqCh {
				return
			}
			op := v.reqOp(s, e.Args[1])
			switch op {
			case "RequeueOp":
				ex.Obl("held", "requeue "+ex.where(e.Instr))
				if fr := c.p.structField(e.Args[1], "Frame"); sub == nil || fr != s.cells["t.frame"] {
					ex.Bad(s, "held", "requeue "+ex.where(e.Instr), e.Instr, "a message is requeued that is not in hand (%s)", fr)
					return
				}
				inc(s, "t.req")
			case "SubscribeOp":
				x := c.p.structField(e.Args[1], "Sub")
				if sub != nil && x == sub {
					inc(s, "t.offer")
					if v.registered(s, x) == 1 {
						s.cells["t.reg"] = one(s)
					}
				} else if !(cmd(s) == "SUBSCRIBE" && x.K == KAlloc) {
					ex.Bad(s, "next-message", "other", e.Instr, "a subscription that has not just disposed of a message is offered to its queue")
				}
			}
		case "exit":
			settle(s, e)
		}
	}
	y.explore("connection goroutine", nil)
	c.NeedObl("one-place", 4)
	c.NeedObl("held", 2)
	c.NeedObl("delivered", 2)
}

func (v *srv) holdDispatch() {
	c := v.c
	qn := c.p.NamedType("server/queue", "Storage")
	if qn == nil {
		c.Undecided("queue.Storage not found")
		return
	}
	one := func(s *State) *T { return s.ex.ts.Int(1) }
	d := &dcycle{v: v}
	d.on = func(s *State, e *Event) {
		ex := s.ex
		op := d.op(s)
		switch e.Kind {
		case "storage":
			switch e.Name {
			case "Enqueue", "Requeue":
				ex.Obl("dispatch", op+" "+e.Name)
				f := e.Args[len(e.Args)-1]
				switch {
				case op+"Op" == e.Name+"OpOp" && f == s.cells["d.Frame"]:
				case f == s.cells["c.deq"]:
				default:
					ex.Bad(s, "dispatch", op+" "+e.Name, e.Instr, "%s makes the dispatcher %s a message", op, strings.ToLower(e.Name))
				}
				if s.cells["c.nosub"] == nil {
					ex.Bad(s, "dispatch", op+" waiting", e.Instr, "a message is stored although a subscription may be waiting for it")
				}
				s.count("place")
			case "Dequeue":
				ex.Obl("dispatch", op+" "+e.Name)
				if s.cells["c.deq"] != nil {
					ex.Bad(s, "dispatch", op+" twice", e.Instr, "a second message is taken from the queue for one request")
				}
				if op != "SubscribeOp" {
					ex.Bad(s, "dispatch", op+" Dequeue", e.Instr, "%s takes a message from the queue", op)
				}
				switch e.Tag {
				case "ok":
					s.cells["c.deq"] = e.Res
				case "none":
					s.cells["c.none"] = one(s)
				default:
					s.cells["c.err"] = one(s)
				}
			}
		case "listlen", "listfront":
			if e.Name == v.listField && e.Tag == "empty" {
				s.cells["c.nosub"] = one(s)
			}
		case "listremove":
			if e.Name != v.listField {
				return
			}
			ex.Obl("dispatch", op+" remove")
			if op == "UnsubscribeOp" {
				if s.eval(ex.ts.Bin(eqTok, e.Args[2], s.cells["d.Sub"], nil)) != 1 {
					ex.Bad(s, "dispatch", op+" remove", e.Instr, "another subscription than the one that unsubscribes is removed")
				}
				return
			}
			if s.cells["c.sub"] != nil {
				ex.Bad(s, "dispatch", op+" subs", e.Instr, "two waiting subscriptions are taken for one message")
			}
			s.cells["c.sub"] = e.Args[2]
		case "listinit":
			if e.Name == v.listField {
				ex.Bad(s, "dispatch", op+" clear", e.Instr, "waiting subscriptions are forgotten")
			}
		case "pushback", "pushfront":
			if e.Name != v.listField {
				return
			}
			ex.Obl("dispatch", op+" wait")
			switch {
			case e.Args[1] == s.cells["c.sub"]:
				delete(s.cells, "c.sub")
			case op == "SubscribeOp" && e.Args[1] == s.cells["d.Sub"]:
				s.count("wait")
				if s.cells["c.none"] == nil {
					ex.Bad(s, "dispatch", op+" wait", e.Instr, "a subscription waits although there may be a message for it")
				}
			default:
				ex.Bad(s, "dispatch", op+" wait", e.Instr, "%s makes a subscription wait", op)
			}
		case "send":
			if e.Name != v.subCh {
				return
			}
			x := e.Args[1]
			f := s.peek(x, v.subFrame)
			ex.Obl("dispatch", op+" deliver")
			switch op {
			case "EnqueueOp", "RequeueOp":
				if f != s.cells["d.Frame"] {
					ex.Bad(s, "dispatch", op+" deliver", e.Instr, "another message than the one sent is delivered")
				}
				if x != s.cells["c.sub"] {
					ex.Bad(s, "dispatch", op+" to", e.Instr, "a message is delivered to a subscription that is not waiting for one")
				}
				delete(s.cells, "c.sub")
				s.count("place")
			case "SubscribeOp":
				if x != s.cells["d.Sub"] {
					ex.Bad(s, "dispatch", op+" to", e.Instr, "a message is delivered to another subscription")
				}
				if f != s.cells["c.deq"] || f == nil {
					ex.Bad(s, "dispatch", op+" deliver", e.Instr, "a message is delivered that has not been taken from the queue")
				}
				s.count("served")
			default:
				ex.Bad(s, "dispatch", op+" deliver", e.Instr, "%s delivers a message", op)
			}
		}
	}
	d.done = func(s *State, op string, e *Event) {
		ex := s.ex
		bad := func(k, format string, args ...interface{}) {
			ex.Bad(s, "dispatch", op+" "+k, e.Instr, format, args...)
		}
		if s.cells["c.sub"] != nil {
			bad("forgotten", "a waiting subscription is removed from its queue without getting a message")
		}
		queue := v.isQueue(s)
		switch op {
		case "EnqueueOp", "RequeueOp":
			n := s.counted("place")
			ex.Obl("placed", op)
			if queue == 1 && n != 1 {
				bad("placed", "a message sent to a queue is put into %d places", n)
			}
		case "SubscribeOp":
			w, sv := s.counted("wait"), s.counted("served")
			ex.Obl("placed", op)
			switch {
			case s.cells["c.deq"] != nil && sv != 1:
				bad("placed", "a message taken from its queue is delivered %d times", sv)
			case s.cells["c.deq"] != nil && w > 0:
				bad("placed", "a subscription gets a message and waits for another one")
			case s.cells["c.none"] != nil && w != 1:
				bad("placed", "a subscription that finds its queue empty is registered %d times as waiting", w)
			case queue == 1 && s.cells["c.deq"] == nil && s.cells["c.none"] == nil && s.cells["c.err"] == nil:
				bad("placed", "a subscription to a queue neither gets a message nor waits for one")
			}
		}
	}
	v.dispatcher("dispatcher", d, v.opaqueStorage)
	c.NeedObl("dispatch", 4)
	c.NeedObl("placed", 3)
}

// isQueue tells whether the request in process is for a queue, as far as this is known.
func (v *srv) isQueue(s *State) int {
	ts := s.ex.ts
	dest := s.cells["d.dest"]
	if dest == nil {
		if sub := s.cells["d.Sub"]; sub != nil && s.isNil(sub) == -1 {
			dest = s.peek(sub, v.subDest)
		}
	}
	if dest == nil {
		return 0
	}
	return s.eval(ts.App("strings.HasPrefix", types.Typ[types.Bool], s.val(dest), ts.Str("/queue")))
}
