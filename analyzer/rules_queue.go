package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("B07", "Path analysis of the memory storage's operations and of the dispatcher's use of waiting subscriptions: Enqueue appends exactly the given frame to the list registered under the given name, Requeue prepends it, Dequeue removes and returns the front or reports that there is none; subscriptions wait at the back, are taken from the front, and leaving removes exactly the one that leaves, searching to the end", checkB07)
	register("B08", "Key flow in the dispatcher: on every path the map of queues or topics is consulted under exactly the destination of the request, the map of queues if and only if that destination has the queue prefix; everything that the request touches afterwards (waiting list, storage name, topic list) belongs to the object found or registered under that name", checkB08)
	register("B09", "Path analysis of topic requests: subscribing registers the subscription once, leaving removes exactly it, and a broadcast walks the whole list and sends exactly one frame to each element's connection, each time another frame object, never touching one after it has been sent; the connection writes each such frame once", checkB09)
}

func checkB07(c *Ctx) {
	v := newSrv(c)
	lists := c.field("server/queue", "MemoryQueueStorage", "lists", "map[string]*list.List")
	if !v.ok() {
		return
	}
	st := c.p.NamedType("server/queue", "Storage")
	if st == nil {
		c.Undecided("queue.Storage not found")
		return
	}
	iface := st.Underlying().(*types.Interface)
	sc := c.p.Pkgs["server/queue"].Pkg.Scope()
	n := 0
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || !types.Implements(types.NewPointer(tn.Type()), iface) {
			continue
		}
		n++
		for _, op := range []string{"Enqueue", "Requeue", "Dequeue"} {
			m := c.p.Prog.LookupMethod(types.NewPointer(tn.Type()), nil, op)
			if m == nil || len(m.Blocks) == 0 {
				c.Undecided("%s.%s not found", name, op)
				continue
			}
			checkStorageOp(c, name, op, m, lists)
		}
	}
	c.Need("storage implementations", n, 1)
	c.NeedObl("memory", 3)
	v.serveOrder()
}

func checkStorageOp(c *Ctx, name, op string, m *ssa.Function, lists string) {
	what := name + "." + op
	c.Explore(what, m, &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		ts := ex.ts
		q := ts.Param(m.Params[1].Name(), m.Params[1].Type())
		var f *T
		if len(m.Params) > 2 {
			f = ts.Param(m.Params[2].Name(), m.Params[2].Type())
		}
		one := ts.Int(1)
		bad := func(k, format string, args ...interface{}) {
			ex.Bad(s, "memory", what+" "+k, e.Instr, format, args...)
		}
		L := s.cells["L"]
		switch e.Kind {
		case "maplookup", "mapset", "mapdel":
			if e.Name != lists {
				return
			}
			ex.Obl("memory", what+" "+e.Kind)
			if s.val(e.Args[1]) != q {
				bad("key", "the messages of another queue are used")
			}
			switch e.Kind {
			case "maplookup":
				if e.Tag == "present" {
					s.cells["L"] = e.Res
				} else {
					s.cells["absent"] = one
				}
			case "mapset":
				if s.cells["absent"] == nil && e.Args[2] != L {
					bad("replaced", "the stored messages of a queue are replaced")
				}
				if l := s.lists[e.Args[2]]; e.Args[2] != L && !(l.known && l.empty) && s.cells["put"] == nil {
					bad("replaced", "a new queue does not start empty")
				}
				s.cells["L"] = e.Args[2]
				s.cells["stored"] = one
			case "mapdel":
				if L == nil || !s.lists[L].known || !s.lists[L].empty {
					bad("dropped", "the stored messages of a queue are dropped")
				}
				delete(s.cells, "stored")
				s.cells["absent"] = one
			}
		case "store":
			if e.Name == lists {
				bad("dropped", "all stored messages are dropped")
			}
		case "pushback", "pushfront":
			ex.Obl("memory", what+" "+e.Kind)
			if (op == "Enqueue") != (e.Kind == "pushback") || op == "Dequeue" {
				bad("order", "%s puts a message in the wrong place of the queue", op)
			}
			if e.Args[1].Un() != f {
				bad("frame", "%s stores something else than the given message", op)
			}
			if L != nil && e.Args[0] != L {
				bad("list", "%s stores the message in another queue", op)
			}
			if s.cells["put"] != nil {
				bad("twice", "%s stores a message twice", op)
			}
			s.cells["put"] = e.Args[0]
		case "listremove":
			ex.Obl("memory", what+" "+e.Kind)
			if op != "Dequeue" || e.Args[0] != L || s.cells["took"] != nil {
				bad("remove", "%s removes a message that it does not return", op)
			}
			if e.Args[1] != s.cells["front"] {
				bad("order", "the message removed is not the first one")
			}
			s.cells["took"] = e.Args[2].Un()
		case "listfront":
			if e.Args[0] == L && e.Tag != "empty" {
				s.cells["front"] = e.Res
			}
		case "listinit":
			if l := s.lists[e.Args[0]]; s.cells["put"] != nil || e.Args[0] == L {
				_ = l
				bad("dropped", "the stored messages of a queue are dropped")
			}
		case "exit":
			ex.Obl("memory", what+" result")
			if op != "Dequeue" {
				switch {
				case s.cells["put"] == nil || s.cells["put"] != L:
					bad("result", "%s does not store the message under the name of its queue", op)
				case s.cells["absent"] != nil && s.cells["stored"] == nil:
					bad("result", "%s stores the message in a list that is not registered", op)
				case len(e.Args) > 0 && s.isNil(e.Args[0]) != 1:
					bad("result", "%s reports an error although it has stored the message", op)
				}
				return
			}
			if len(e.Args) != 2 {
				ex.undecided("unexpected results of " + what)
				return
			}
			if s.isNil(e.Args[1]) != 1 {
				bad("result", "Dequeue reports an error")
			}
			empty := s.cells["absent"] != nil || L != nil && s.lists[L].known && s.lists[L].empty
			if t := s.cells["took"]; t != nil {
				if e.Args[0].Un() != t {
					bad("result", "Dequeue does not return the message that it has removed")
				}
			} else if s.isNil(e.Args[0]) != 1 {
				bad("result", "Dequeue returns a message that stays in the queue")
			} else if !empty {
				bad("result", "Dequeue finds no message although there may be one")
			}
		}
	}}, func(ex *Exec) {
		ex.Opts.LoadHook = func(s *State, addr, val *T, in ssa.Instruction) []*State {
			if addr.K == KFldAddr && addr.S == "container/list.Element.Value" {
				s.assume(ex.ts.Bin(eqTok, val, ex.ts.Nil(), nil), false)
			}
			return nil
		}
	}, nil, nil)
}

// elemOf returns the list element that a value was taken from.
func elemOf(t *T) *T {
	if t == nil {
		return nil
	}
	t = t.Un()
	if b, f, ok := t.FieldOf(); ok && f == "container/list.Element.Value" {
		return b
	}
	if t.IsApp("elem") {
		return t.A[0]
	}
	return nil
}

// scanRemove decides that a search through a list removes exactly the subscription that leaves.
func (v *srv) scanRemove(s *State, e *Event, rule, list string) {
	ex := s.ex
	sub := s.cells["d.Sub"]
	bad := func(k, format string, args ...interface{}) {
		ex.Bad(s, rule, "UnsubscribeOp "+k, e.Instr, format, args...)
	}
	equal := func(el *T) int {
		x := s.elemValue(el, e.Instr).Un()
		if x == sub {
			return 1
		}
		return s.eval(ex.ts.Bin(eqTok, x, sub, nil))
	}
	move := func() {
		if el := s.cells["c.el"]; el != nil && s.cells["c.removed"] == nil && equal(el) != -1 {
			bad("missed", "leaving overlooks a registered subscription")
		}
	}
	switch e.Kind {
	case "listlen", "listfront":
		if e.Name != list {
			return
		}
		if e.Tag == "empty" {
			s.cells["c.scanned"] = ex.ts.Int(1)
		} else if e.Kind == "listfront" && e.Res != s.cells["c.el"] {
			move()
			s.cells["c.el"] = e.Res
		}
	case "listnext":
		if s.cells["c.el"] == nil || e.Args[0] != s.cells["c.el"] {
			return
		}
		if e.Res.IsNil() {
			s.cells["c.last"] = ex.ts.Int(1)
		} else {
			move()
			s.cells["c.el"] = e.Res
		}
	case "listremove":
		if e.Name != list {
			return
		}
		ex.Obl(rule, "UnsubscribeOp remove")
		x := e.Args[2]
		if x != sub && s.eval(ex.ts.Bin(eqTok, x, sub, nil)) != 1 {
			bad("other", "leaving removes another subscription")
		}
		s.cells["c.removed"] = ex.ts.Int(1)
	case "pushback", "pushfront", "listinit":
		if e.Name == list {
			bad("changed", "leaving changes the registered subscriptions in another way")
		}
	}
}

func (v *srv) scanDone(s *State, e *Event, rule string) {
	ex := s.ex
	ex.Obl(rule, "UnsubscribeOp done")
	if s.cells["c.removed"] != nil || s.cells["c.scanned"] != nil {
		return
	}
	el := s.cells["c.el"]
	if el == nil || s.cells["c.last"] == nil || s.eval(ex.ts.Bin(eqTok, s.elemValue(el, e.Instr).Un(), s.cells["d.Sub"], nil)) != -1 {
		ex.Bad(s, rule, "UnsubscribeOp done", e.Instr, "leaving does not search all registered subscriptions")
	}
}

// serveOrder checks the order in which the dispatcher serves the subscriptions that wait for a queue.
func (v *srv) serveOrder() {
	d := &dcycle{v: v}
	d.on = func(s *State, e *Event) {
		ex := s.ex
		op := d.op(s)
		if op == "UnsubscribeOp" {
			if v.isQueue(s) != -1 {
				v.scanRemove(s, e, "waiting", v.listField)
			}
			return
		}
		switch e.Kind {
		case "storage":
			if e.Name != "Enqueue" && e.Name != "Requeue" {
				return
			}
			ex.Obl("place", op+" "+e.Name)
			if op != e.Name+"Op" {
				ex.Bad(s, "place", op+" "+e.Name, e.Instr, "%s stores its message at the wrong end of the queue (%s)", op, e.Name)
			}
		case "listfront":
			if e.Name == v.listField && e.Tag != "empty" {
				s.cells["c.front"] = e.Res
			}
		case "listremove":
			if e.Name != v.listField {
				return
			}
			ex.Obl("waiting", op+" take")
			if e.Args[1] != s.cells["c.front"] {
				ex.Bad(s, "waiting", op+" take", e.Instr, "the subscription that is served has not waited longest")
			}
		case "pushback", "pushfront":
			if e.Name != v.listField {
				return
			}
			ex.Obl("waiting", op+" wait")
			if e.Kind == "pushfront" {
				ex.Bad(s, "waiting", op+" wait", e.Instr, "a subscription is put before those that have waited longer")
			}
		}
	}
	d.done = func(s *State, op string, e *Event) {
		if op == "UnsubscribeOp" && v.isQueue(s) == 1 {
			v.scanDone(s, e, "waiting")
		}
	}
	v.dispatcher("dispatcher", d, v.opaqueStorage)
	v.c.NeedObl("waiting", 3)
	v.c.NeedObl("place", 2)
}

func checkB08(c *Ctx) {
	v := newSrv(c)
	queues := c.field("server/queue", "Manager", "queues", "map[string]*queue.Queue")
	topics := c.field("server/topic", "Manager", "topics", "map[string]*topic.Topic")
	qDest := c.field("server/queue", "Queue", "destination", "string")
	qSubs := c.field("server/queue", "Queue", "subs", "*client.SubscriptionList")
	tSubs := c.field("server/topic", "Topic", "subs", "*list.List")
	if !v.ok() {
		return
	}
	dest := func(s *State) *T {
		if d := s.cells["d.dest"]; d != nil {
			return s.val(d)
		}
		if sub := s.cells["d.Sub"]; sub != nil && s.isNil(sub) == -1 {
			return s.val(s.peek(sub, v.subDest))
		}
		return nil
	}
	d := &dcycle{v: v}
	d.on = func(s *State, e *Event) {
		ex := s.ex
		op := d.op(s)
		bad := func(k, format string, args ...interface{}) {
			ex.Bad(s, "destination", op+" "+k, e.Instr, format, args...)
		}
		own := func(k string, l *T) {
			ex.Obl("destination", op+" "+k+" "+e.Kind)
			o := s.cells["c.obj"]
			var want *T
			if o != nil && k == "queue" {
				want = s.peek(s.peek(o, qSubs), v.listField)
			} else if o != nil {
				want = s.peek(o, tSubs)
			}
			if l != want {
				bad(k+" "+e.Kind, "the %s touched is not the one of the destination", k)
			}
		}
		switch e.Kind {
		case "maplookup", "mapset", "mapdel":
			k, want := "", 0
			switch e.Name {
			case queues:
				k, want = "queue", 1
			case topics:
				k, want = "topic", -1
			default:
				return
			}
			ex.Obl("destination", op+" "+k+" "+e.Kind)
			if e.Kind == "mapdel" {
				bad(k+" mapdel", "a %s is forgotten", k)
				return
			}
			if dd := dest(s); dd == nil || s.val(e.Args[1]) != dd {
				bad(k+" key", "a %s is looked up or created under another name than the destination of the request", k)
			}
			if v.isQueue(s) != want {
				bad(k+" kind", "a destination is handled as a %s although it may not be one", k)
			}
			s.cells["c."+k] = ex.ts.Int(1)
			switch {
			case e.Kind == "maplookup" && e.Tag == "present":
				s.cells["c.obj"] = e.Res
				if k == "queue" {
					// queues are registered under their own name (checked when they are)
					s.heap[ex.ts.FldAddr(e.Res, qDest, nil)] = e.Args[1]
				}
			case e.Kind == "maplookup":
				s.cells["c.absent"] = ex.ts.Int(1)
			case e.Kind == "mapset":
				if s.cells["c.absent"] == nil {
					bad(k+" replaced", "a %s is replaced by a new one", k)
				}
				x := e.Args[2]
				if x.K != KAlloc || x.Sum {
					bad(k+" shared", "two destinations share a %s", k)
				}
				if k == "queue" && s.val(s.peek(x, qDest)) != s.val(e.Args[1]) {
					bad(k+" name", "a queue is registered under another name than its own")
				}
				s.cells["c.obj"], s.cells["c.set"] = x, ex.ts.Int(1)
			}
		case "store":
			if e.Name == queues || e.Name == topics {
				bad("reset", "all destinations are forgotten")
			}
		case "storage":
			if len(e.Args) == 0 {
				return
			}
			ex.Obl("destination", op+" storage "+e.Name)
			if dd := dest(s); dd == nil || s.val(e.Args[0]) != dd {
				bad("storage "+e.Name, "the storage is used for another queue (%s) than the destination of the request", e.Args[0])
			}
		case "pushback", "pushfront", "listremove", "listfront", "listlen":
			switch e.Name {
			case v.listField:
				own("queue", e.Args[0])
			case tSubs:
				own("topic", e.Args[0])
			}
		}
	}
	d.done = func(s *State, op string, e *Event) {
		ex := s.ex
		if op == "ConnectedOp" || op == "DisconnectedOp" {
			return
		}
		ex.Obl("destination", op+" done")
		q, t := s.cells["c.queue"] != nil, s.cells["c.topic"] != nil
		bad := func(k, format string, args ...interface{}) {
			ex.Bad(s, "destination", op+" "+k, e.Instr, format, args...)
		}
		switch v.isQueue(s) {
		case 1:
			if !q {
				bad("queue ignored", "a request for a queue does not reach it")
			}
		case -1:
			if !t && op != "RequeueOp" {
				bad("topic ignored", "a request for a topic does not reach it")
			}
		default:
			bad("undecided", "a request is handled without looking whether its destination is a queue")
		}
		if s.cells["c.absent"] != nil && s.cells["c.set"] == nil && op != "UnsubscribeOp" {
			bad("unregistered", "a new destination is not remembered")
		}
	}
	v.dispatcher("dispatcher", d, v.opaqueStorage)
	c.NeedObl("destination", 6)
}

func checkB09(c *Ctx) {
	v := newSrv(c)
	tSubs := c.field("server/topic", "Topic", "subs", "*list.List")
	if !v.ok() {
		return
	}
	one := func(s *State) *T { return s.ex.ts.Int(1) }
	same := func(s *State, x, y *T) bool {
		return x != nil && y != nil && (x == y || s.eval(s.ex.ts.Bin(eqTok, x, y, nil)) == 1)
	}
	d := &dcycle{v: v}
	d.on = func(s *State, e *Event) {
		ex := s.ex
		op := d.op(s)
		bad := func(k, format string, args ...interface{}) {
			ex.Bad(s, "topic", op+" "+k, e.Instr, format, args...)
		}
		if op == "UnsubscribeOp" {
			v.scanRemove(s, e, "topic", tSubs)
		}
		if e.Kind == "listremove" && e.Name == tSubs && op != "UnsubscribeOp" {
			bad("removed", "a subscription is removed from its topic by a %s request", op)
		}
		if (e.Kind == "pushback" || e.Kind == "pushfront") && e.Name == tSubs {
			ex.Obl("topic", op+" register")
			if op != "SubscribeOp" || e.Args[1] != s.cells["d.Sub"] {
				bad("register", "%s registers a subscription with a topic", op)
			}
			s.count("registered")
		}
		if op != "EnqueueOp" {
			if e.Kind == "send" && e.Name == v.writeCh {
				bad("send", "%s sends a message", op)
			}
			return
		}
		f := s.cells["d.Frame"]
		el, nx := s.cells["c.el"], s.cells["c.nx"]
		advance := func() {
			if s.cells["c.sent"] == nil {
				bad("skipped", "a broadcast leaves out a subscription")
			}
			s.cells["c.el"] = nx
			delete(s.cells, "c.nx")
			delete(s.cells, "c.sent")
		}
		switch e.Kind {
		case "listlen":
			if e.Name == tSubs && e.Tag != "empty" {
				s.cells["c.len"] = e.Res
			} else if e.Name == tSubs {
				s.cells["c.none"] = one(s)
			}
		case "listfront":
			if e.Name != tSubs {
				return
			}
			if e.Tag == "empty" {
				s.cells["c.none"] = one(s)
				return
			}
			if el != nil && el != e.Res {
				bad("again", "a broadcast starts over")
			}
			s.cells["c.el"] = e.Res
		case "listback":
			if e.Name == tSubs && e.Tag == "empty" {
				s.cells["c.none"] = one(s)
			} else if e.Name == tSubs {
				s.cells["c.back"] = e.Res
			}
		case "listnext":
			switch {
			case el != nil && e.Args[0] == el:
			case nx != nil && e.Args[0] == nx:
				advance()
			default:
				return
			}
			if e.Res.IsNil() {
				s.cells["c.last"] = one(s)
			} else {
				s.cells["c.nx"] = e.Res
			}
		case "clone":
			if e.Args[0] == f {
				ex.Obl("topic", "copy")
				if s.cells["c.orig"] != nil {
					bad("reused", "a message is copied after it has been handed to a connection")
				}
				s.cells["c.copy"] = e.Res
			}
		case "hdrset", "hdrget", "hdradd", "hdrdel":
			if s.cells["c.orig"] != nil && e.Args[0] == s.hdrOf(f) {
				bad("reused", "a message is used after it has been handed to a connection")
			}
		case "send":
			if e.Name != v.writeCh {
				return
			}
			ex.Obl("topic", "send")
			var to *T
			if cn, _, ok := e.Args[0].FieldOf(); ok {
				if sub, fl, ok := cn.FieldOf(); ok && fl == v.subConn {
					to = elemOf(sub)
				}
			}
			switch {
			case same(s, to, el) && s.cells["c.sent"] == nil:
			case same(s, to, el):
				bad("twice", "a broadcast sends a message twice to a subscription")
			case same(s, to, nx):
				advance()
			default:
				bad("other", "a message is sent to a subscription that is not registered (%s)", e.Args[0])
			}
			s.cells["c.sent"] = one(s)
			switch x := e.Args[1]; {
			case x == f:
				if s.cells["c.orig"] != nil {
					bad("shared", "two subscriptions get the same frame")
				}
				s.cells["c.orig"] = one(s)
			case x == s.cells["c.copy"]:
				delete(s.cells, "c.copy")
			default:
				bad("frame", "a subscription gets something else than a new copy of the message (%s)", x)
			}
		}
	}
	d.done = func(s *State, op string, e *Event) {
		ex := s.ex
		bad := func(k, format string, args ...interface{}) {
			ex.Bad(s, "topic", op+" "+k, e.Instr, format, args...)
		}
		if v.isQueue(s) != -1 {
			return
		}
		switch op {
		case "SubscribeOp":
			ex.Obl("topic", op+" done")
			if n := s.counted("registered"); n != 1 {
				bad("done", "a subscription is registered %d times with its topic", n)
			}
		case "UnsubscribeOp":
			v.scanDone(s, e, "topic")
		case "EnqueueOp":
			ex.Obl("topic", op+" done")
			if s.cells["c.none"] != nil {
				return
			}
			single := false
			if l := s.cells["c.len"]; l != nil {
				k, ok := s.val(l).Int()
				single = ok && k == 1
			}
			if s.cells["c.el"] == nil || s.cells["c.sent"] == nil || s.cells["c.nx"] != nil || s.cells["c.last"] == nil && !single && !(same(s, s.cells["c.el"], s.cells["c.back"])) {
				bad("done", "a broadcast may leave out subscriptions")
			}
		}
	}
	v.dispatcher("dispatcher", d, nil)
	c.NeedObl("topic", 4)

	// the connection writes what it is given
	v.scanRead(nil)
	y := &cycle{v: v}
	settle := func(s *State, e *Event) {
		if s.cells["w.frame"] == nil {
			return
		}
		s.ex.Obl("written", "topic frame")
		if n := s.cells["w.n"]; n == nil || n != s.ex.ts.Int(1) {
			s.ex.Bad(s, "written", "topic frame", e.Instr, "a message for the client is not written exactly once")
		}
		delete(s.cells, "w.frame")
		delete(s.cells, "w.n")
	}
	y.idle, y.end = settle, settle
	y.accept = func(s *State, f *T, e *Event) { settle(s, e) }
	y.on = func(s *State, e *Event) {
		switch e.Kind {
		case "recv":
			if e.Name == v.writeCh && s.cells[cellEnd] == nil {
				settle(s, e)
				s.cells["w.frame"] = e.Res
			}
		case "write":
			if f := s.cells["w.frame"]; f != nil && e.Args[1] == f {
				n := int64(1)
				if s.cells["w.n"] != nil {
					n = 2
				}
				s.cells["w.n"] = s.ex.ts.Int(n)
			}
		}
	}
	y.explore("connection goroutine", nil)
	c.NeedObl("written", 1)
}
