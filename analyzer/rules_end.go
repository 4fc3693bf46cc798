package main

import (
	"strings"
)

func init() {
	register("B05", "Path analysis of the end of a connection: every way in which its goroutine ends, from every state, withdraws each member of the subscription map, announces the disconnect, waits for the dispatcher's release, drains the subscription channel, empties the list of unacknowledged deliveries and closes the socket; the goroutine goes on in no state after a failure; the dispatcher releases the connection once", checkB05)
}

func checkB05(c *Ctx) {
	v := newSrv(c)
	released := c.field("server/client", "Conn", "released", "")
	rw := c.field("server/client", "Conn", "rw", "net.Conn")
	if !v.ok() {
		return
	}
	v.scanRead(nil)
	y := &cycle{v: v}
	one := func(s *State) *T { return s.ex.ts.Int(1) }
	pending := func(s *State, e *Event) {
		if s.cells["e.sub"] != nil {
			s.ex.Bad(s, "withdrawn", "missed", e.Instr, "a subscription of a connection that ends is not withdrawn from its queue or topic")
			delete(s.cells, "e.sub")
		}
	}
	y.end = func(s *State, e *Event) {
		s.ex.Obl("ends", s.ex.where(e.Instr))
	}
	failed := func(s *State, e *Event) {
		if s.cells["x.fail"] != nil {
			s.ex.Bad(s, "ends", "continues", e.Instr, "the connection goes on although it has failed or the client is gone")
		}
	}
	y.idle = failed
	y.accept = func(s *State, f *T, e *Event) { failed(s, e) }
	y.on = func(s *State, e *Event) {
		ex := s.ex
		if s.cells[cellEnd] == nil {
			switch {
			case e.Kind == "recvclosed" && (e.Name == v.readCh || e.Name == v.writeCh || e.Name == v.subCh),
				e.Kind == "write" && e.Tag == "fail" && s.cells[cellF] == nil:
				s.cells["x.fail"] = one(s)
			case e.Kind == "invoke" && strings.HasSuffix(e.Name, ".Close") && fieldIs(e.Args[0], rw):
				ex.Bad(s, "socket", "early", e.Instr, "the socket is closed although the connection goes on")
			}
			return
		}
		switch e.Kind {
		case "range":
			if e.Name != v.subs {
				return
			}
			pending(s, e)
			ex.Obl("withdrawn", e.Tag)
			if s.cells["e.new"] == e.Args[0] {
				ex.Bad(s, "withdrawn", "dropped", e.Instr, "the subscriptions are forgotten before they are withdrawn")
			}
			if e.Tag == "end" {
				s.cells["e.all"] = one(s)
			} else {
				s.cells["e.key"], s.cells["e.sub"] = e.Args[1], e.Args[2]
			}
		case "store":
			if e.Name == v.subs && s.cells["e.all"] == nil {
				s.cells["e.new"] = e.Args[1]
			}
		case "mapdel":
			if e.Name == v.subs && s.cells["e.all"] == nil && e.Args[1] != s.cells["e.key"] {
				ex.Bad(s, "withdrawn", "dropped", e.Instr, "a subscription is forgotten before it is withdrawn")
			}
		case "send":
			if e.Name != v.reqCh {
				return
			}
			op := v.reqOp(s, e.Args[1])
			ex.Obl("request", op)
			switch op {
			case "UnsubscribeOp":
				if sub := c.p.structField(e.Args[1], "Sub"); s.cells["e.sub"] != nil && sub == s.cells["e.sub"] {
					delete(s.cells, "e.sub")
				}
			case "DisconnectedOp":
				if s.cells["e.all"] == nil || s.cells["e.sub"] != nil {
					ex.Bad(s, "request", "early "+op, e.Instr, "the end of the connection is announced before all of its subscriptions are withdrawn")
				}
				if s.cells["e.disc"] != nil {
					ex.Bad(s, "request", "second "+op, e.Instr, "the end of the connection is announced twice")
				}
				if cn := c.p.structField(e.Args[1], "Conn"); cn == nil || cn.K != KAlloc {
					ex.Bad(s, "request", "conn "+op, e.Instr, "the end of another connection is announced")
				}
				s.cells["e.disc"] = one(s)
			case "RequeueOp":
			default:
				ex.Bad(s, "request", op, e.Instr, "a connection that has ended makes a %s request", op)
			}
		case "recvclosed", "recv":
			if e.Name == released {
				if s.cells["e.disc"] == nil {
					ex.Bad(s, "released", "early", e.Instr, "the connection waits for its release before it has announced its end")
				}
				s.cells["e.rel"] = one(s)
			}
			if e.Name == v.subCh && s.cells["e.rel"] != nil {
				delete(s.cells, "e.drained")
			}
		case "default":
			for _, a := range e.Args {
				if ex.chanName(a) == v.subCh && s.cells["e.rel"] != nil {
					s.cells["e.drained"] = one(s)
				}
			}
		case "invoke":
			if strings.HasSuffix(e.Name, ".Close") && fieldIs(e.Args[0], rw) || strings.HasSuffix(e.Name, ".Close") && e.Args[0].String() == "rw" {
				s.cells["e.closed"] = one(s)
			}
		case "exit":
			pending(s, e)
			ex.Obl("cleaned-up", "exit")
			bad := func(k, msg string) { ex.Bad(s, "cleaned-up", k, e.Instr, "a connection ends %s", msg) }
			if s.cells["e.all"] == nil {
				bad("subscriptions", "without withdrawing its subscriptions")
			}
			if s.cells["e.disc"] == nil {
				bad("announce", "without telling the dispatcher")
			}
			if s.cells["e.rel"] == nil {
				bad("release", "while the dispatcher may still hand messages to it")
			} else if s.cells["e.drained"] == nil {
				bad("drain", "without emptying the channel on which messages are handed to it")
			}
			if s.cells["e.closed"] == nil {
				bad("socket", "without closing the socket")
			}
			if cn := v.connTerm(s); cn != nil {
				l := s.peek(s.peek(cn, v.connSubList), v.listField)
				if st := s.lists[l]; !st.known || !st.empty {
					bad("unacknowledged", "without giving back every unacknowledged message")
				}
			} else {
				ex.undecided("connection not found at exit")
			}
		}
	}
	y.explore("connection goroutine", nil)
	c.NeedObl("withdrawn", 2)
	c.NeedObl("request", 3)
	c.NeedObl("cleaned-up", 1)
	c.NeedObl("ends", 1)

	d := &dcycle{v: v}
	d.on = func(s *State, e *Event) {
		ex := s.ex
		if e.Kind != "close" || e.Name != released {
			return
		}
		ex.Obl("release", d.op(s))
		if base, _, ok := e.Args[0].FieldOf(); !ok || base != s.cells["d.Conn"] || d.op(s) != "DisconnectedOp" {
			ex.Bad(s, "release", "wrong", e.Instr, "the dispatcher releases a connection that has not announced its end")
		}
		s.count("released")
	}
	d.done = func(s *State, op string, e *Event) {
		if op != "DisconnectedOp" {
			return
		}
		s.ex.Obl("release", "done")
		if s.counted("released") != 1 {
			s.ex.Bad(s, "release", "missing", e.Instr, "the dispatcher releases a connection that has ended %d times", s.counted("released"))
		}
	}
	v.dispatcher("dispatcher", d, nil)
	c.NeedObl("release", 2)
}

func fieldIs(t *T, name string) bool {
	_, f, ok := t.FieldOf()
	return ok && f == name
}

// connTerm is the connection whose goroutine is explored.
func (v *srv) connTerm(s *State) *T {
	if t := s.cells["conn"]; t != nil {
		return t
	}
	f := s.frames[0]
	for _, p := range f.fn.Params {
		if t := f.env[p]; t != nil && typKey(p.Type()) == "*"+typKeyOf(v.c, "server/client", "Conn") {
			s.cells["conn"] = t
			return t
		}
	}
	for _, p := range f.fn.FreeVars {
		t := f.env[p]
		if t == nil {
			continue
		}
		switch k := "*" + typKeyOf(v.c, "server/client", "Conn"); typKey(p.Type()) {
		case k:
			s.cells["conn"] = t
			return t
		case "*" + k:
			if t = s.heap[t]; t != nil {
				s.cells["conn"] = t
			}
			return t
		}
	}
	return nil
}
