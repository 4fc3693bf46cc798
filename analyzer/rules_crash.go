package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const eqTok = token.EQL

func init() {
	register("B01", "Typestate and nilness dataflow over every path of the connection goroutine, the read goroutine, the dispatcher and the accept loop (inlined over the call graph): no path reaches a panic, a nil dereference, an operation on a closed channel or an element access outside of its bounds; the data invariants that keep panicking statements unreachable (valid acknowledgement modes, a destination on every frame handed to the dispatcher, no subscription in two places at once) are assumed where values are received and checked where they are produced", checkB01)
}

func crashText(e *Event) string {
	switch e.Name {
	case "panic":
		return "reaches panic(" + e.Args[0].String() + ")"
	case "nilderef":
		return "dereferences a nil pointer"
	case "nilcall":
		return "calls a nil function or interface"
	case "nilmap":
		return "stores into a nil map"
	case "sendclosed":
		return "sends on a closed channel"
	case "closeclosed":
		return "closes a closed channel"
	case "closenil":
		return "closes a nil channel"
	}
	return "fails with " + e.Name
}

// crashRule reports crashes, and counts the operations that could crash.
func crashRule(rule string) func(s *State, e *Event) {
	return func(s *State, e *Event) {
		ex := s.ex
		switch e.Kind {
		case "crash":
			ex.Bad(s, rule, ex.where(e.Instr)+" "+e.Name, e.Instr, "a path %s", crashText(e))
		case "send", "close", "mapset", "hdrset", "hdrget", "hdradd":
			ex.Obl(rule, ex.where(e.Instr)+" "+e.Kind)
		case "index":
			ex.Obl(rule, ex.where(e.Instr)+" index")
			if !indexOK(s, e) {
				ex.Bad(s, rule, ex.where(e.Instr)+" index", e.Instr, "index %s of %s is not shown to be within bounds", e.Args[1], e.Args[0])
			}
		}
	}
}

// indexOK decides whether an element access is within bounds.
func indexOK(s *State, e *Event) bool {
	ts := s.ex.ts
	x, i := e.Args[0], e.Args[1]
	if x.K == KAlloc { // array of known size
		return true
	}
	l := ts.App("len", nil, x)
	if n, ok := i.Int(); ok {
		if b := s.bounds(l); b.hasLo && n < b.lo {
			return true
		}
		if x.IsApp("strings.Split") {
			sep, ok := x.A[1].Str()
			if ok && n < int64(minParts(s, x.A[0], sep)) {
				return true
			}
		}
		return false
	}
	if !indexFloor(s, i) {
		return false
	}
	if s.eval(ts.Bin(token.LSS, i, l, nil)) == 1 {
		return true
	}
	b, k := offset(i)
	for b != nil {
		// the length, or the length of what it is a part of
		if lb, lk := offset(l); lb == b {
			return k < lk
		}
		if !l.IsApp("len") || !l.A[0].IsApp("slice") {
			break
		}
		part := l.A[0]
		if lo, ok := part.A[1].Int(); !part.A[1].IsNil() && !(ok && lo == 0) {
			break
		}
		if l = part.A[2]; l.IsNil() {
			l = ts.App("len", nil, part.A[0])
		}
		if s.eval(ts.Bin(token.LSS, i, l, nil)) == 1 {
			return true
		}
	}
	return false
}

// indexFloor decides whether an index is not negative.
func indexFloor(s *State, i *T) bool {
	if b := s.bounds(i); b.hasLo && b.lo >= 0 {
		return true
	}
	t, k := offset(i)
	if t == nil {
		return k >= 0
	}
	if b := s.bounds(t); b.hasLo && b.lo+k >= 0 {
		return true
	}
	first, step, ok := s.ex.loopVar(t)
	return ok && step >= 0 && first+k >= 0
}

func checkB01(c *Ctx) {
	v := newSrv(c)
	if !v.ok() {
		return
	}
	crash := crashRule("no-crash")
	v.scanRead(func(s *State, e *Event) { crash(s, e) })
	n := map[string]int{}
	v.explore("connection goroutine", &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		crash(s, e)
		switch {
		case e.Kind == "store" && e.Name == v.subAck:
			ex.Obl("valid-ack-mode", ex.where(e.Instr))
			n["ack"]++
			m, ok := s.val(e.Args[1]).Str()
			valid := false
			for _, a := range ackModes {
				valid = valid || ok && a == m
			}
			if !valid {
				ex.Bad(s, "valid-ack-mode", ex.where(e.Instr), e.Instr, "a subscription is created with the unchecked acknowledgement mode %s, on which acknowledging panics", e.Args[1])
			}
		case e.Kind == "send" && e.Name == v.reqCh:
			op := v.reqOp(s, e.Args[1])
			if op == "" {
				ex.Bad(s, "request-kind", ex.where(e.Instr), e.Instr, "a request of unknown kind is sent to the dispatcher")
				return
			}
			v.checkRequest(s, e, op, n)
		case e.Kind == "pushback" || e.Kind == "pushfront":
			if e.Name == v.listField {
				ex.Obl("list-member-has-frame", ex.where(e.Instr))
				f := s.peek(e.Args[1], v.subFrame)
				if f == nil || s.isNil(f) != -1 {
					ex.Bad(s, "list-member-has-frame", ex.where(e.Instr), e.Instr, "a subscription without a pending frame is put into the list of unacknowledged subscriptions")
				}
			}
		}
	}}, nil)
	v.dispatcher("dispatcher", &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		crash(s, e)
		switch {
		case (e.Kind == "pushback" || e.Kind == "pushfront") && e.Name == v.listField:
			ex.Obl("waiting-subscription-has-no-frame", ex.where(e.Instr))
			if f := s.peek(e.Args[1], v.subFrame); f == nil || s.isNil(f) != 1 {
				ex.Bad(s, "waiting-subscription-has-no-frame", ex.where(e.Instr), e.Instr, "a subscription that may still have a pending frame waits for the next one")
			}
		case e.Kind == "send" && e.Name == v.subCh:
			ex.Obl("delivered-subscription", ex.where(e.Instr))
			sub := e.Args[1]
			f := s.peek(sub, v.subFrame)
			if f == nil || s.isNil(f) != -1 {
				ex.Bad(s, "delivered-subscription", ex.where(e.Instr), e.Instr, "a subscription is handed to its connection without a frame")
			}
			if l := s.peek(sub, v.subList); l == nil || s.isNil(l) != 1 {
				ex.Bad(s, "delivered-subscription", ex.where(e.Instr), e.Instr, "a subscription is handed to its connection while it is still in a list")
			}
		}
	}}, nil)
	for _, f := range c.entries("server") {
		c.Explore("accept loop", f, &funcRule{on: crash}, func(ex *Exec) {
			ex.Opts.NoInline = func(g *ssa.Function) bool { return g.Package() != f.Package() }
		}, nil, nil)
	}
	c.NeedObl("no-crash", 10)
	c.NeedObl("valid-ack-mode", 1)
	c.NeedObl("dispatcher-request", 5)
	c.NeedObl("list-member-has-frame", 1)
	c.NeedObl("waiting-subscription-has-no-frame", 1)
	c.NeedObl("delivered-subscription", 1)
	c.Need("accept loops", len(c.entries("server")), 1)
}

// checkRequest checks what the dispatcher relies on.
func (v *srv) checkRequest(s *State, e *Event, op string, n map[string]int) {
	ex := s.ex
	r := e.Args[1]
	sub, frm, conn := v.c.p.structField(r, "Sub"), v.c.p.structField(r, "Frame"), v.c.p.structField(r, "Conn")
	name := ex.where(e.Instr) + " " + op
	ex.Obl("dispatcher-request", name)
	bad := func(format string, args ...interface{}) {
		ex.Bad(s, "dispatcher-request", name, e.Instr, format, args...)
	}
	switch op {
	case "SubscribeOp":
		if s.isNil(sub) == 1 {
			bad("a subscribe request without subscription crashes the dispatcher")
			return
		}
		if f := s.peek(sub, v.subFrame); f == nil || s.isNil(f) != 1 {
			bad("a subscription is offered to the dispatcher while it still has a pending frame (the dispatcher panics when it assigns the next one)")
		}
		if l := s.peek(sub, v.subList); l == nil || s.isNil(l) != 1 {
			bad("a subscription is offered to the dispatcher while it is still in a list (the dispatcher panics when it adds it to another one)")
		}
	case "UnsubscribeOp":
		if s.isNil(sub) == 1 {
			bad("an unsubscribe request without subscription crashes the dispatcher")
		}
	case "EnqueueOp", "RequeueOp":
		if s.isNil(frm) == 1 {
			bad("a request without frame (%s) crashes the dispatcher", frm)
			return
		}
		if op == "RequeueOp" && s.isNil(frm) != -1 {
			bad("a request whose frame may be nil crashes the dispatcher")
			return
		}
		if base, fl, ok := frm.FieldOf(); ok && fl == v.subFrame && v.isElem(s, base) {
			return // message frames come from the dispatcher, which got them with a destination
		}
		if p, _ := s.hdrPeek(s.hdrOf(frm), "destination"); p != 1 {
			if frm.HasSum() {
				return
			}
			bad("a frame whose destination has not been checked is handed to the dispatcher, which panics without one")
		}
	case "ConnectedOp", "DisconnectedOp":
		if s.isNil(conn) == 1 {
			bad("a request without connection crashes the dispatcher")
		}
	}
	_ = strings.HasPrefix
}
