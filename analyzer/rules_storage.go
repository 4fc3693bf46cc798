package main

import (
	"go/types"
	"strings"
)

func init() {
	register("B18", "Path analysis of the dispatcher from Serve on: the storage that the queues are given is the configured one, started before, or the one in memory if none is configured; on every path on which a storage operation fails its error is logged or handed on before the next request, nothing is delivered that the storage did not give out or the request did not bring, and no path reaches a crash", checkB18)
}

// holds tells whether a term contains another one.
func (s *State) holds(t, x *T, depth int) bool {
	if t == nil || depth > 6 {
		return false
	}
	if t == x {
		return true
	}
	for _, a := range t.A {
		if s.holds(a, x, depth+1) {
			return true
		}
	}
	// variadic arguments
	if t.K == KAlloc || t.K == KFresh || t.IsApp("slice") {
		for k, v := range s.heap {
			if k.K == KIdxAddr && k.A[0] == t && s.holds(v, x, depth+1) {
				return true
			}
		}
	}
	return false
}

func checkB18(c *Ctx) {
	v := newSrv(c)
	cfg := c.field("server", "Server", "QueueStorage", "")
	st := c.p.NamedType("server/queue", "Storage")
	if !v.ok() || st == nil {
		return
	}
	isStorage := func(t types.Type) bool {
		return t != nil && types.IsInterface(t) && types.Identical(t.Underlying(), st.Underlying())
	}
	// configured: 1 the value is the configured storage, 0 not
	configured := func(s *State, t *T) bool {
		t = t.Un()
		_, f, ok := t.FieldOf()
		return ok && f == cfg
	}
	none := func(s *State) bool { // the path knows that none is configured
		for t, k := range s.eqc {
			if k.IsNil() && configured(s, t) {
				return true
			}
		}
		return false
	}
	crash := crashRule("no-crash")
	d := &dcycle{v: v}
	errored := func(s *State, e *Event) {
		if s.cells["st.err"] != nil {
			s.ex.Bad(s, "errors", s.cells["st.op"].String(), e.Instr, "an error of the queue storage (%s) is neither logged nor handed on", s.cells["st.op"])
			delete(s.cells, "st.err")
			delete(s.cells, "st.op")
		}
	}
	d.begin = func(s *State, op string, e *Event) {
		if s.cells["st.given"] != nil && s.cells["st.started"] == nil {
			s.ex.Bad(s, "started", "request", e.Instr, "requests are served although the configured queue storage has not been started")
		}
	}
	d.done = func(s *State, op string, e *Event) { errored(s, e) }
	rule := &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		d.On(s, e)
		crash(s, e)
		switch e.Kind {
		case "storage":
			ex.Obl("started", e.Name)
			r := e.X[0]
			if e.Name == "Start" {
				if configured(s, r) {
					s.cells["st.started"] = ex.ts.Int(1)
				}
				return
			}
			if e.Name == "Stop" {
				s.cells["st.stopped"] = ex.ts.Int(1)
				return
			}
			if s.cells["st.stopped"] != nil {
				ex.Bad(s, "started", "stopped", e.Instr, "the queue storage is used after it was stopped")
			}
			if configured(s, r) && s.cells["st.started"] == nil {
				ex.Bad(s, "started", e.Name, e.Instr, "the configured queue storage is used without having been started")
			}
			if e.Tag == "error" {
				errored(s, e)
				ex.Obl("errors", e.Name)
				s.cells["st.err"] = e.X[len(e.X)-1]
				s.cells["st.op"] = ex.ts.Str(e.Name)
			} else if k := s.cells["st.op"]; k != nil && k.IsStr(e.Name) {
				delete(s.cells, "st.err") // tried again with success
				delete(s.cells, "st.op")
			}
			if e.Name == "Dequeue" {
				delete(s.cells, "d.given")
				if e.Tag == "ok" && s.cells["d.Op"] != nil {
					s.cells["d.given"] = e.Res
				}
			}
		case "invoke", "call", "callback", "go", "exit":
			if er := s.cells["st.err"]; er != nil {
				for _, a := range e.Args {
					if s.holds(a, er, 0) {
						delete(s.cells, "st.err")
						delete(s.cells, "st.op")
						break
					}
				}
			}
		case "store":
			if len(e.Args) < 2 || !strings.HasPrefix(e.Name, "server/queue.") || e.Instr == nil {
				return
			}
			if ft := c.p.info.fieldType[e.Name]; !isStorage(ft) {
				return
			}
			ex.Obl("chosen", e.Name)
			x := s.val(e.Args[1])
			switch {
			case x.K == KIface:
				if n, ok := deref(x.Typ).(*types.Named); !ok || n.Obj().Pkg() == nil || c.p.Rel(n.Obj().Pkg()) != "server/queue" {
					ex.Bad(s, "chosen", "other", e.Instr, "the queues are given a storage that is not the one in memory")
				} else if !none(s) {
					ex.Bad(s, "chosen", "ignored", e.Instr, "the queues are kept in memory although a storage may be configured")
				}
			case configured(s, x):
				if s.isNil(x) == 1 || none(s) {
					ex.Bad(s, "chosen", "nil", e.Instr, "the queues are given no storage when none is configured")
				}
				s.cells["st.given"] = ex.ts.Int(1)
			case x.IsNil():
				ex.Bad(s, "chosen", "nil", e.Instr, "the queues are given no storage")
			}
		case "send":
			if e.Name != v.subCh {
				return
			}
			op := d.op(s)
			ex.Obl("has", op)
			f := s.peek(e.Args[1], v.subFrame)
			want := s.cells["d.Frame"]
			if op == "SubscribeOp" {
				want = s.cells["d.given"]
			}
			if want == nil || f == nil || s.val(f) != s.val(want) {
				ex.Bad(s, "has", op, e.Instr, "a message is delivered that the request did not bring and the storage did not give out")
			}
		}
	}}
	v.dispatcher("dispatcher", rule, v.opaqueStorage)
	c.NeedObl("started", 4)
	c.NeedObl("errors", 3)
	c.NeedObl("chosen", 1)
	c.NeedObl("has", 3)
}
