package main

import (
	"go/types"
	"strings"
)

// dcycle observes the dispatcher: a cycle begins when it takes a request and
// ends when it waits for the next one.
type dcycle struct {
	v     *srv
	begin func(s *State, op string, e *Event)
	on    func(s *State, e *Event)
	done  func(s *State, op string, e *Event)
	stop  func(s *State, e *Event) // the dispatcher ends
	n     int
}

func (y *dcycle) Wants(s *State, e *Event) bool { return false }

func isRequestChan(ch *T) bool {
	if ch.Typ == nil {
		return false
	}
	c, ok := ch.Typ.Underlying().(*types.Chan)
	return ok && strings.HasSuffix(typKey(c.Elem()), "server/client.Request")
}

func (y *dcycle) On(s *State, e *Event) {
	ends := e.Kind == "recvwait" && isRequestChan(e.Args[0])
	if e.Kind == "select" && e.Tag == "blocking" {
		for i, a := range e.Args {
			if isRequestChan(a) && !e.X[i].IsTrue() {
				ends = true
			}
		}
	}
	if ends {
		y.finish(s, e)
	}
	if (e.Kind == "exit" || e.Kind == "rundefers") && len(s.frames) == 1 && s.cells["d.stop"] == nil {
		s.cells["d.stop"] = s.ex.ts.Int(1)
		y.finish(s, e)
		if y.stop != nil {
			y.stop(s, e)
		}
	}
	if e.Kind == "recv" && isRequestChan(e.Args[0]) {
		y.n++
		fld := func(n string) *T {
			st := e.Args[0].Typ.Underlying().(*types.Chan).Elem()
			stt := st.Underlying().(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == n {
					return s.field(e.Res, st, i)
				}
			}
			return s.ex.ts.Nil()
		}
		for _, n := range []string{"Op", "Sub", "Frame", "Conn"} {
			s.cells["d."+n] = fld(n)
		}
		if f := s.cells["d.Frame"]; s.isNil(f) == -1 {
			_, dest := s.hdrPeek(s.hdrOf(f), "destination")
			if dest != nil {
				s.cells["d.dest"] = dest
			}
		}
		if y.begin != nil {
			y.begin(s, y.op(s), e)
		}
	}
	if y.on != nil && s.cells["d.Op"] != nil {
		y.on(s, e)
	}
}

func (y *dcycle) op(s *State) string {
	if t := s.cells["d.Op"]; t != nil {
		if k, ok := s.val(t).Int(); ok {
			for n, x := range y.v.ops {
				if x == k {
					return n
				}
			}
		}
	}
	return ""
}

func (y *dcycle) finish(s *State, e *Event) {
	if s.cells["d.Op"] == nil {
		return
	}
	if y.done != nil {
		y.done(s, y.op(s), e)
	}
	for k := range s.cells {
		if strings.HasPrefix(k, "d.") && k != "d.stop" || strings.HasPrefix(k, "c.") {
			delete(s.cells, k)
		}
	}
}
