package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type ssaInstr = ssa.Instruction

// cycle observes the processing of the frames of one connection by the broker:
// a cycle begins when a frame is taken from the read channel, and ends when the
// connection goes back to wait for the next event (the frame is accepted) or
// when the goroutine ends (the frame is rejected, or the connection failed).
type cycle struct {
	v       *srv
	headers []string // headers whose presence is decided when the frame arrives
	begin   func(s *State, f *T)
	on      func(s *State, e *Event) // every event
	accept  func(s *State, f *T, e *Event)
	reject  func(s *State, f *T, e *Event)
	idle    func(s *State, e *Event) // back to waiting without a frame
	end     func(s *State, e *Event) // the goroutine starts to end (once)
	n       int
}

const (
	cellF   = "cyc.f"   // the frame being processed
	cellEnd = "cyc.end" // the goroutine is ending
)

func (y *cycle) Wants(s *State, e *Event) bool { return false }

// waits reports whether the event is the goroutine waiting for the next thing to do.
func (y *cycle) waits(s *State, e *Event) bool {
	if e.Kind != "select" || e.Tag != "blocking" {
		return false
	}
	r, sub := false, false
	for _, a := range e.Args {
		switch s.ex.chanName(a) {
		case y.v.readCh:
			r = true
		case y.v.subCh:
			sub = true
		}
	}
	return r && sub
}

func (y *cycle) On(s *State, e *Event) {
	if !y.v.inProc(s) {
		return
	}
	y.v.connTerm(s)
	if e.Kind == "send" && e.Name == y.v.reqCh && s.cells["subscribed"] == nil && y.v.reqOp(s, e.Args[1]) == "SubscribeOp" {
		s.cells["subscribed"] = s.ex.ts.Int(1)
	}
	switch {
	case e.Kind == "recv" && e.Name == y.v.readCh && s.cells[cellEnd] == nil:
		if s.isNil(e.Res) != 1 {
			s.cells[cellF] = e.Res
			for _, k := range y.headers {
				ok, val := s.hdrPeek(s.hdrOf(e.Res), k)
				if ok == 1 {
					s.cells["h."+k] = val
				} else {
					s.cells["h."+k] = s.ex.ts.Nil()
				}
			}
			s.cells["h."] = s.peek(e.Res, "frame.Frame.Command")
			y.n++
			if y.begin != nil {
				y.begin(s, e.Res)
			}
		}
	case y.waits(s, e):
		if f := s.cells[cellF]; f != nil {
			if y.accept != nil {
				y.accept(s, f, e)
			}
			y.clear(s)
		} else if y.idle != nil {
			y.idle(s, e)
		}
	case e.Kind == "rundefers" || e.Kind == "exit":
		if s.cells[cellEnd] == nil {
			s.cells[cellEnd] = s.ex.ts.Int(1)
			if f := s.cells[cellF]; f != nil {
				if y.reject != nil {
					y.reject(s, f, e)
				}
				y.clear(s)
			}
			if y.end != nil {
				y.end(s, e)
			}
		}
	}
	if y.on != nil {
		y.on(s, e)
	}
}

func (y *cycle) clear(s *State) {
	for k := range s.cells {
		if k == cellF || len(k) >= 2 && (k[:2] == "h." || k[:2] == "c.") {
			delete(s.cells, k)
		}
	}
}

// explore runs the cycle rule over the connection goroutine.
func (y *cycle) explore(name string, more func(ex *Exec)) *Exec {
	return y.v.explore(name, y, func(ex *Exec) {
		ts := ex.ts
		recv := ex.Opts.Recv
		ex.Opts.Recv = func(s *State, ch, val *T, in ssaInstr) []*State {
			switch ex.chanName(ch) {
			case y.v.subCh, y.v.writeCh:
				// the dispatcher only sends to subscriptions that it has been told of
				// (checked by the properties of queues and topics)
				if s.cells["subscribed"] == nil {
					return []*State{}
				}
			}
			alts := recv(s, ch, val, in)
			if ex.chanName(ch) != y.v.readCh {
				return alts
			}
			if alts == nil {
				alts = []*State{s}
			}
			for _, k := range y.headers {
				var out []*State
				for _, n := range alts {
					if n.isNil(val) == 1 {
						out = append(out, n)
						continue
					}
					out = append(out, n.hdrFork(n.hdrOf(val), ts.Str(k))...)
				}
				alts = out
			}
			return alts
		}
		if more != nil {
			more(ex)
		}
	})
}

// fcmd returns the command that the frame being processed had on arrival.
func (s *State) fcmd() string {
	if t := s.cells["h."]; t != nil {
		c, _ := s.val(t).Str()
		return c
	}
	return ""
}

// cmd returns the command of a frame, if it is known.
func (s *State) cmd(f *T) string {
	if f == nil {
		return ""
	}
	c, _ := s.val(s.cmdOf(f)).Str()
	return c
}

// h returns the value that a header of the frame in process had on arrival (nil: absent).
func (s *State) h(k string) *T {
	t := s.cells["h."+k]
	if t == nil || t.IsNil() {
		return nil
	}
	return t
}

// count adds to a small counter that lasts as long as the cycle.
func (s *State) count(k string) int64 {
	n := s.counted(k) + 1
	if n > 3 {
		n = 3
	}
	s.cells["c."+k] = s.ex.ts.Int(n)
	return n
}

func (s *State) counted(k string) int64 {
	if t := s.cells["c."+k]; t != nil {
		n, _ := t.Int()
		return n
	}
	return 0
}

// hdrConst reads a header of a frame that the broker made itself.
func (s *State) hdrOfFrame(f *T, k string) (int, *T) { return s.hdrPeek(s.hdrOf(f), k) }

var errorType = types.Universe.Lookup("error").Type()
