package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C12 ----

func init() {
	register("C12", "Typestate analysis of the subscription object: every path of Unsubscribe that sends the UNSUBSCRIBE frame, once and with the subscription's id, has before taken the subscription out of the open state by a compare-and-swap, or by a check and a store under one lock; the contents that it leaves at that point, and those at the close of the message channel, are contents with which Active is false and Unsubscribe sends nothing and returns an error; no other function puts the subscription back into the open state; only the goroutine of the subscription closes the message channel, on paths on which it has received the confirmation, an error or the end of the connection; the I/O goroutine writes UNSUBSCRIBE with a receipt that leads back to the subscription", checkC12)
}

func checkC12(c *Ctx) {
	a := newAPI(c)
	unsub := c.method("", "Subscription", "Unsubscribe")
	active := c.method("", "Subscription", "Active")
	loop := c.subscriptionLoop()
	proc := c.clientProcess()
	if !a.ok() || unsub == nil || active == nil || loop == nil || proc == nil {
		return
	}
	prefix := a.subID[:strings.LastIndex(a.subID, ".")+1]
	fieldTypes := a.subFields()

	// the fields that Active looks at
	state := a.stateFields(active)
	if len(state) == 0 {
		c.Undecided("the state of a subscription: Active reads none of its fields")
		return
	}
	born := a.subBorn()
	open := map[string]constant.Value{}
	for k := range state {
		if v := born.values[k]; v != nil {
			open[k] = v
		}
	}
	if len(open) == 0 {
		c.Undecided("the state of a new subscription")
		return
	}
	typesOf := func(m map[string]constant.Value) map[string]types.Type {
		t := map[string]types.Type{}
		for k := range m {
			t[k] = fieldTypes[k]
		}
		return t
	}
	isOpen := func(m map[string]constant.Value) bool {
		for k, v := range open {
			if w := m[k]; w != nil && !constant.Compare(v, token.EQL, w) {
				return false
			}
		}
		return true
	}
	only := func(m map[string]constant.Value) map[string]constant.Value {
		out := map[string]constant.Value{}
		for k, v := range m {
			if open[k] != nil {
				out[k] = v
			}
		}
		return out
	}

	// Unsubscribe
	var closing []map[string]constant.Value
	seen := map[string]bool{}
	sends := 0
	c.Explore("Unsubscribe", unsub, &funcRule{
		on: func(s *State, e *Event) {
			ex := s.ex
			sub := param(ex, unsub, 0)
			right := func(fr *T, when string) {
				ex.Obl("frame", when)
				if s.cmd(fr) != "UNSUBSCRIBE" {
					ex.Bad(s, "frame", "command", e.Instr, "Unsubscribe sends a frame with command %q", s.cmd(fr))
				}
				if has, v := s.hdrOfFrame(fr, "id"); has != 1 || s.equals(v, s.at(sub, a.subID)) != 1 {
					ex.Bad(s, "frame", "id", e.Instr, "%s, the frame of Unsubscribe does not have the id of the subscription", when)
				}
			}
			switch e.Kind {
			case "lock":
				s.cells["u.lock"] = ex.ts.Int(1)
			case "unlock":
				delete(s.cells, "u.lock")
				for k := range s.cells {
					if strings.HasPrefix(k, "u.load.") {
						delete(s.cells, k)
					}
				}
			case "load":
				if len(e.Args) > 0 && e.Args[0] == sub && open[e.Name] != nil && s.cells["u.lock"] != nil {
					s.cells["u.load."+e.Name] = e.Args[1]
				}
			case "store":
				if len(e.Args) < 2 || e.Args[0] != sub || open[e.Name] == nil {
					return
				}
				if v := s.cells["u.load."+e.Name]; v != nil && s.equals(v, ex.ts.Const(open[e.Name], fieldTypes[e.Name])) == 1 {
					s.cells["u.won"] = ex.ts.Int(1)
				}
			case "atomic":
				setAtomic(s, e, sub)
				x := e.Args[0]
				if x.K != KFldAddr || x.A[0] != sub || open[x.S] == nil {
					return
				}
				o := ex.ts.Const(open[x.S], fieldTypes[x.S])
				switch {
				case strings.HasPrefix(e.Name, "CompareAndSwap"):
					if e.Res.IsTrue() && sameConst(s.val(e.Args[1]), o) {
						s.cells["u.won"] = ex.ts.Int(1)
					}
				case strings.HasPrefix(e.Name, "Swap"):
					s.cells["u.swap"] = e.Res
					s.cells["u.open"] = o
				}
			case "callbackpre":
				for _, x := range e.Args[1:] {
					if ex.isFrame(x) && s.cells["u.opt"] == nil {
						s.cells["u.opt"] = x
						right(x, "before the options run")
					}
				}
			case "send":
				for _, fr := range a.sent(s, e) {
					sends++
					if o := s.cells["u.opt"]; o == nil {
						right(fr, "when it is sent")
					} else if o != fr {
						ex.Bad(s, "frame", "other", e.Instr, "another frame is sent than the one the options were applied to")
					}
					ex.Obl("once", "sent")
					if s.counted("u.sent") > 0 {
						ex.Bad(s, "once", "twice", e.Instr, "Unsubscribe sends more than one frame")
					}
					s.count("u.sent")
					won := s.cells["u.won"] != nil
					if w := s.cells["u.swap"]; w != nil && s.equals(w, s.cells["u.open"]) == 1 {
						won = true
					}
					if !won {
						ex.Bad(s, "once", "exclusive", e.Instr, "two concurrent calls of Unsubscribe may both send a frame: the subscription has not been taken out of the open state in one step")
					}
					ex.Obl("frame", "temporary queue")
					left := only(leftIn(s, sub, prefix))
					if isOpen(left) {
						ex.Bad(s, "state", "sending", e.Instr, "the subscription may still be in the open state when UNSUBSCRIBE is sent")
						return
					}
					if k := describe(left); !seen[k] {
						seen[k] = true
						closing = append(closing, left)
					}
				}
			case "exit":
				ex.Obl("once", "result")
				if failed(s, e) != 1 && s.counted("u.sent") == 0 {
					ex.Bad(s, "once", "nothing sent", e.Instr, "Unsubscribe may succeed without having sent anything")
				}
			}
		}}, func(ex *Exec) { ex.Opts.Pre = true; ex.Opts.Loads = true }, nil, nil)
	c.Need("UNSUBSCRIBE frames sent", sends, 1)

	// the end of the message channel
	msgChan := a.messageChan()
	if msgChan == "" {
		return
	}
	at := map[string][]*subEnd{}
	a.ended(at, func(s *State, e *Event, sub *T) {
		ex := s.ex
		if e.Kind != "close" || !strings.HasPrefix(e.Name, prefix) {
			return
		}
		if e.Name != msgChan {
			ex.Obl("closed", e.Name)
			if s.cells["se.closed"] == nil {
				ex.Bad(s, "closed", "order "+e.Name, e.Instr, "%s is closed before the message channel, which those who wait for it take for the end of the subscription", e.Name)
			}
			return
		}
		s.cells["se.closed"] = ex.ts.Int(1)
		ex.Obl("closed", "message channel")
		got := s.cells["se.got"]
		switch {
		case got == nil || got.IsStr("other"):
			ex.Bad(s, "closed", "unasked", e.Instr, "the message channel is closed although nothing has ended the subscription")
		case got.IsStr("recv"):
			if m := s.cmd(s.cells["se.frame"]); m != "RECEIPT" && m != "ERROR" {
				ex.Bad(s, "closed", "by frame", e.Instr, "the message channel is closed by a frame that may be neither the confirmation nor an ERROR")
			}
		}
		if left := only(leftIn(s, sub, prefix)); isOpen(left) {
			ex.Bad(s, "state", "closing", e.Instr, "the subscription may still be in the open state when its message channel is closed")
		} else if k := describe(left); !seen[k] {
			seen[k] = true
			closing = append(closing, left)
		}
	})
	if len(at[msgChan]) == 0 {
		c.Undecided("where the goroutine of a subscription closes the message channel")
		return
	}
	c.Need("contents of a subscription that is ending", len(closing), 1)

	// a temporary queue
	temp := 0
	for _, ch := range sortedKeys(at) {
		for _, d := range at[ch] {
			if d.got == "recvclosed" && d.temp != -1 {
				temp++
				a.after(unsub, born, ch, d, nil, func(s *State, e *Event) {
					s.ex.Obl("confirmation", "temporary queue, "+d.String())
					if failed(s, e) != -1 {
						s.ex.Bad(s, "confirmation", "temporary queue", e.Instr, "Unsubscribe may fail for a temporary queue although the subscription has ended as requested")
					}
				})
			}
		}
	}
	if temp == 0 {
		c.Fail("confirmation", "temporary queue", c.p.Pos(loop.Pos()), "the goroutine of a subscription to a temporary queue does not end when it is told that it has been unsubscribed")
	}

	// nobody else closes the channel, or changes the state
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var call *ssa.CallCommon
				switch in := in.(type) {
				case *ssa.Call:
					call = &in.Call
				case *ssa.Defer:
					call = &in.Call
				case *ssa.Go:
					call = &in.Call
				}
				if call == nil || len(call.Args) == 0 {
					continue
				}
				bi, ok := call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "close" || c.p.loadedField(call.Args[0]) != msgChan {
					continue
				}
				c.Obl("closed", "closer")
				roots, user := c.p.info.rootsOf(f)
				if user || len(roots) != 1 || !roots[loop] {
					c.Fail("closed", "closer "+c.p.FuncName(f), c.p.Pos(in.Pos()), "the message channel of a subscription may be closed outside its goroutine")
				}
			}
		}
	}
	back := func(root *ssa.Function, sub func(s *State) *T) *funcRule {
		return &funcRule{
			on: func(s *State, e *Event) {
				ex := s.ex
				var fld string
				var v *T
				switch e.Kind {
				case "store":
					if len(e.Args) < 2 || e.Args[0].K == KAlloc {
						return
					}
					fld, v = e.Name, e.Args[1]
				case "atomic":
					x := e.Args[0]
					if x.K != KFldAddr {
						return
					}
					fld = x.S
					switch {
					case strings.HasPrefix(e.Name, "Store"), strings.HasPrefix(e.Name, "Swap"):
						v = e.Args[1]
					case strings.HasPrefix(e.Name, "CompareAndSwap"):
						v = e.Args[2]
					case strings.HasPrefix(e.Name, "Add"):
						v = e.Res
					default:
						return
					}
				default:
					return
				}
				if open[fld] == nil {
					return
				}
				ex.Obl("state", "changed")
				if v = s.val(v); v.K != KConst || v.C == nil || constant.Compare(v.C, token.EQL, open[fld]) {
					ex.Bad(s, "state", "reopened", e.Instr, "a subscription may be put back into the open state")
				}
			}}
	}
	roots := map[*ssa.Function]bool{}
	for k := range open {
		for _, acc := range c.p.info.accesses[k] {
			if (acc.write || acc.atom) && !acc.ctor {
				entries, user := c.p.info.rootsOf(acc.fn)
				for r := range entries {
					roots[r] = true
				}
				if user {
					for _, f := range c.p.Funcs {
						if c.p.isAPI(f) && c.p.info.Reach(f)[acc.fn] {
							roots[f] = true
						}
					}
				}
			}
		}
	}
	for _, f := range c.p.Funcs {
		if roots[f] {
			c.Explore("state: "+c.p.FuncName(f), f, back(f, nil), nil, nil, nil)
		}
	}

	// what an ending subscription does
	for _, m := range closing {
		m := m
		for _, f := range []*ssa.Function{unsub, active} {
			f := f
			var pin *pinned
			c.Explore(f.Name()+", "+describe(m), f, &funcRule{
				on: func(s *State, e *Event) {
					ex := s.ex
					pin.observe(s, e)
					switch e.Kind {
					case "send":
						if e.Name == a.writeCh {
							ex.Bad(s, "ended", f.Name()+" sends", e.Instr, "%s may send a frame for a subscription that is ending (%s)", f.Name(), describe(m))
						}
					case "exit":
						ex.Obl("ended", f.Name()+" "+describe(m))
						if f == active {
							if !s.val(e.Args[0]).IsFalse() {
								ex.Bad(s, "ended", "Active", e.Instr, "Active may be true for a subscription that is ending (%s)", describe(m))
							}
						} else if failed(s, e) != 1 {
							ex.Bad(s, "ended", f.Name(), e.Instr, "%s may succeed for a subscription that is ending (%s)", f.Name(), describe(m))
						}
					}
				}}, func(ex *Exec) {
				pin = &pinned{base: param(ex, f, 0), values: m, types: typesOf(m)}
				pin.conf(ex)
			}, nil, func(s *State) { pin.init(s) })
		}
	}
	var pin *pinned
	c.Explore("Active, "+describe(open), active, &funcRule{
		on: func(s *State, e *Event) {
			pin.observe(s, e)
			if e.Kind == "exit" {
				s.ex.Obl("ended", "Active "+describe(open))
				if !s.val(e.Args[0]).IsTrue() {
					s.ex.Bad(s, "ended", "Active open", e.Instr, "Active may be false for a subscription that is open")
				}
			}
		}}, func(ex *Exec) {
		pin = &pinned{base: param(ex, active, 0), values: open, types: typesOf(open)}
		pin.conf(ex)
	}, nil, func(s *State) { pin.init(s) })

	// the way of the confirmation
	a.unsubscribed(proc)
	c.NeedObl("once", 2)
	c.NeedObl("frame", 2)
	c.NeedObl("closed", 2)
	c.NeedObl("state", 1)
	c.NeedObl("ended", 4)
}

// unsubscribed decides what the I/O goroutine does with an UNSUBSCRIBE frame.
func (a *api) unsubscribed(proc *ssa.Function) {
	c := a.c
	writes := 0
	c.Explore("I/O goroutine: UNSUBSCRIBE", proc, &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		switch e.Kind {
		case "recv":
			delete(s.cells, "u.frame")
			if e.Name == a.writeCh {
				if fs := framesIn(ex, &Event{Kind: "recv", Args: []*T{e.Res}}); len(fs) == 1 {
					s.cells["u.frame"] = fs[0]
				} else {
					s.cells["u.frame"] = a.requestFrame(s, e.Res)
				}
			}
		case "maplookup":
			if s.cells["u.frame"] != nil && e.Tag == "present" && s.isNil(e.Res) != 1 && ex.isFrameChan(e.Res.Typ) {
				s.cells["u.key"] = e.Args[1]
				s.cells["u.chan"] = e.Res
			}
		case "mapdel":
			if s.cells["u.key"] != nil && s.equals(e.Args[1], s.cells["u.key"]) == 1 {
				delete(s.cells, "u.key")
			}
		case "close":
			if e.Args[0] == s.cells["u.chan"] {
				delete(s.cells, "u.chan")
				s.cells["u.ended"] = ex.ts.Int(1)
			}
		case "write":
			f := s.cells["u.frame"]
			if f == nil || s.cmd(f) != "UNSUBSCRIBE" || len(e.Args) == 0 {
				return
			}
			has := false
			for _, x := range e.Args {
				has = has || x == f
			}
			if !has {
				return
			}
			writes++
			ex.Obl("confirmation", "receipt")
			if _, on := s.hdrOfFrame(f, "reply-to"); on != nil {
				if h, _ := s.hdrOfFrame(f, "reply-to"); h == 1 {
					ex.Bad(s, "confirmation", "temporary queue", e.Instr, "UNSUBSCRIBE is sent to the server for a temporary queue that it does not know")
				}
			}
			hi, id := s.hdrOfFrame(f, "id")
			hr, r := s.hdrOfFrame(f, "receipt")
			if hi == -1 {
				return // does not happen: Unsubscribe has set it
			}
			if hr != 1 || r == nil || id == nil || s.equals(r, id) != 1 {
				ex.Bad(s, "confirmation", "receipt", e.Instr, "UNSUBSCRIBE is written without the id under which the channel of the subscription is found as its receipt")
			}
		case "select":
			if e.Tag != "blocking" {
				return
			}
			if f := s.cells["u.frame"]; f != nil && s.cmd(f) == "UNSUBSCRIBE" {
				if has, v := s.hdrOfFrame(f, "reply-to"); has == 1 {
					ex.Obl("confirmation", "temporary queue")
					if ch := s.cells["u.chan"]; ch != nil && s.isNil(ch) != 1 {
						ex.Bad(s, "confirmation", "not closed", e.Instr, "the goroutine of a subscription to a temporary queue is not told that it has been unsubscribed")
					} else if s.cells["u.ended"] != nil && s.cells["u.key"] != nil {
						ex.Bad(s, "confirmation", "not removed", e.Instr, "the channel of a subscription to a temporary queue is closed but may still be sent to")
					}
					_ = v
				}
			}
			for _, k := range []string{"u.frame", "u.key", "u.chan", "u.ended"} {
				delete(s.cells, k)
			}
		}
	}}, forkNilFrames, nil, nil)
	if writes == 0 {
		c.Undecided("where the I/O goroutine writes UNSUBSCRIBE frames")
	}
}
