package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("B10", "Path analysis of the transaction store over every path of the connection goroutine: the transactions map is only consulted under the frame's own transaction name; a frame with that header is appended to the list found there and causes nothing else; COMMIT takes the list's elements from front to back and each causes its one effect, before the name is removed; ABORT removes the name and causes nothing; missing, known and unknown names are accepted or rejected accordingly", checkB10)
	register("B14", "Path counting of the effects of every accepted frame: the requests made, subscriptions registered or removed and frames stored between the arrival of a frame and the next wait are exactly those of its command, with the destination, id, mode and frame taken from its own headers", checkB14)
}

// origHdr returns the value that a header of a received frame had on arrival.
func (s *State) origHdr(f *T, k string) *T {
	ts := s.ex.ts
	h := ts.Init(ts.FldAddr(f, "frame.Frame.Header", s.ex.p.info.fieldType["frame.Frame.Header"]), s.ex.p.info.fieldType["frame.Frame.Header"])
	return ts.App("hdr", types.Typ[types.String], h, ts.Str(k))
}

func (v *srv) txMapField() string {
	return v.c.field("server/client", "txStore", "transactions", "map[string]*list.List")
}

// stateFn is the type of the functions that process a frame.
func (v *srv) isStateFn(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() != nil || f.Signature.Params().Len() != 2 || f.Signature.Results().Len() != 1 {
		return false
	}
	return typKey(f.Signature.Params().At(0).Type()) == "*"+typKeyOf(v.c, "server/client", "Conn") && isErrorType(f.Signature.Results().At(0).Type())
}

// processing reports whether a call is made on behalf of such a function, for the same frame.
func (v *srv) processing(s *State, e *Event) bool {
	for _, fr := range s.frames {
		if fr.fn != e.Fn && v.isStateFn(fr.fn) && fr.env[fr.fn.Params[1]] == e.Args[1] {
			return true
		}
	}
	return false
}

func typKeyOf(c *Ctx, rel, name string) string {
	if n := c.p.NamedType(rel, name); n != nil {
		return typKey(n)
	}
	return "?"
}

func checkB10(c *Ctx) {
	v := newSrv(c)
	txMap := v.txMapField()
	if !v.ok() {
		return
	}
	v.scanRead(nil)
	y := &cycle{v: v, headers: []string{"transaction"}}
	// the frame that is processed on behalf of a COMMIT
	inner := func(s *State) *T { return s.cells["c.inner"] }
	finish := func(s *State, in ssa.Instruction) {
		x := inner(s)
		if x == nil {
			return
		}
		ex := s.ex
		m := s.innerCmd()
		ex.Obl("commit-applies", m)
		switch {
		case m == "SEND" && s.counted("inner.enqueue") != 1:
			ex.Bad(s, "commit-applies", m, in, "COMMIT passes on a stored SEND frame %d times", s.counted("inner.enqueue"))
		case m != "SEND" && s.counted("inner.acked") != 1:
			ex.Bad(s, "commit-applies", m, in, "COMMIT applies a stored %s frame %d times", m, s.counted("inner.acked"))
		}
		delete(s.cells, "c.inner")
		delete(s.cells, "c.innercmd")
		delete(s.cells, "c.inner.enqueue")
		delete(s.cells, "c.inner.acked")
	}
	// next moves on from an element of the list of frames
	next := func(s *State, in ssa.Instruction) {
		finish(s, in)
		if s.cells["c.el"] != nil && s.cells["c.done"] == nil {
			s.ex.Bad(s, "commit-complete", "skipped", in, "COMMIT does not process every frame of the transaction")
		}
		delete(s.cells, "c.el")
		delete(s.cells, "c.done")
	}
	y.on = func(s *State, e *Event) {
		ex := s.ex
		f := s.cells[cellF]
		if f == nil || s.cells[cellEnd] != nil {
			return
		}
		tx := s.h("transaction")
		m := s.fcmd()
		L := s.cells["c.L"]
		if t := s.cells["c.innercmd"]; t != nil && !t.IsConst() {
			if k := s.val(t); k.IsConst() {
				s.cells["c.innercmd"] = k
			}
		}
		if (e.Kind == "listfront" || e.Kind == "listback") && e.Name == v.listField && inner(s) != nil {
			s.cells["c.inner.acked"] = ex.ts.Int(1)
		}
		switch e.Kind {
		case "maplookup", "mapset", "mapdel":
			if e.Name != txMap {
				return
			}
			ex.Obl("own-transaction", ex.where(e.Instr)+" "+e.Kind)
			if tx == nil || s.val(e.Args[1]) != s.val(tx) {
				ex.Bad(s, "own-transaction", ex.where(e.Instr)+" "+e.Kind, e.Instr, "a %s frame touches a transaction (%s) other than the one that it names", m, e.Args[1])
				return
			}
			switch e.Kind {
			case "maplookup":
				if s.cells["c.was"] == nil {
					s.cells["c.was"] = ex.ts.Str(e.Tag)
				}
				if e.Tag == "present" {
					s.cells["c.L"] = e.Res
				}
			case "mapset":
				s.count("begun")
				if m != "BEGIN" {
					ex.Bad(s, "begin", "mapset by "+m, e.Instr, "a %s frame opens a transaction", m)
				}
				if l := s.lists[e.Args[2]]; !l.known || !l.empty {
					ex.Bad(s, "begin", "not empty", e.Instr, "a new transaction does not start empty")
				}
				if e.Args[2].K != KFresh || e.Args[2].Sum {
					ex.Bad(s, "begin", "shared list", e.Instr, "a new transaction shares its list of frames")
				}
			case "mapdel":
				finish(s, e.Instr)
				s.count("ended")
			}
		case "pushback", "pushfront":
			if L == nil || e.Args[0] != L {
				return
			}
			ex.Obl("stored", ex.where(e.Instr))
			if e.Kind == "pushfront" {
				ex.Bad(s, "stored", "order", e.Instr, "a frame is put before those that the transaction already has")
			}
			if e.Args[1].Un() != f {
				ex.Bad(s, "stored", "frame", e.Instr, "something else than the received frame is stored in the transaction")
			}
			s.count("stored")
		case "listback":
			if L != nil && e.Args[0] == L {
				ex.Bad(s, "commit-order", "Back", e.Instr, "the frames of a transaction are not taken in order")
			}
		case "listfront", "listnext":
			el := s.cells["c.el"]
			if e.Kind == "listfront" && (L == nil || e.Args[0] != L) || e.Kind == "listnext" && (el == nil || e.Args[0] != el) || e.Res == el {
				return
			}
			next(s, e.Instr)
			if !e.Res.IsNil() {
				s.cells["c.el"] = e.Res
			} else if e.Kind == "listnext" {
				s.cells["c.last"] = ex.ts.Int(1)
			}
		case "call":
			if m != "COMMIT" || !v.isStateFn(e.Fn) || len(e.Args) < 2 || e.Args[1] == f || v.processing(s, e) {
				return
			}
			finish(s, e.Instr)
			x := e.Args[1]
			el := s.cells["c.el"]
			ex.Obl("commit-order", ex.where(e.Instr))
			base, fl, ok := x.FieldOf()
			if x.IsApp("elem") {
				base, fl, ok = x.A[0], "container/list.Element.Value", true
			}
			if el == nil || !ok || fl != "container/list.Element.Value" || base != el {
				ex.Bad(s, "commit-order", ex.where(e.Instr), e.Instr, "COMMIT does not process the transaction's frames one by one from the front (%s)", x)
			}
			if s.cells["c.done"] != nil {
				ex.Bad(s, "commit-order", "twice", e.Instr, "COMMIT processes a stored frame a second time")
			}
			s.cells["c.done"] = ex.ts.Int(1)
			s.cells["c.inner"] = x
			s.cells["c.innercmd"] = s.peek(x, "frame.Frame.Command")
		case "send":
			if e.Name != v.reqCh {
				return
			}
			op := v.reqOp(s, e.Args[1])
			fr := v.c.p.structField(e.Args[1], "Frame")
			ex.Obl("effect", m+" "+op)
			if x := inner(s); x != nil {
				if op == "EnqueueOp" {
					s.count("inner.enqueue")
					if fr != x {
						ex.Bad(s, "commit-applies", "frame", e.Instr, "COMMIT passes on something else than the stored frame")
					}
				}
				return
			}
			if tx != nil && (m == "SEND" || m == "ACK" || m == "NACK") {
				ex.Bad(s, "effect", m+" "+op, e.Instr, "a %s frame in a transaction has an effect (%s) before COMMIT", m, op)
			}
		case "recursive":
			ex.Bad(s, "effect", "recursion", e.Instr, "a transaction is processed recursively")
		}
	}
	y.accept = func(s *State, f *T, e *Event) {
		ex := s.ex
		m := s.fcmd()
		next(s, e.Instr)
		tx := s.h("transaction")
		was := "unchecked"
		if w := s.cells["c.was"]; w != nil {
			was, _ = w.Str()
		}
		ex.Obl("accepted", m)
		bad := func(format string, args ...interface{}) { ex.Bad(s, "accepted", m, e.Instr, format, args...) }
		begun, ended, stored := s.counted("begun"), s.counted("ended"), s.counted("stored")
		switch m {
		case "BEGIN":
			switch {
			case tx == nil:
				bad("BEGIN is accepted without a transaction name")
			case was != "absent":
				bad("BEGIN is accepted for a transaction that may be open already")
			case begun != 1:
				bad("BEGIN is accepted but opens no transaction")
			}
		case "COMMIT", "ABORT":
			switch {
			case tx == nil:
				bad("%s is accepted without a transaction name", m)
			case was != "present":
				bad("%s is accepted for a transaction that may not be open", m)
			case ended != 1:
				bad("%s is accepted but the transaction stays open", m)
			}
			if L := s.cells["c.L"]; m == "COMMIT" && s.cells["c.last"] == nil && !(L != nil && s.lists[L].known && s.lists[L].empty) {
				bad("COMMIT is accepted although frames of the transaction may not have been applied")
			}
		case "SEND", "ACK", "NACK":
			if tx == nil {
				if stored > 0 {
					bad("a %s frame without transaction is stored", m)
				}
				return
			}
			switch {
			case was != "present":
				bad("a %s frame is accepted for a transaction that may not be open", m)
			case stored != 1:
				bad("a %s frame in a transaction is stored %d times", m, stored)
			}
			if p, _ := s.hdrOfFrame(f, "transaction"); p != -1 {
				bad("a %s frame is stored with its transaction header and would be stored again on COMMIT", m)
			}
			if s.cmd(f) != m {
				bad("the command of a stored frame has been changed")
			}
		default:
			if stored > 0 {
				bad("a %s frame is stored in a transaction", m)
			}
		}
		switch m {
		case "BEGIN", "COMMIT", "ABORT":
		default:
			if begun+ended > 0 {
				bad("a %s frame opens or ends a transaction", m)
			}
		}
	}
	y.explore("connection goroutine", nil)
	c.NeedObl("own-transaction", 5)
	c.NeedObl("stored", 1)
	c.NeedObl("commit-order", 1)
	c.NeedObl("commit-applies", 3)
	c.NeedObl("accepted", 8)
	c.NeedObl("effect", 3)
}

func (s *State) innerCmd() string {
	if t := s.cells["c.innercmd"]; t != nil {
		x, _ := s.val(t).Str()
		return x
	}
	return ""
}

func checkB14(c *Ctx) {
	v := newSrv(c)
	destF := c.field("server/client", "Subscription", "dest", "")
	if !v.ok() {
		return
	}
	v.scanRead(nil)
	y := &cycle{v: v, headers: []string{"transaction"}}
	y.on = func(s *State, e *Event) {
		ex := s.ex
		f := s.cells[cellF]
		if f == nil || s.cells[cellEnd] != nil {
			return
		}
		m := s.fcmd()
		switch e.Kind {
		case "maplookup":
			if e.Name == v.subs && e.Tag == "present" && (m == "UNSUBSCRIBE") {
				s.cells["c.found"] = e.Res
				if s.val(e.Args[1]) != s.val(s.origHdr(f, "id")) {
					ex.Bad(s, "subscription-id", m, e.Instr, "UNSUBSCRIBE looks for %s instead of the id in its header", e.Args[1])
				}
			}
			if e.Name == v.subs && m == "SUBSCRIBE" {
				s.cells["c.dup"] = ex.ts.Str(e.Tag)
			}
		case "mapset":
			if e.Name != v.subs {
				return
			}
			s.count("mapset")
			s.cells["c.reg"] = e.Args[2]
			ex.Obl("registered", m)
			if s.val(e.Args[1]) != s.val(s.origHdr(f, "id")) {
				ex.Bad(s, "subscription-id", m, e.Instr, "a subscription is registered as %s instead of under the id in its header", e.Args[1])
			}
		case "mapdel":
			if e.Name != v.subs {
				return
			}
			s.count("mapdel")
			if s.val(e.Args[1]) != s.val(s.origHdr(f, "id")) {
				ex.Bad(s, "subscription-id", m, e.Instr, "subscription %s is removed instead of the one with the id in the header", e.Args[1])
			}
		case "store":
			if e.Name == v.subs {
				ex.Bad(s, "registered", "replaced by "+m, e.Instr, "a %s frame replaces all subscriptions", m)
			}
		case "send":
			if e.Name != v.reqCh {
				return
			}
			op := v.reqOp(s, e.Args[1])
			if m == "COMMIT" || (m == "ACK" || m == "NACK") && (op == "SubscribeOp" || op == "RequeueOp" && m == "NACK") {
				return // decided with the acknowledgements and transactions
			}
			s.count("requests")
			ex.Obl("effect", m+" "+op)
			sub, fr := v.c.p.structField(e.Args[1], "Sub"), v.c.p.structField(e.Args[1], "Frame")
			bad := func(format string, args ...interface{}) { ex.Bad(s, "effect", m+" "+op, e.Instr, format, args...) }
			switch {
			case m == "SEND" && op == "EnqueueOp":
				if fr != f {
					bad("SEND passes on something else than the received frame")
				}
				if s.cmd(f) != "MESSAGE" {
					bad("SEND passes on a frame that is not a MESSAGE frame")
				}
				if p, val := s.hdrOfFrame(f, "destination"); p != 1 || s.val(val) != s.val(s.origHdr(f, "destination")) {
					bad("SEND passes on a frame with another destination")
				}
				if b := s.peek(f, "frame.Frame.Body"); b == nil || b.K != KInit {
					bad("SEND passes on a frame with another body")
				}
			case m == "SUBSCRIBE" && op == "SubscribeOp":
				s.cells["c.sub"] = sub
				if sub.K != KAlloc || sub.Sum {
					bad("SUBSCRIBE does not make a new subscription")
					return
				}
				if s.val(s.peek(sub, destF)) != s.val(s.origHdr(f, "destination")) {
					bad("SUBSCRIBE makes a subscription for another destination than its header says")
				}
				if s.val(s.peek(sub, v.subID)) != s.val(s.origHdr(f, "id")) {
					bad("SUBSCRIBE makes a subscription with another id than its header says")
				}
				if p := s.peek(sub, v.subConn); p != s.frames[0].env[s.frames[0].fn.Params[0]] && p.K != KAlloc {
					bad("SUBSCRIBE makes a subscription for another connection")
				}
				ack := s.val(s.peek(sub, v.subAck))
				ap, _ := s.hdrOfFrame(f, "ack")
				if str, _ := ack.Str(); !(ap == 1 && ack == s.val(s.origHdr(f, "ack")) || ap == -1 && str == "auto") {
					bad("SUBSCRIBE makes a subscription with another ack mode (%s) than its header says", ack)
				}
			case m == "UNSUBSCRIBE" && op == "UnsubscribeOp":
				if sub != s.cells["c.found"] {
					bad("UNSUBSCRIBE ends another subscription than the one registered under its id")
				}
			case (m == "CONNECT" || m == "STOMP") && op == "ConnectedOp":
			default:
				bad("a %s frame causes a %s request", m, op)
			}
		case "pushback", "pushfront":
			if e.Args[1].Un() == f {
				s.count("stored")
			}
		case "listfront", "listback":
			if e.Name == v.listField && (m == "ACK" || m == "NACK") {
				s.cells["c.visited"] = ex.ts.Int(1)
			}
		}
	}
	y.accept = func(s *State, f *T, e *Event) {
		ex := s.ex
		m := s.fcmd()
		ex.Obl("accepted", m)
		bad := func(format string, args ...interface{}) { ex.Bad(s, "accepted", m, e.Instr, format, args...) }
		tx := s.h("transaction") != nil
		req, set, del, stored := s.counted("requests"), s.counted("mapset"), s.counted("mapdel"), s.counted("stored")
		wantReq, wantSet, wantDel, wantStored := int64(0), int64(0), int64(0), int64(0)
		switch m {
		case "SEND":
			if tx {
				wantStored = 1
			} else {
				wantReq = 1
			}
		case "SUBSCRIBE":
			wantReq, wantSet = 1, 1
			if d := s.cells["c.dup"]; d == nil || d != ex.ts.Str("absent") {
				bad("SUBSCRIBE is accepted although the id may be in use")
			}
			if s.cells["c.reg"] != s.cells["c.sub"] {
				bad("SUBSCRIBE registers another subscription than it announces")
			}
		case "UNSUBSCRIBE":
			wantReq, wantDel = 1, 1
		case "ACK", "NACK":
			if tx {
				wantStored = 1
			} else if s.cells["c.visited"] == nil {
				bad("%s is accepted without looking for the message that it names", m)
			}
		case "CONNECT", "STOMP":
			wantReq = req // telling the dispatcher has no observable effect
		case "COMMIT":
			return
		}
		if req != wantReq {
			bad("an accepted %s frame causes %d requests instead of %d", m, req, wantReq)
		}
		if set != wantSet || del != wantDel {
			bad("an accepted %s frame registers %d and removes %d subscriptions instead of %d and %d", m, set, del, wantSet, wantDel)
		}
		if stored != wantStored {
			bad("an accepted %s frame is stored %d times instead of %d", m, stored, wantStored)
		}
	}
	y.explore("connection goroutine", nil)
	c.NeedObl("effect", 3)
	c.NeedObl("registered", 1)
	c.NeedObl("accepted", 8)
}
