package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C03 ----

func init() {
	register("C03", "Path-sensitive analysis of the way of a receipt: every operation that sends a frame with a receipt header returns without an error only on paths on which it has received, from the channel that it made for this request, a frame that it has found to be a RECEIPT; the operations that promise a receipt send the header; the I/O goroutine puts the channel of a request into its map under the very receipt of the request before it waits again, hands a RECEIPT frame to the channel found under its receipt-id only, a MESSAGE frame to that found under its subscription only, and makes up only ERROR frames; what the goroutine of a subscription leaves in it when it ends makes Unsubscribe succeed after a confirmation, and fail otherwise", checkC03)
}

func checkC03(c *Ctx) {
	a := newAPI(c)
	proc := c.clientProcess()
	if !a.ok() {
		return
	}
	asked, waited := 0, 0
	for _, f := range c.exportedMethods("Conn", "Transaction", "Subscription") {
		f := f
		if !c.sends(f) {
			continue
		}
		c.Explore(c.p.FuncName(f), f, &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			bad := func(k, format string, args ...interface{}) {
				ex.Bad(s, "success", f.Name()+" "+k, e.Instr, format, args...)
			}
			switch e.Kind {
			case "callbackpre":
				for _, x := range e.Args {
					if ex.isFrame(x) && s.cells["was."+x.String()] == nil {
						s.cells["was."+x.String()] = ex.ts.Str(s.cmd(x))
					}
				}
			case "send":
				for _, fr := range a.sent(s, e) {
					cmd := s.cmd(fr)
					if w := s.cells["was."+fr.String()]; w != nil {
						cmd, _ = w.Str() // the options may have changed it
					}
					if cmd == "SUBSCRIBE" || cmd == "UNSUBSCRIBE" {
						continue
					}
					has, _ := s.hdrOfFrame(fr, "receipt")
					ex.Obl("success", f.Name()+" "+cmd)
					must := strings.HasSuffix(f.Name(), "WithReceipt") || cmd == "DISCONNECT"
					if must && has != 1 {
						bad("no receipt", "%s sends %s without a receipt header", f.Name(), cmd)
					}
					if has == -1 {
						continue
					}
					asked++
					if has == 0 {
						bad("unknown", "%s sends a frame without finding out whether it asks for a receipt", f.Name())
						continue
					}
					ch := fieldByType(e.Args[1], ex.isFrameChan)
					if ch == nil || s.isNil(ch) == 1 || ch.K != KFresh || !strings.HasPrefix(ch.S, "make") {
						bad("channel", "%s sends a frame that asks for a receipt without a channel of its own to receive it", f.Name())
						continue
					}
					s.cells["rc.ch"] = ch
				}
			case "recv":
				if ch := s.cells["rc.ch"]; ch != nil && e.Args[0] == ch {
					waited++
					s.cells["rc.got"] = e.Res
				}
			case "exit":
				if s.cells["rc.ch"] == nil {
					return
				}
				ex.Obl("success", f.Name()+" result")
				if failed(s, e) == 1 || f.Signature.Results().Len() == 0 {
					return
				}
				if t := f.Signature.Results().At(f.Signature.Results().Len() - 1).Type(); t.String() != "error" {
					return
				}
				if g := s.cells["rc.got"]; g == nil {
					bad("without", "%s may succeed without having received the receipt that was asked for", f.Name())
				} else if s.cmd(g) != "RECEIPT" {
					bad("other", "%s may succeed although what it received is not a RECEIPT", f.Name())
				}
			}
		}}, func(ex *Exec) { ex.Opts.Pre = true }, nil, nil)
	}
	c.Need("frames that ask for a receipt", asked, 4)
	c.Need("receipts waited for", waited, 4)
	a.routing(proc)
	a.confirmation()
	c.NeedObl("success", 8)
}

// routing decides that the I/O goroutine hands frames to the channels they are meant for.
func (a *api) routing(proc *ssa.Function) {
	c := a.c
	if proc == nil {
		return
	}
	readCh := c.field("", "Conn", "readCh", "chan *frame.Frame")
	hdr := func(s *State, f *T, h string) *T {
		if f == nil {
			return nil
		}
		if has, v := s.hdrOfFrame(f, h); has == 1 {
			return v
		}
		return nil
	}
	same := func(s *State, x, y *T) bool { return x != nil && y != nil && s.equals(x, y) == 1 }
	sends := 0
	c.Explore("I/O goroutine: routing", proc, &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		reg := func() {
			f, ch := s.cells["q.frame"], s.cells["q.ch"]
			if f == nil || ch == nil || s.isNil(ch) == 1 {
				return
			}
			cmd := s.cmd(f)
			if s.cells["q.done"] != nil || cmd == "SUBSCRIBE" && s.cells["q.sub"] != nil || cmd == "UNSUBSCRIBE" {
				return // (who unsubscribes waits for the subscription to end)
			}
			if has, _ := s.hdrOfFrame(f, "receipt"); has == -1 && cmd != "SUBSCRIBE" {
				return
			}
			ex.Bad(s, "remembered", cmd, e.Instr, "the I/O goroutine may forget the channel of a request")
		}
		switch e.Kind {
		case "recv":
			switch e.Name {
			case readCh:
				s.cells["q.got"] = e.Res
			case a.writeCh:
				delete(s.cells, "q.got")
				delete(s.cells, "q.done")
				delete(s.cells, "q.sub")
				delete(s.cells, "q.frame")
				delete(s.cells, "q.ch")
				if fs := framesIn(ex, &Event{Kind: "recv", Args: []*T{e.Res}}); len(fs) == 1 {
					s.cells["q.frame"] = fs[0]
				} else {
					s.cells["q.frame"] = a.requestFrame(s, e.Res)
				}
				s.cells["q.ch"] = a.requestChan(s, e.Res)
			}
		case "select":
			if e.Tag == "blocking" {
				reg()
				for k := range s.cells {
					if strings.HasPrefix(k, "q.") {
						delete(s.cells, k)
					}
				}
			}
		case "mapset":
			if !ex.isFrameChan(e.Args[2].Typ) {
				return
			}
			ex.Obl("remembered", "store")
			f, ch := s.cells["q.frame"], s.cells["q.ch"]
			if f == nil || ch == nil || e.Args[2] != ch {
				ex.Bad(s, "remembered", "channel", e.Instr, "the I/O goroutine stores a channel other than that of the request")
				return
			}
			cmd := s.cmd(f)
			k := e.Args[1]
			switch {
			case same(s, k, hdr(s, f, "receipt")) && cmd != "SUBSCRIBE":
				s.cells["q.done"] = ex.ts.Int(1)
			case cmd == "SUBSCRIBE" && (same(s, k, hdr(s, f, "id")) || same(s, k, hdr(s, f, "reply-to"))):
				s.cells["q.sub"] = ex.ts.Int(1)
			default:
				if has, v := s.hdrOfFrame(f, "id"); cmd == "SUBSCRIBE" && has == -1 && k.IsStr("") && v == nil {
					s.cells["q.sub"] = ex.ts.Int(1) // does not happen: Subscribe has added one
					return
				}
				if cmd == "SUBSCRIBE" && k.IsStr("") {
					s.cells["q.sub"] = ex.ts.Int(1)
					return
				}
				ex.Bad(s, "remembered", "key "+cmd, e.Instr, "the I/O goroutine stores the channel of a request under a key that is not its receipt or, for subscriptions, its id: %s", k)
			}
		case "maplookup":
			if e.Tag == "present" {
				s.cells["q.key."+e.Res.String()] = e.Args[1]
			}
		case "send":
			if e.Args[0].Typ == nil || !ex.isFrameChan(e.Args[0].Typ) || e.Name == readCh {
				return
			}
			f := e.Args[1]
			sends++
			if f.K == KAlloc {
				ex.Obl("handed out", "made up")
				if s.cmd(f) != "ERROR" {
					ex.Bad(s, "handed out", "made up", e.Instr, "the I/O goroutine hands out a frame of its own with command %q", s.cmd(f))
				}
				return
			}
			if f != s.cells["q.got"] {
				ex.Bad(s, "handed out", "other", e.Instr, "the I/O goroutine hands out a frame that is not the one it has just received")
				return
			}
			cmd := s.cmd(f)
			ex.Obl("handed out", cmd)
			var want *T
			switch cmd {
			case "ERROR":
				return
			case "RECEIPT":
				want = hdr(s, f, "receipt-id")
			case "MESSAGE":
				want = hdr(s, f, "subscription")
			default:
				ex.Bad(s, "handed out", "command "+cmd, e.Instr, "the I/O goroutine hands out a frame that may be neither RECEIPT nor MESSAGE nor ERROR")
				return
			}
			if key := s.cells["q.key."+e.Args[0].String()]; key == nil || !same(s, key, want) {
				ex.Bad(s, "handed out", cmd+" to", e.Instr, "a %s frame is handed to a channel that was not found under the id in the frame", cmd)
			}
		}
	}}, forkNilFrames, nil, nil)
	if sends < 4 {
		c.Undecided("frames handed out by the I/O goroutine: found %d", sends)
	}
	c.NeedObl("remembered", 1)
	c.NeedObl("handed out", 4)
}

// requestChan is the channel of a request.
func (a *api) requestChan(s *State, req *T) *T {
	if ch := fieldByType(req, s.ex.isFrameChan); ch != nil {
		return ch
	}
	n, ok := req.Typ.(*types.Named)
	if !ok {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if s.ex.isFrameChan(st.Field(i).Type()) {
			return s.field(req, n, i)
		}
	}
	return nil
}

// subEnd is what the goroutine of a subscription leaves in it.
type subEnd struct {
	good   bool
	got    string // what was received last
	temp   int    // 1: on a temporary queue, -1: not
	values map[string]constant.Value
	nils   map[string]int // 1 nil, -1 not nil
	types  map[string]types.Type
}

func (d *subEnd) String() string {
	r := describe(d.values)
	for _, k := range sortedKeys(d.nils) {
		r += " " + k[strings.LastIndex(k, ".")+1:] + map[int]string{1: "=nil", -1: "≠nil"}[d.nils[k]]
	}
	if d.good {
		return "confirmed" + r
	}
	return "not confirmed" + r
}

// ended collects how the goroutine of a subscription ends, at the close of each channel of the subscription.
func (a *api) ended(at map[string][]*subEnd, on func(s *State, e *Event, sub *T)) {
	c := a.c
	loop := c.subscriptionLoop()
	if loop == nil {
		return
	}
	prefix := a.subID[:strings.LastIndex(a.subID, ".")+1]
	seen := map[string]bool{}
	temp := a.tempField()
	c.Explore("goroutine of a subscription", loop, &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		sub := subOf(s, loop)
		switch e.Kind {
		case "recv", "recvclosed":
			if ex.isFrameChan(e.Args[0].Typ) {
				s.cells["se.got"] = ex.ts.Str(e.Kind)
				s.cells["se.frame"] = e.Res
				if e.Kind == "recvclosed" {
					delete(s.cells, "se.frame")
				}
			} else if len(s.frames) > 0 && (e.Kind == "recvclosed" || !strings.HasPrefix(e.Name, prefix)) {
				s.cells["se.got"] = ex.ts.Str("done")
				delete(s.cells, "se.frame")
			} else {
				s.cells["se.got"] = ex.ts.Str("other")
				delete(s.cells, "se.frame")
			}
		case "atomic":
			setAtomic(s, e, sub)
		case "close":
			if !strings.HasPrefix(e.Name, prefix) {
				break
			}
			d := &subEnd{values: leftIn(s, sub, prefix), nils: map[string]int{}, types: map[string]types.Type{}}
			for k, v := range s.heap {
				if k.K == KFldAddr && k.A[0] == sub && strings.HasPrefix(k.S, prefix) && d.values[k.S] == nil {
					if r := s.isNil(v); r != 0 {
						d.nils[k.S] = r
						d.types[k.S] = c.p.info.fieldType[k.S]
					}
				}
			}
			for k := range d.nils {
				t := d.types[k]
				if _, isCh := t.Underlying().(*types.Chan); isCh || isNamed(derefType(t), "stomp", "Conn") {
					delete(d.nils, k)
				}
			}
			if s.cells["se.got"] == nil {
				return // closed when nothing was received: reported under C12
			}
			d.got, _ = s.cells["se.got"].Str()
			if temp != "" {
				d.temp = s.eval(s.at(sub, temp))
			}
			d.good = d.got == "recv" && s.cmd(s.cells["se.frame"]) == "RECEIPT"
			if k := e.Name + d.got + d.String() + fmt.Sprint(d.temp); !seen[k] {
				seen[k] = true
				at[e.Name] = append(at[e.Name], d)
			}
		}
		if on != nil {
			on(s, e, sub)
		}
	}}, nil, nil, nil)
}

// subFields are the fields of a subscription with their types.
func (a *api) subFields() map[string]types.Type {
	prefix := a.subID[:strings.LastIndex(a.subID, ".")+1]
	out := map[string]types.Type{}
	for k, t := range a.c.p.info.fieldType {
		if strings.HasPrefix(k, prefix) {
			out[k] = atomicValue(t)
		}
	}
	return out
}

// atomicValue is the type of what is in a variable of a type of sync/atomic.
func atomicValue(t types.Type) types.Type {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync/atomic" {
		return t
	}
	switch n.Obj().Name() {
	case "Int32":
		return types.Typ[types.Int32]
	case "Int64":
		return types.Typ[types.Int64]
	case "Uint32":
		return types.Typ[types.Uint32]
	case "Uint64":
		return types.Typ[types.Uint64]
	case "Bool":
		return types.Typ[types.Bool]
	}
	return t
}

// zeroOf is the zero value of a numeric or boolean type.
func zeroOf(t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	switch {
	case !ok:
		return nil
	case b.Info()&types.IsBoolean != 0:
		return constant.MakeBool(false)
	case b.Info()&types.IsInteger != 0:
		return constant.MakeInt64(0)
	}
	return nil
}

// after explores Unsubscribe as it continues after its subscription has ended.
func (a *api) after(f *ssa.Function, born *subEnd, ch string, d *subEnd, carries map[string]bool, exit func(s *State, e *Event)) {
	c := a.c
	for k, t := range a.subFields() {
		if d.values[k] == nil && d.nils[k] == 0 && born.nils[k] != 0 && onlyFrom(c, k) {
			d.nils[k], d.types[k] = born.nils[k], t
		}
	}
	c.Explore("Unsubscribe, "+d.String(), f, &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		sub := param(ex, f, 0)
		switch e.Kind {
		case "recv", "recvclosed":
			if e.Name != ch {
				break
			}
			if e.Kind == "recv" {
				s.dead = !carries[e.Name] // nothing is ever sent on it
				return
			}
			for k, v := range d.values {
				s.preset(sub, k, ex.ts.Const(v, c.p.info.fieldType[k]))
			}
			for k, v := range d.nils {
				t := ex.ts.Fresh("end."+k, d.types[k])
				s.assume(ex.ts.Bin(token.EQL, t, ex.ts.Nil(), nil), v == 1)
				s.preset(sub, k, t)
			}
			s.cells["c.over"] = ex.ts.Int(1)
		case "exit":
			if s.cells["c.over"] != nil {
				exit(s, e)
			}
		}
	}}, nil, nil, nil)
}

// tempField is the field of a subscription that tells that it is one to a temporary queue.
func (a *api) tempField() string {
	c := a.c
	f := c.method("", "Conn", "Subscribe")
	loop := c.subscriptionLoop()
	if f == nil || loop == nil {
		return ""
	}
	cand := map[string]bool{}
	for k, t := range a.subFields() {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			cand[k] = true
		}
	}
	c.Explore("Subscribe: temporary queues", f, &funcRule{on: func(s *State, e *Event) {
		switch e.Kind {
		case "send":
			for _, fr := range a.sent(s, e) {
				has, _ := s.hdrOfFrame(fr, "reply-to")
				s.cells["t.has"] = s.ex.ts.Int(int64(has))
			}
		case "go":
			if e.Fn != loop || s.cells["t.has"] == nil {
				return
			}
			has, _ := s.cells["t.has"].Int()
			for _, x := range e.Args {
				if !isNamed(derefType(x.Typ), "stomp", "Subscription") {
					continue
				}
				for k := range cand {
					if v := s.peek(x, k); has == 0 || v == nil || s.eval(v) != int(has) {
						delete(cand, k)
					}
				}
			}
		}
	}}, nil, nil, nil)
	for _, k := range sortedKeys(cand) {
		return k
	}
	return ""
}

// subBorn is what Subscribe puts into a subscription before it starts its goroutine.
func (a *api) subBorn() *subEnd {
	c := a.c
	d := &subEnd{values: map[string]constant.Value{}, nils: map[string]int{}}
	f := c.method("", "Conn", "Subscribe")
	loop := c.subscriptionLoop()
	if f == nil || loop == nil {
		return d
	}
	first := true
	c.Explore("Subscribe", f, &funcRule{on: func(s *State, e *Event) {
		if e.Kind == "atomic" && len(e.Args) > 0 && e.Args[0].K == KFldAddr {
			setAtomic(s, e, e.Args[0].A[0])
		}
		if e.Kind != "go" || e.Fn != loop {
			return
		}
		var sub *T
		for _, x := range e.Args {
			if isNamed(derefType(x.Typ), "stomp", "Subscription") {
				sub = x
			}
		}
		if sub == nil {
			return
		}
		values, nils := map[string]constant.Value{}, map[string]int{}
		for k, t := range a.subFields() {
			if t != c.p.info.fieldType[k] {
				values[k] = zeroOf(t)
				if v := s.cells["set."+k]; v != nil {
					values[k] = s.val(v).C
				}
				continue
			}
			v := s.peek(sub, k)
			if v == nil {
				continue
			}
			if v = s.val(v); v.K == KConst && v.C != nil {
				values[k] = v.C
			} else if r := s.isNil(v); r != 0 {
				nils[k] = r
			}
		}
		if first {
			d.values, d.nils, first = values, nils, false
			return
		}
		for k, v := range d.values {
			if w := values[k]; w == nil || !constant.Compare(v, token.EQL, w) {
				delete(d.values, k)
			}
		}
		for k, v := range d.nils {
			if nils[k] != v {
				delete(d.nils, k)
			}
		}
	}}, nil, nil, nil)
	return d
}

// onlyFrom tells whether a field of a subscription is stored to only while it is made, or by its goroutine.
func onlyFrom(c *Ctx, field string) bool {
	loop := c.subscriptionLoop()
	in := c.p.info.Reach(loop)
	for _, a := range c.p.info.accesses[field] {
		if (a.write || a.atom) && !a.ctor && !in[a.fn] {
			return false
		}
	}
	return true
}

// subOf is the subscription that a goroutine serves.
func subOf(s *State, loop *ssa.Function) *T {
	for i, p := range loop.Params {
		if isNamed(derefType(p.Type()), "stomp", "Subscription") {
			return param(s.ex, loop, i)
		}
	}
	for _, v := range loop.FreeVars {
		t := v.Type()
		if isNamed(derefType(t), "stomp", "Subscription") {
			return s.ex.ts.Param("free:"+v.Name(), t)
		}
		if isNamed(derefType(derefType(t)), "stomp", "Subscription") {
			p := s.ex.ts.Param("free:"+v.Name(), t)
			return s.ex.ts.Init(p, derefType(t))
		}
	}
	return s.ex.ts.Nil()
}

// confirmation decides what Unsubscribe makes of the end of its subscription.
func (a *api) confirmation() {
	c := a.c
	f := c.method("", "Subscription", "Unsubscribe")
	at := map[string][]*subEnd{}
	carries := map[string]bool{} // channels that messages are sent on
	a.ended(at, func(s *State, e *Event, sub *T) {
		if e.Kind == "send" {
			carries[e.Name] = true
		}
	})
	if f == nil || !a.ok() {
		return
	}
	used := false
	ends := 0
	born := a.subBorn()
	for _, ch := range sortedKeys(at) {
		for _, d := range at[ch] {
			d := d
			if d.got == "recvclosed" {
				continue // a temporary queue, unknown to the server: see C12
			}
			ends++
			ch := ch
			a.after(f, born, ch, d, carries, func(s *State, e *Event) {
				ex := s.ex
				used = true
				ex.Obl("confirmed", d.String())
				switch r := failed(s, e); {
				case d.good && r != -1:
					ex.Bad(s, "confirmed", d.String(), e.Instr, "Unsubscribe may fail although the subscription has been ended as requested")
				case !d.good && r != 1:
					ex.Bad(s, "confirmed", d.String(), e.Instr, "Unsubscribe may succeed although the server has not confirmed")
				}
			})
		}
	}
	c.Need("ends of a subscription", ends, 3)
	if !used {
		c.Undecided("Unsubscribe does not wait for the end of the subscription")
	}
	c.Explore("Unsubscribe", f, &funcRule{on: func(s *State, e *Event) {
		switch e.Kind {
		case "recv", "recvclosed":
			if len(at[e.Name]) > 0 && (e.Kind == "recvclosed" || !carries[e.Name]) {
				s.cells["c.over"] = s.ex.ts.Int(1)
			}
		case "exit":
			s.ex.Obl("confirmed", "waits")
			if s.cells["c.over"] == nil && failed(s, e) != 1 {
				s.ex.Bad(s, "confirmed", "waits", e.Instr, "Unsubscribe may succeed before the subscription has ended")
			}
		}
	}}, nil, nil, nil)
	c.NeedObl("confirmed", 3)
}
