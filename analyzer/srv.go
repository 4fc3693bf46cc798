package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// funcRule is a rule made of functions.
type funcRule struct {
	wants func(s *State, e *Event) bool
	on    func(s *State, e *Event)
}

func (r *funcRule) Wants(s *State, e *Event) bool { return r.wants != nil && r.wants(s, e) }
func (r *funcRule) On(s *State, e *Event)         { r.on(s, e) }

// srv holds the anchors of the server's connection code.
type srv struct {
	c                             *Ctx
	proc, read, ctor              *ssa.Function
	reqCh, subCh, writeCh, readCh string
	subFrame, subAck, subList     string
	subID, subMsg, subConn        string
	subs, stateFunc, validator    string
	version, txStore, connSubList string
	listField, subDest            string
	ops                           map[string]int64
	readNil                       bool // a nil frame can be put on the read channel
	errs                          map[string]bool
}

func newSrv(c *Ctx) *srv {
	v := &srv{c: c, ops: map[string]int64{}}
	v.proc, v.read = c.serverProcess(), c.serverRead()
	v.ctor = c.fn("server/client", "NewConn")
	f := func(n, t string) string { return c.field("server/client", "Conn", n, t) }
	g := func(n, t string) string { return c.field("server/client", "Subscription", n, t) }
	v.reqCh, v.subCh = f("requestChannel", "chan client.Request"), f("subChannel", "chan *client.Subscription")
	v.writeCh, v.readCh = f("writeChannel", ""), f("readChannel", "")
	v.subFrame, v.subAck, v.subList = g("frame", "*frame.Frame"), g("ack", ""), g("subList", "*client.SubscriptionList")
	v.subID, v.subMsg, v.subConn = g("id", ""), g("msgId", "uint64"), g("conn", "*client.Conn")
	v.subDest = g("dest", "")
	v.subs = f("subs", "map[string]*client.Subscription")
	v.stateFunc = f("stateFunc", "")
	v.validator = f("validator", "stomp.Validator")
	v.version = f("version", "stomp.Version")
	v.txStore = f("txStore", "*client.txStore")
	v.connSubList = f("subList", "*client.SubscriptionList")
	v.listField = c.field("server/client", "SubscriptionList", "subs", "*list.List")
	if sp := c.p.Pkgs["server/client"]; sp != nil {
		for _, n := range []string{"SubscribeOp", "UnsubscribeOp", "EnqueueOp", "RequeueOp", "ConnectedOp", "DisconnectedOp"} {
			k, ok := sp.Pkg.Scope().Lookup(n).(*types.Const)
			if !ok {
				c.Undecided("request kind %s not found", n)
				continue
			}
			v.ops[n], _ = constant.Int64Val(k.Val())
		}
	}
	return v
}

func (v *srv) ok() bool {
	return v.proc != nil && v.read != nil && v.ctor != nil && len(v.c.undecided) == 0
}

// reqOp names the operation of a request, if it is known.
func (v *srv) reqOp(s *State, r *T) string {
	op := v.c.p.structField(r, "Op")
	if op == nil {
		return ""
	}
	if k, ok := s.val(op).Int(); ok {
		for n, x := range v.ops {
			if x == k {
				return n
			}
		}
	}
	return ""
}

var txCommands = []string{"SEND", "ACK", "NACK"}

var ackModes = []string{"auto", "client", "client-individual"}

// scanRead explores the read loop and finds out whether it hands over nil frames.
func (v *srv) scanRead(on func(s *State, e *Event)) {
	rule := &funcRule{on: func(s *State, e *Event) {
		if e.Kind == "send" && e.Name == v.readCh {
			if s.isNil(e.Args[1]) != -1 {
				v.readNil = true
			}
		}
		if on != nil {
			on(s, e)
		}
	}}
	v.c.Explore("server read loop", v.ctor, rule, func(ex *Exec) {
		ex.Opts.FollowGo = func(f *ssa.Function) bool { return f == v.read }
	}, nil, nil)
}

// conf configures an exploration of the connection goroutine.
func (v *srv) conf(ex *Exec) {
	ts := ex.ts
	ex.Opts.FollowGo = func(f *ssa.Function) bool { return f == v.proc }
	ex.Opts.Recursion = 1 // COMMIT processes the frames of the transaction
	ex.Opts.Recv = func(s *State, ch, val *T, in ssa.Instruction) []*State {
		switch ex.chanName(ch) {
		case v.subCh:
			// guaranteed by the dispatcher (checked there): the subscription is
			// in no list and carries a message frame with a destination
			s.assume(ts.Bin(eqTok, val, ts.Nil(), nil), false)
			s.heap[ts.FldAddr(val, v.subList, nil)] = ts.Nil()
			f := s.peek(val, v.subFrame)
			s.assume(ts.Bin(eqTok, f, ts.Nil(), nil), false)
			s.assume(ts.Bin(eqTok, s.peek(f, "frame.Frame.Command"), ts.Str("MESSAGE"), nil), true)
			h := s.hdrOf(f)
			s.header(h).e[ts.Str("destination")] = hdrEntry{true, ts.App("hdr", types.Typ[types.String], h, ts.Str("destination"))}
		case v.writeCh:
			s.assume(ts.Bin(eqTok, val, ts.Nil(), nil), false)
		case v.readCh:
			if !v.readNil {
				s.assume(ts.Bin(eqTok, val, ts.Nil(), nil), false)
				return nil
			}
			n := s.clone()
			s.assume(ts.Bin(eqTok, val, ts.Nil(), nil), false)
			n.assume(ts.Bin(eqTok, val, ts.Nil(), nil), true)
			n.note(instrPos(in), "the received frame is nil")
			return []*State{s, n}
		}
		return nil
	}
	ex.Opts.LoadHook = func(s *State, addr, val *T, in ssa.Instruction) []*State {
		if addr.K != KFldAddr {
			return nil
		}
		switch addr.S {
		case "container/list.Element.Value":
			// only non-nil values are put into lists (checked when they are pushed)
			s.assume(ts.Bin(eqTok, val, ts.Nil(), nil), false)
		case "frame.Frame.Command":
			// frames in a transaction (checked where they are stored)
			if val.K == KInit && v.isElem(s, addr.A[0]) {
				if _, known := s.eqc[val]; known {
					return nil
				}
				var out []*State
				for i, m := range txCommands {
					n := s
					if i < len(txCommands)-1 {
						n = s.clone()
					}
					if n.assume(ts.Bin(eqTok, val, ts.Str(m), nil), true) {
						out = append(out, n)
					}
				}
				return out
			}
		case "frame.Frame.Header":
			if v.isElem(s, addr.A[0]) && !val.HasSum() {
				x := s.header(val)
				for _, k := range []string{"receipt", "transaction"} {
					if _, ok := x.e[ts.Str(k)]; !ok {
						x.e[ts.Str(k)] = hdrEntry{}
					}
				}
			}
		case v.subAck:
			if val.K != KInit {
				return nil
			}
			if _, known := s.eqc[val]; known {
				return nil
			}
			var out []*State
			for i, m := range ackModes {
				n := s
				if i < len(ackModes)-1 {
					n = s.clone()
				}
				if n.assume(ts.Bin(eqTok, val, ts.Str(m), nil), true) {
					n.note(instrPos(in), "acknowledgement mode is "+m)
					out = append(out, n)
				}
			}
			return out
		case v.subFrame:
			// a member of the connection's list has a frame (checked when it is added)
			if val.K == KInit && v.isElem(s, addr.A[0]) {
				s.assume(ts.Bin(eqTok, val, ts.Nil(), nil), false)
			}
		case v.subList:
			if val.K == KInit && v.isElem(s, addr.A[0]) {
				s.assume(ts.Bin(eqTok, val, ts.Nil(), nil), false)
			}
		}
		return nil
	}
}

// isElem reports whether the value was taken out of a list.
func (v *srv) isElem(s *State, t *T) bool {
	t = t.Un()
	if _, f, ok := t.FieldOf(); ok && f == "container/list.Element.Value" {
		return true
	}
	return t.IsApp("elem") || t.K == KFresh && strings.HasPrefix(t.S, "ld@")
}

// explore runs a rule over the connection goroutine, started from the state the constructor leaves.
func (v *srv) explore(name string, rule Rule, more func(ex *Exec)) *Exec {
	return v.c.Explore(name, v.ctor, rule, func(ex *Exec) {
		v.conf(ex)
		if more != nil {
			more(ex)
		}
	}, nil, nil)
}

// inProc tells whether the state belongs to the goroutine (not to the constructor).
func (v *srv) inProc(s *State) bool { return len(s.frames) > 0 && s.frames[0].fn == v.proc }

// dispatcher explores the server's request processor, from the exported Serve method.
func (v *srv) dispatcher(name string, rule Rule, more func(ex *Exec)) *Exec {
	root := v.c.method("server", "Server", "Serve")
	return v.c.Explore(name, root, rule, func(ex *Exec) {
		ts := ex.ts
		ex.Opts.Devirt = map[string]*types.Named{}
		if n := v.c.p.NamedType("server/client", "Subscription"); n != nil {
			ex.Opts.Devirt["topic.Subscription"] = n
		}
		ex.Opts.Recv = func(s *State, ch, val *T, in ssa.Instruction) []*State {
			st, ok := ch.Typ.Underlying().(*types.Chan)
			if !ok || !strings.HasSuffix(typKey(st.Elem()), "server/client.Request") {
				return nil
			}
			fld := func(n string) *T {
				stt := st.Elem().Underlying().(*types.Struct)
				for i := 0; i < stt.NumFields(); i++ {
					if stt.Field(i).Name() == n {
						return s.field(val, st.Elem(), i)
					}
				}
				return nil
			}
			op, sub, frm, conn := fld("Op"), fld("Sub"), fld("Frame"), fld("Conn")
			if op == nil || sub == nil || frm == nil || conn == nil {
				ex.undecided("request fields not found")
				return nil
			}
			var out []*State
			for _, n := range sortedKeys(v.ops) {
				x := s.clone()
				if !x.assume(ts.Bin(eqTok, op, ts.Int(v.ops[n]), nil), true) {
					continue
				}
				x.note(instrPos(in), "request "+n)
				switch n {
				case "SubscribeOp":
					x.assume(ts.Bin(eqTok, sub, ts.Nil(), nil), false)
					x.heap[ts.FldAddr(sub, v.subList, nil)] = ts.Nil()
					x.heap[ts.FldAddr(sub, v.subFrame, nil)] = ts.Nil()
				case "UnsubscribeOp":
					x.assume(ts.Bin(eqTok, sub, ts.Nil(), nil), false)
				case "EnqueueOp", "RequeueOp":
					x.assume(ts.Bin(eqTok, frm, ts.Nil(), nil), false)
					x.assume(ts.Bin(eqTok, x.peek(frm, "frame.Frame.Command"), ts.Str("MESSAGE"), nil), true)
					h := x.hdrOf(frm)
					x.header(h).e[ts.Str("destination")] = hdrEntry{true, ts.App("hdr", types.Typ[types.String], h, ts.Str("destination"))}
				case "ConnectedOp", "DisconnectedOp":
					x.assume(ts.Bin(eqTok, conn, ts.Nil(), nil), false)
				}
				out = append(out, x)
			}
			return out
		}
		ex.Opts.LoadHook = func(s *State, addr, val *T, in ssa.Instruction) []*State {
			if addr.K == KFldAddr && addr.S == "container/list.Element.Value" {
				s.assume(ts.Bin(eqTok, val, ts.Nil(), nil), false)
			}
			if addr.K == KFldAddr && val.K == KInit && addr.S == v.subFrame {
				// a subscription waiting in a list has no frame (checked when it is added)
				if v.isElem(s, addr.A[0]) {
					s.assume(ts.Bin(eqTok, val, ts.Nil(), nil), true)
				}
			}
			return nil
		}
		if more != nil {
			more(ex)
		}
	}, nil, nil)
}

func constStr(k *types.Const) string { return constant.StringVal(k.Val()) }
