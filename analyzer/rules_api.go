package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// api holds the anchors of the client library.
type api struct {
	c                      *Ctx
	writeCh                string
	version                string
	txID, txConn           string
	subID, subConn, subAck string
	msgHeader, msgSub      string
	msgConn                string
}

func newAPI(c *Ctx) *api {
	a := &api{c: c}
	a.writeCh = c.field("", "Conn", "writeCh", "chan stomp.writeRequest")
	a.version = c.field("", "Conn", "version", "stomp.Version")
	a.txID = c.field("", "Transaction", "id", "string")
	a.txConn = c.field("", "Transaction", "conn", "*stomp.Conn")
	a.subID = c.field("", "Subscription", "id", "")
	a.subConn = c.field("", "Subscription", "conn", "*stomp.Conn")
	a.subAck = c.field("", "Subscription", "ackMode", "stomp.AckMode")
	a.msgHeader = c.field("", "Message", "Header", "*frame.Header")
	a.msgSub = c.field("", "Message", "Subscription", "*stomp.Subscription")
	a.msgConn = c.field("", "Message", "Conn", "*stomp.Conn")
	return a
}

func (a *api) ok() bool { return len(a.c.undecided) == 0 }

// constant of the client package, by name.
func (a *api) constant(ex *Exec, name string) *T {
	p := a.c.p.NamedType("", "Conn").Obj().Pkg()
	k, ok := p.Scope().Lookup(name).(*types.Const)
	if !ok {
		a.c.Undecided("constant %s not found", name)
		return ex.ts.Int(0)
	}
	return ex.ts.Const(k.Val(), k.Type())
}

// at is the value that a field of an object has at the start.
func (s *State) at(base *T, field string) *T {
	typ := s.ex.p.info.fieldType[field]
	if base == nil || typ == nil {
		return s.ex.ts.Nil()
	}
	return s.ex.ts.Init(s.ex.ts.FldAddr(base, field, typ), typ)
}

func (s *State) preset(base *T, field string, v *T) {
	typ := s.ex.p.info.fieldType[field]
	s.heap[s.ex.ts.FldAddr(base, field, typ)] = v
}

// param is a parameter of the root function; the receiver is number 0.
func param(ex *Exec, f *ssa.Function, i int) *T {
	if i >= len(f.Params) {
		return ex.ts.Nil()
	}
	return ex.ts.Param(f.Params[i].Name(), f.Params[i].Type())
}

// sent are the frames handed over to the goroutine that writes.
func (a *api) sent(s *State, e *Event) []*T {
	if e.Kind != "send" || e.Name != a.writeCh {
		return nil
	}
	return framesIn(s.ex, e)
}

// pinned makes fields of an object behave as memory that nobody else changes, also for atomic operations.
type pinned struct {
	base   *T
	values map[string]constant.Value
	types  map[string]types.Type
}

func (p *pinned) conf(ex *Exec) {
	old := ex.Opts.Model
	ex.Opts.Model = func(s *State, ci *CallInfo) ([]*State, bool) {
		if r, ok := p.model(s, ci); ok {
			return r, true
		}
		if old != nil {
			return old(s, ci)
		}
		return nil, false
	}
}

func (p *pinned) field(t *T) string {
	if t.K == KFldAddr && t.A[0] == p.base {
		if _, ok := p.values[t.S]; ok {
			return t.S
		}
	}
	return ""
}

func (p *pinned) init(s *State) {
	for f, v := range p.values {
		s.cells["pin."+f] = s.ex.ts.Const(v, p.types[f])
		s.preset(p.base, f, s.cells["pin."+f])
	}
}

// observe keeps the fields at their values.
func (p *pinned) observe(s *State, e *Event) {
	switch e.Kind {
	case "store":
		if len(e.Args) == 2 && e.Args[0] == p.base && p.values[e.Name] != nil {
			s.cells["pin."+e.Name] = e.Args[1]
		}
	case "lock", "unlock", "call", "callback", "invoke", "recv", "recvclosed", "send":
		for f := range p.values {
			s.preset(p.base, f, s.cells["pin."+f])
		}
	}
}

func (p *pinned) model(s *State, ci *CallInfo) ([]*State, bool) {
	op := atomicOp(ci.Name)
	if op == "" || len(ci.Args) == 0 {
		return nil, false
	}
	f := p.field(ci.Args[0])
	if f == "" {
		return nil, false
	}
	ex := s.ex
	cur := s.val(s.cells["pin."+f])
	set := func(v *T) {
		s.cells["pin."+f] = v
		s.preset(p.base, f, v)
		ex.emit(s, &Event{Kind: "store", Name: f, Args: []*T{p.base, v}, X: []*T{cur}, Instr: ci.Instr})
	}
	var res *T
	switch {
	case strings.HasPrefix(op, "Load"):
		res = cur
	case strings.HasPrefix(op, "Store"):
		set(ci.Args[1])
	case strings.HasPrefix(op, "Swap"):
		set(ci.Args[1])
		res = cur
	case strings.HasPrefix(op, "CompareAndSwap"):
		same := sameConst(cur, ci.Args[1])
		if same {
			set(ci.Args[2])
		}
		res = ex.ts.Bool(same)
	case strings.HasPrefix(op, "Add"):
		n, ok1 := cur.Int()
		d, ok2 := s.val(ci.Args[1]).Int()
		if !ok1 || !ok2 {
			return nil, false
		}
		res = ex.ts.Int(n + d)
		set(res)
	default:
		return nil, false
	}
	ex.finish(s, ci.Instr, 0, res)
	return one(s), true
}

func sameConst(a, b *T) bool {
	if a == b {
		return true
	}
	return a.K == KConst && b.K == KConst && a.C != nil && b.C != nil && a.C.Kind() == b.C.Kind() && constant.Compare(a.C, token.EQL, b.C)
}

// leftIn collects the constants that a path has put into the fields of an object.
func leftIn(s *State, base *T, prefix string) map[string]constant.Value {
	out := map[string]constant.Value{}
	for k, v := range s.heap {
		if k.K == KFldAddr && k.A[0] == base && strings.HasPrefix(k.S, prefix) {
			if v = s.val(v); v.K == KConst && v.C != nil {
				out[k.S] = v.C
			}
		}
	}
	for k, v := range s.cells {
		if f := strings.TrimPrefix(k, "set."); f != k && strings.HasPrefix(f, prefix) {
			if v = s.val(v); v.K == KConst && v.C != nil {
				out[f] = v.C
			} else {
				delete(out, f)
			}
		}
	}
	return out
}

// setAtomic remembers what an atomic operation has put into a field of an object.
func setAtomic(s *State, e *Event, base *T) {
	if len(e.Args) == 0 || e.Args[0].K != KFldAddr || e.Args[0].A[0] != base {
		return
	}
	k := "set." + e.Args[0].S
	switch {
	case strings.HasPrefix(e.Name, "Store"), strings.HasPrefix(e.Name, "Swap"):
		s.cells[k] = e.Args[1]
	case strings.HasPrefix(e.Name, "CompareAndSwap"):
		if e.Res.IsTrue() {
			s.cells[k] = e.Args[2]
		}
	case strings.HasPrefix(e.Name, "Add"):
		s.cells[k] = e.Res
	}
}

func describe(m map[string]constant.Value) string {
	var l []string
	for k, v := range m {
		l = append(l, k[strings.LastIndex(k, ".")+1:]+"="+v.String())
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// failed tells whether a call has returned an error: 1 yes, -1 no, 0 unknown.
func failed(s *State, e *Event) int {
	if len(e.Args) == 0 {
		return 0
	}
	return -s.isNil(e.Args[len(e.Args)-1])
}

// ---- C05 ----

func init() {
	register("C05", "Typestate analysis of the transaction object over the API functions: the contents that COMMIT and ABORT leave in it, on every path on which they were sent, are those with which every operation, on every path, sends nothing and returns an error; every operation that succeeds has sent exactly one frame of its kind that carries the transaction's id; the id is that of the BEGIN frame, which is sent once and never changed; the I/O goroutine writes every frame it is given exactly once", checkC05)
}

func checkC05(c *Ctx) {
	a := newAPI(c)
	if !a.ok() {
		return
	}
	prefix := a.txID[:strings.LastIndex(a.txID, ".")+1]
	want := func(name string) string {
		for _, p := range []string{"Commit", "Abort", "Send", "Ack", "Nack"} {
			if strings.HasPrefix(name, p) {
				return strings.ToUpper(p)
			}
		}
		return ""
	}
	var ends []map[string]constant.Value
	seen := map[string]bool{}
	ops := 0
	for _, f := range c.exportedMethods("Transaction") {
		f := f
		if !c.sends(f) {
			continue
		}
		ops++
		cmd := want(f.Name())
		c.Explore(c.p.FuncName(f), f, &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			tx := param(ex, f, 0)
			switch e.Kind {
			case "store":
				if e.Name == a.txID && e.Args[0] == tx {
					ex.Bad(s, "identified", "id changed", e.Instr, "the id of a transaction is changed")
				}
			case "atomic":
				setAtomic(s, e, tx)
			case "send":
				for _, fr := range a.sent(s, e) {
					ex.Obl("identified", f.Name())
					has, v := s.hdrOfFrame(fr, "transaction")
					if has != 1 || s.equals(v, s.at(tx, a.txID)) != 1 {
						ex.Bad(s, "identified", f.Name(), e.Instr, "a frame is sent by Transaction.%s without the id of the transaction in its transaction header", f.Name())
					}
					if s.counted("sent") > 0 {
						ex.Bad(s, "once", f.Name(), e.Instr, "Transaction.%s sends more than one frame", f.Name())
					}
					s.count("sent")
					m := s.cmd(fr)
					if m != cmd && cmd != "" && cmd != "SEND" {
						ex.Bad(s, "kind", f.Name(), e.Instr, "Transaction.%s sends a frame with command %q", f.Name(), m)
					}
					if m == "COMMIT" || m == "ABORT" {
						s.cells["c.ended"] = ex.ts.Int(1)
					}
				}
			case "exit":
				n := s.counted("sent")
				if s.cells["c.ended"] != nil {
					ex.Obl("ended", f.Name())
					m := leftIn(s, tx, prefix)
					delete(m, a.txID)
					if len(m) == 0 {
						ex.Bad(s, "ended", f.Name(), e.Instr, "%s has been sent, but the transaction does not remember it", cmd)
					} else if k := describe(m); !seen[k] {
						seen[k] = true
						ends = append(ends, m)
					}
				}
				if failed(s, e) == 1 {
					return
				}
				ex.Obl("once", f.Name())
				if n == 0 {
					if cmd == "ACK" {
						sub := s.at(param(ex, f, 1), a.msgSub)
						if s.equals(s.peek(sub, a.subAck), a.constant(ex, "AckAuto")) == 1 {
							return
						}
					}
					ex.Bad(s, "once", f.Name()+" nothing", e.Instr, "Transaction.%s may succeed without having sent a frame", f.Name())
				}
			}
		}}, nil, nil, nil)
	}
	c.Need("operations of a transaction", ops, 7)
	if len(ends) == 0 {
		c.Undecided("no way to end a transaction found")
		return
	}
	// an ended transaction
	for _, end := range ends {
		end := end
		for _, f := range c.exportedMethods("Transaction") {
			f := f
			if !c.sends(f) {
				continue
			}
			name := f.Name() + " after " + describe(end)
			p := &pinned{values: end, types: map[string]types.Type{}}
			for k := range end {
				p.types[k] = c.p.info.fieldType[k]
			}
			c.Explore(name, f, &funcRule{on: func(s *State, e *Event) {
				ex := s.ex
				p.observe(s, e)
				switch {
				case len(a.sent(s, e)) > 0:
					ex.Bad(s, "completed", f.Name(), e.Instr, "Transaction.%s sends a frame although the transaction has been committed or aborted", f.Name())
				case e.Kind == "exit":
					ex.Obl("completed", f.Name())
					if failed(s, e) != 1 {
						ex.Bad(s, "completed", f.Name()+" error", e.Instr, "Transaction.%s may succeed although the transaction has been committed or aborted", f.Name())
					}
				}
			}}, func(ex *Exec) {
				p.base = param(ex, f, 0)
				p.conf(ex)
			}, nil, p.init)
		}
	}
	// beginning
	begins := 0
	for _, f := range c.exportedMethods("Conn", "Subscription") {
		f := f
		if !c.sends(f) {
			continue
		}
		res := f.Signature.Results()
		isBegin := res.Len() > 0 && isNamed(derefType(res.At(0).Type()), "stomp", "Transaction")
		if isBegin {
			begins++
		}
		c.Explore(c.p.FuncName(f), f, &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			switch e.Kind {
			case "send":
				for _, fr := range a.sent(s, e) {
					switch m := s.cmd(fr); m {
					case "COMMIT", "ABORT":
						ex.Bad(s, "kind", f.Name(), e.Instr, "%s sends %s", f.Name(), m)
					case "BEGIN":
						ex.Obl("begin", f.Name())
						if !isBegin {
							ex.Bad(s, "kind", f.Name(), e.Instr, "%s sends BEGIN", f.Name())
						}
						if s.counted("sent") > 0 {
							ex.Bad(s, "begin", f.Name()+" again", e.Instr, "BEGIN is sent twice")
						}
						s.count("sent")
						if has, v := s.hdrOfFrame(fr, "transaction"); has == 1 {
							s.cells["c.id"] = v
						} else {
							ex.Bad(s, "begin", f.Name()+" id", e.Instr, "BEGIN is sent without a transaction header")
						}
					}
				}
			case "exit":
				if !isBegin {
					return
				}
				ex.Obl("begin", f.Name()+" result")
				tx := e.Args[0]
				id := s.cells["c.id"]
				if res.Len() > 1 && failed(s, e) != 1 && id == nil {
					ex.Bad(s, "begin", f.Name()+" nothing", e.Instr, "%s may succeed without having sent BEGIN", f.Name())
				}
				if id == nil {
					return
				}
				if s.isNil(tx) == 1 || s.equals(s.peek(tx, a.txID), id) != 1 {
					ex.Bad(s, "begin", f.Name()+" result", e.Instr, "the transaction returned does not have the id of the BEGIN frame")
				} else if s.equals(s.peek(tx, a.txConn), param(ex, f, 0)) != 1 {
					ex.Bad(s, "begin", f.Name()+" result", e.Instr, "the transaction returned does not belong to the connection")
				}
			}
		}}, nil, nil, nil)
	}
	c.Need("functions that begin a transaction", begins, 2)
	a.wire("passed on")
	c.NeedObl("identified", 7)
	c.NeedObl("completed", 7)
	c.NeedObl("once", 7)
	c.NeedObl("ended", 4)
}

// wire decides that the I/O goroutine writes each frame it is given exactly once, and as it is.
func (a *api) wire(rule string) {
	c := a.c
	proc := c.clientProcess()
	if proc == nil {
		return
	}
	taken := 0
	end := func(s *State, e *Event) {
		ex := s.ex
		f := s.cells["w.frame"]
		if f == nil {
			return
		}
		n := s.counted("w.n")
		m := s.cmd(f)
		ex.Obl(rule, "frame")
		if n == 0 {
			// subscriptions to temporary queues are not known to the server
			if has, _ := s.hdrOfFrame(f, "reply-to"); has == 1 && (m == "SUBSCRIBE" || m == "UNSUBSCRIBE") {
				return
			}
			ex.Bad(s, rule, "not written", e.Instr, "the I/O goroutine may drop a frame it has been given")
		}
	}
	drop := func(s *State) {
		delete(s.cells, "w.frame")
		delete(s.cells, "c.w.n")
	}
	c.Explore("I/O goroutine: "+rule, proc, &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		switch e.Kind {
		case "recv":
			if e.Name != a.writeCh {
				return
			}
			end(s, e)
			drop(s)
			if fs := framesIn(ex, &Event{Kind: "recv", Args: []*T{e.Res}}); len(fs) == 1 {
				s.cells["w.frame"] = fs[0]
			} else {
				s.cells["w.frame"] = a.requestFrame(s, e.Res)
			}
			taken++
		case "select", "recvwait":
			end(s, e)
			drop(s)
		case "write":
			f := e.Args[1]
			if s.isNil(f) == 1 || f.K == KAlloc {
				if f.K == KAlloc {
					ex.Bad(s, rule, "made up", e.Instr, "the I/O goroutine writes a frame that nobody has given to it")
				}
				return
			}
			ex.Obl(rule, "written")
			if g := s.cells["w.frame"]; g == nil || g != f {
				ex.Bad(s, rule, "other frame", e.Instr, "the I/O goroutine writes a frame other than the one it was given (%s)", f)
			}
			if s.count("w.n") > 1 {
				ex.Bad(s, rule, "twice", e.Instr, "the I/O goroutine writes a frame twice")
			}
		case "hdrset", "hdradd", "hdrdel":
			f := s.cells["w.frame"]
			if f == nil || e.Args[0] != s.hdrOf(f) {
				return
			}
			k, _ := s.val(e.Args[1]).Str()
			ex.Obl(rule, "header "+k)
			if s.cmd(f) == "UNSUBSCRIBE" && k == "receipt" {
				return
			}
			ex.Bad(s, rule, "changed "+k, e.Instr, "the I/O goroutine changes the header %s of a frame that it has been given", k)
		case "exit":
			if s.counted("w.n") == 0 && s.cells["w.frame"] != nil {
				end(s, e)
			}
		}
	}}, nil, nil, nil)
	if taken == 0 {
		c.Undecided("no request reaches the I/O goroutine")
	}
}

// requestFrame is the frame of a request.
func (a *api) requestFrame(s *State, req *T) *T {
	n, ok := req.Typ.(*types.Named)
	if !ok {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if isNamed(derefType(st.Field(i).Type()), "frame", "Frame") {
			return s.field(req, n, i)
		}
	}
	return nil
}

// ---- C06 ----

func init() {
	register("C06", "Exhaustive path analysis of Ack and Nack (of connections and transactions) for every protocol version and acknowledgement mode: a success is one frame of the right command whose headers are exactly the ones that the version prescribes, with the values of the message and its subscription, and the transaction id exactly inside transactions; or, for ACK on automatic subscriptions, no frame; a refusal sends nothing, has a reason on the path (version, mode, missing header, no received message, closed connection or transaction), and does not crash", checkC06)
}

func checkC06(c *Ctx) {
	a := newAPI(c)
	closed := c.field("", "Conn", "closed", "bool")
	if !a.ok() {
		return
	}
	cases, frames := 0, 0
	for _, t := range []string{"Conn", "Transaction"} {
		for _, m := range []string{"Ack", "Nack"} {
			f := c.method("", t, m)
			if f == nil {
				continue
			}
			for _, ver := range []string{"V10", "V11", "V12"} {
				for _, mode := range []string{"AckAuto", "AckClient", "AckClientIndividual"} {
					t, m, ver, mode := t, m, ver, mode
					cases++
					cmd := strings.ToUpper(m)
					con := fmt.Sprintf("%s.%s %s %s", t, m, ver, mode)
					key := map[string]string{"V10": "message-id", "V11": "message-id", "V12": "ack"}[ver]
					isTx := t == "Transaction"
					c.Explore(con, f, &funcRule{on: func(s *State, e *Event) {
						ex := s.ex
						msg := param(ex, f, 1)
						hdr, sub := s.at(msg, a.msgHeader), s.at(msg, a.msgSub)
						has, id := s.hdrPeek(hdr, key)
						lacks := s.isNil(hdr) == 1 || s.isNil(sub) == 1 || s.isNil(s.at(msg, a.msgConn)) == 1
						bad := func(k, format string, args ...interface{}) {
							ex.Bad(s, "acknowledge", con+": "+k, e.Instr, format, args...)
						}
						switch e.Kind {
						case "crash":
							if e.Args[0] == msg || e.Args[0] == param(ex, f, 0) {
								return
							}
							ex.Bad(s, "no crash", con, e.Instr, "%s.%s may panic (%s of %s)", t, m, e.Name, e.Args[0])
						case "select", "recvwait":
							s.cells["c.tried"] = ex.ts.Int(1)
						case "send":
							for _, fr := range a.sent(s, e) {
								frames++
								ex.Obl("acknowledge", con+" sent")
								if s.count("n") > 1 {
									bad("twice", "%s.%s sends more than one frame", t, m)
								}
								if g := s.cmd(fr); g != cmd {
									bad("command", "%s.%s sends a frame with command %q", t, m, g)
								}
								if mode == "AckAuto" {
									bad("auto", "a message of an automatic subscription is acknowledged")
								}
								if m == "Nack" && ver == "V10" {
									bad("version", "NACK is sent although STOMP 1.0 has none")
								}
								same := func(h string, want *T) bool {
									p, v := s.hdrOfFrame(fr, h)
									return p == 1 && want != nil && s.equals(v, want) == 1
								}
								absent := func(h string) bool {
									p, _ := s.hdrOfFrame(fr, h)
									return p == -1
								}
								if s.isNil(hdr) != -1 || s.isNil(sub) != -1 {
									bad("not received", "%s.%s does not find out that a message was not received", t, m)
								}
								if has != 1 {
									bad("looked", "a message is acknowledged whose %s header has not been found", key)
									return
								}
								switch ver {
								case "V12":
									if !same("id", id) {
										bad("id", "the id header is not the ack header of the message")
									}
								default:
									if !same("message-id", id) {
										bad("message-id", "the message-id header is not that of the message")
									}
									if !same("subscription", s.at(sub, a.subID)) && !(ver == "V10" && absent("subscription")) {
										bad("subscription", "the subscription header is not the id of the message's subscription")
									}
								}
								if isTx {
									if !same("transaction", s.at(param(ex, f, 0), a.txID)) {
										bad("transaction", "the frame is sent without the id of the transaction")
									}
								} else if !absent("transaction") {
									bad("transaction", "the frame may name a transaction")
								}
							}
						case "exit":
							n := s.counted("n")
							ex.Obl("acknowledge", con+" result")
							switch failed(s, e) {
							case 1:
								if n > 0 || s.cells["c.tried"] != nil {
									return
								}
								cn := param(ex, f, 0)
								if isTx {
									for k, v := range s.bools {
										if v && k.K == KInit && k.A[0].K == KFldAddr && k.A[0].A[0] == cn {
											return // the transaction is over (C05)
										}
									}
									cn = s.at(cn, a.txConn)
								}
								switch {
								case lacks, has == -1, m == "Nack" && (ver == "V10" || mode == "AckAuto"):
									return
								case s.eval(s.peek(cn, closed)) == 1:
									return
								}
								for k, v := range s.bools {
									if v && k.K == KFresh && k.Typ != nil && types.Identical(k.Typ, types.Typ[types.Bool]) {
										return // closed, read under the lock
									}
								}
								bad("refused", "%s.%s refuses a message that can be acknowledged", t, m)
							default:
								switch {
								case mode == "AckAuto" && m == "Ack":
									if failed(s, e) != -1 {
										bad("auto", "acknowledging a message of an automatic subscription may fail")
									}
								case n == 0:
									bad("nothing", "%s.%s may succeed without having sent a frame", t, m)
								case lacks:
									bad("not received", "%s.%s may succeed for a message that was not received", t, m)
								}
							}
						}
					}}, func(ex *Exec) {}, nil, func(s *State) {
						ex := s.ex
						cn := param(ex, f, 0)
						if isTx {
							cn = s.at(cn, a.txConn)
						}
						s.preset(cn, a.version, a.constant(ex, ver))
						s.preset(s.at(param(ex, f, 1), a.msgSub), a.subAck, a.constant(ex, mode))
					})
				}
			}
		}
	}
	c.Need("cases of method, version and mode", cases, 36)
	c.Need("frames sent", frames, 20)
	a.wire("passed on")
	c.NeedObl("acknowledge", 50)
}
