package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C04 ----

func init() {
	register("C04", "Typestate analysis of the connection object: with the contents that a new connection has, every way out of MustDisconnect and of the I/O goroutine, every successful way out of Disconnect and every failing one that has not learnt of the end of the connection closes the network connection and leaves contents that differ; with each of the contents so left, every operation of the connection, its transactions and its subscriptions sends nothing and returns an error, and Disconnect and MustDisconnect do nothing and succeed; no operation succeeds without having handed a frame to the I/O goroutine", checkC04)
}

func checkC04(c *Ctx) {
	a := newAPI(c)
	proc := c.clientProcess()
	must := c.method("", "Conn", "MustDisconnect")
	disc := c.method("", "Conn", "Disconnect")
	netConn := c.field("", "Conn", "conn", "io.ReadWriteCloser")
	if !a.ok() || proc == nil || must == nil || disc == nil {
		return
	}
	prefix := netConn[:strings.LastIndex(netConn, ".")+1]
	isClose := func(s *State, e *Event, cn *T) bool {
		return e.Kind == "invoke" && strings.HasSuffix(e.Name, ".Close") && len(e.Args) > 0 && e.Args[0] == s.at(cn, netConn)
	}
	// the contents that are left when the network connection has been closed
	var ends []map[string]constant.Value
	keys := map[string]bool{}
	seen := map[string]bool{}
	for _, f := range []*ssa.Function{must, disc} {
		f := f
		closes := 0
		c.Explore(f.Name(), f, &funcRule{on: func(s *State, e *Event) {
			cn := param(s.ex, f, 0)
			switch {
			case e.Kind == "atomic":
				setAtomic(s, e, cn)
			case isClose(s, e, cn):
				s.cells["k.closed"] = s.ex.ts.Int(1)
			case e.Kind == "exit" && s.cells["k.closed"] != nil:
				closes++
				m := leftIn(s, cn, prefix)
				if k := describe(m); !seen[k] {
					seen[k] = true
					ends = append(ends, m)
					for k := range m {
						keys[k] = true
					}
				}
			}
		}}, nil, nil, nil)
		c.Obl("closes", f.Name())
		if closes == 0 {
			c.Fail("closes", f.Name(), c.p.Pos(f.Pos()), "%s never closes the network connection", f.Name())
		}
	}
	if len(ends) == 0 {
		return
	}

	// a new connection
	open := map[string]constant.Value{}
	first := true
	for _, f := range c.connectors(proc) {
		c.Explore("new connection: "+c.p.FuncName(f), f, &funcRule{on: func(s *State, e *Event) {
			if e.Kind == "atomic" && len(e.Args) > 0 && e.Args[0].K == KFldAddr {
				setAtomic(s, e, e.Args[0].A[0])
			}
			if e.Kind != "go" || e.Fn != proc {
				return
			}
			var cn *T
			for k := range s.heap {
				if k.K == KFldAddr && strings.HasPrefix(k.S, prefix) && k.A[0].K == KAlloc {
					cn = k.A[0]
				}
			}
			for _, x := range e.Args {
				if isNamed(derefType(x.Typ), "stomp", "Conn") {
					cn = x
				}
			}
			if cn == nil {
				return
			}
			m := map[string]constant.Value{}
			for k := range keys {
				t := c.p.info.fieldType[k]
				if at := atomicValue(t); at != t {
					m[k] = zeroOf(at)
					if v := s.cells["set."+k]; v != nil {
						m[k] = s.val(v).C
					}
				} else if v := s.peek(cn, k); v != nil {
					if v = s.val(v); v.K == KConst {
						m[k] = v.C
					}
				}
			}
			for k, v := range m {
				if w, ok := open[k]; v != nil && (first || ok && constant.Compare(v, token.EQL, w)) {
					open[k] = v
				} else {
					delete(open, k)
				}
			}
			first = false
		}}, nil, nil, nil)
	}
	// (fields that are set on the way but do not tell open from closed)
	for k := range keys {
		if open[k] == nil {
			delete(keys, k)
		}
	}
	if len(open) == 0 {
		c.Undecided("the fields that tell an open connection from a closed one")
		return
	}
	typesOf := map[string]types.Type{}
	for k := range open {
		typesOf[k] = atomicValue(c.p.info.fieldType[k])
	}
	differs := func(m map[string]constant.Value) bool {
		for k, v := range open {
			if w := m[k]; w != nil && !constant.Compare(v, token.EQL, w) {
				return true
			}
		}
		return false
	}
	var closed []map[string]constant.Value
	seen = map[string]bool{}
	for _, m := range ends {
		if !differs(m) {
			continue // reported below
		}
		n := map[string]constant.Value{}
		for k, v := range m {
			if keys[k] {
				n[k] = v
			}
		}
		if k := describe(n); !seen[k] {
			seen[k] = true
			closed = append(closed, n)
		}
	}

	// an open connection
	doneField := c.field("", "Conn", "done", "chan struct{}")
	for _, f := range []*ssa.Function{must, disc, proc} {
		f := f
		name := f.Name()
		if f == proc {
			name = "the I/O goroutine"
		}
		var pin *pinned
		exits := 0
		c.Explore("open: "+name, f, &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			pin.observe(s, e)
			if isClose(s, e, pin.base) {
				s.cells["k.closed"] = ex.ts.Int(1)
				delete(s.cells, "k.ended")
				return
			}
			switch e.Kind {
			case "recv", "recvclosed":
				if f == disc && (e.Name == doneField || ex.isFrameChan(e.Args[0].Typ)) {
					s.cells["k.ended"] = ex.ts.Int(1)
				}
			case "exit":
				exits++
				ex.Obl("closes", name)
				if f == disc && failed(s, e) == 1 && s.cells["k.ended"] != nil {
					return
				}
				if s.cells["k.closed"] == nil {
					ex.Bad(s, "closes", name, e.Instr, "%s may end without having closed the network connection", name)
				}
				m := map[string]constant.Value{}
				for k := range open {
					if v := s.val(s.cells["pin."+k]); v.K == KConst {
						m[k] = v.C
					}
				}
				ex.Obl("remembered", name)
				if !differs(m) {
					ex.Bad(s, "remembered", name, e.Instr, "%s may end with the connection still marked as open", name)
				}
			}
		}}, func(ex *Exec) {
			pin = &pinned{values: open, types: typesOf}
			if f == proc {
				forkNilFrames(ex)
			}
			pin.conf(ex)
		}, nil, func(s *State) {
			pin.base = c.connOf(s, f)
			pin.init(s)
		})
		c.Need("ways out of "+name, exits, 1)
	}

	// nothing succeeds without a frame
	ops := 0
	for _, f := range c.exportedMethods("Conn", "Subscription", "Transaction") {
		f := f
		if !c.sends(f) || f == disc || f == must {
			continue
		}
		res := f.Signature.Results()
		if res.Len() == 0 || res.At(res.Len()-1).Type().String() != "error" {
			continue
		}
		ops++
		recv := derefType(f.Signature.Recv().Type()).(*types.Named).Obj().Name()
		name := recv + "." + f.Name()
		auto := func(s *State) bool {
			if !strings.HasPrefix(f.Name(), "Ack") || len(f.Params) < 2 {
				return false
			}
			sub := s.at(param(s.ex, f, 1), a.msgSub)
			return s.equals(s.peek(sub, a.subAck), a.constant(s.ex, "AckAuto")) == 1
		}
		c.Explore(name, f, &funcRule{on: func(s *State, e *Event) {
			switch e.Kind {
			case "send":
				if e.Name == a.writeCh {
					s.count("k.sent")
				}
			case "exit":
				s.ex.Obl("asked", name)
				if failed(s, e) != 1 && s.counted("k.sent") == 0 && !auto(s) {
					s.ex.Bad(s, "asked", name, e.Instr, "%s may succeed without having asked the server", name)
				}
			}
		}}, nil, nil, nil)
	}
	c.Need("operations", ops, 10)

	// a closed connection
	for _, end := range closed {
		end := end
		for _, f := range c.exportedMethods("Conn", "Subscription", "Transaction") {
			f := f
			if !c.sends(f) && f != must {
				continue
			}
			quiet := f == must || f == disc
			recv := derefType(f.Signature.Recv().Type()).(*types.Named).Obj().Name()
			name := recv + "." + f.Name()
			res := f.Signature.Results()
			hasErr := res.Len() > 0 && res.At(res.Len()-1).Type().String() == "error"
			var pin *pinned
			c.Explore("closed, "+describe(end)+": "+name, f, &funcRule{on: func(s *State, e *Event) {
				ex := s.ex
				pin.observe(s, e)
				switch e.Kind {
				case "send":
					if e.Name == a.writeCh {
						ex.Bad(s, "closed", name+" sends", e.Instr, "%s may send a frame on a connection that is closed (%s)", name, describe(end))
					}
				case "close":
					if quiet {
						ex.Bad(s, "closed", name+" again", e.Instr, "%s closes a channel again when the connection is closed (%s)", name, describe(end))
					}
				case "exit":
					ex.Obl("closed", name)
					switch {
					case quiet:
						if hasErr && failed(s, e) != -1 {
							ex.Bad(s, "closed", name+" result", e.Instr, "%s may fail on a connection that is already closed (%s)", name, describe(end))
						}
					case hasErr && failed(s, e) != 1:
						if strings.HasPrefix(f.Name(), "Ack") && len(f.Params) > 1 {
							sub := s.at(param(ex, f, 1), a.msgSub)
							if s.equals(s.peek(sub, a.subAck), a.constant(ex, "AckAuto")) == 1 {
								return
							}
						}
						ex.Bad(s, "closed", name+" result", e.Instr, "%s may succeed on a connection that is closed (%s)", name, describe(end))
					}
				}
			}}, func(ex *Exec) {
				pin = &pinned{values: end, types: typesOf}
				pin.conf(ex)
			}, nil, func(s *State) {
				cn := param(s.ex, f, 0)
				switch recv {
				case "Transaction":
					cn = s.at(cn, a.txConn)
				case "Subscription":
					cn = s.at(cn, a.subConn)
				}
				pin.base = cn
				pin.init(s)
			})
		}
	}
	c.NeedObl("closes", 3)
	c.NeedObl("remembered", 3)
	c.NeedObl("asked", 10)
	c.NeedObl("closed", 12)
}
