package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("B02", "Typestate of the connection over every path of its goroutine: the verdict of the authenticator, called with the frame's own login and passcode, must be known to be positive wherever anything is written or handed on before the handshake is complete; CONNECTED is written once, in answer to CONNECT or STOMP, and no frame is accepted before it or a second CONNECT after it", checkB02)
	register("B03", "Path counting of RECEIPT writes per received frame: on every path on which the connection accepts a frame, a RECEIPT with the frame's receipt value is written exactly if the frame has a receipt header, and never together with a rejection; frames handed to the dispatcher or stored in a transaction have lost that header", checkB03)
	register("B04", "Path analysis of rejections: every path that ends the connection because of a received frame writes exactly one ERROR frame with message and receipt-id, after which nothing else is written, read or handed on; no path accepts a frame although a step of its processing has failed", checkB04)
}

func isErrorType(t types.Type) bool { return t != nil && types.Identical(t, errorType) }

func checkB02(c *Ctx) {
	v := newSrv(c)
	if !v.ok() {
		return
	}
	v.scanRead(nil)
	conn := func(s *State) bool { return s.cells["connected"] != nil }
	authed := func(s *State) bool {
		a := s.cells["auth"]
		return a != nil && s.eval(a) == 1
	}
	isConnect := func(s *State) bool {
		m := s.fcmd()
		return m == "CONNECT" || m == "STOMP"
	}
	y := &cycle{v: v, headers: []string{"login", "passcode"}}
	y.on = func(s *State, e *Event) {
		ex := s.ex
		switch e.Kind {
		case "invoke":
			if !strings.HasSuffix(e.Name, ".Authenticate") {
				return
			}
			ex.Obl("authenticator", ex.where(e.Instr))
			if conn(s) || s.cells[cellF] == nil {
				return
			}
			s.cells["auth"] = e.Res
			for i, k := range []string{"login", "passcode"} {
				want := s.h(k)
				if want == nil {
					want = ex.ts.Str("")
				}
				if len(e.Args) < 3 || s.val(e.Args[i+1]) != s.val(want) {
					ex.Bad(s, "authenticator", ex.where(e.Instr)+" "+k, e.Instr, "the authenticator is not asked about the %s of the frame", k)
				}
			}
		case "write":
			m := s.cmd(e.Args[1])
			switch {
			case m == "CONNECTED":
				ex.Obl("connected-frame", ex.where(e.Instr))
				switch {
				case conn(s):
					ex.Bad(s, "connected-frame", ex.where(e.Instr)+" again", e.Instr, "CONNECTED is sent a second time")
				case s.cells[cellF] == nil || !isConnect(s):
					ex.Bad(s, "connected-frame", ex.where(e.Instr)+" unasked", e.Instr, "CONNECTED is not sent as the answer to CONNECT or STOMP")
				case !authed(s):
					ex.Bad(s, "connected-frame", ex.where(e.Instr)+" auth", e.Instr, "CONNECTED is sent although the authenticator has not accepted the client")
				}
				s.cells["connected"] = ex.ts.Int(1)
			case m != "ERROR" && !conn(s) && s.isNil(e.Args[1]) != 1:
				ex.Bad(s, "before-connected", ex.where(e.Instr), e.Instr, "a frame other than ERROR is sent before CONNECTED")
			}
		case "send":
			if e.Name == v.reqCh && s.cells[cellEnd] == nil {
				op := v.reqOp(s, e.Args[1])
				ex.Obl("before-connected", ex.where(e.Instr)+" "+op)
				if !conn(s) {
					ex.Bad(s, "before-connected", ex.where(e.Instr)+" "+op, e.Instr, "a %s request is made before the client is connected", op)
				}
			}
		case "mapset":
			if e.Name == v.subs && !conn(s) {
				ex.Bad(s, "before-connected", ex.where(e.Instr)+" subs", e.Instr, "a subscription is created before the client is connected")
			}
		case "pushback", "pushfront":
			if !conn(s) {
				ex.Bad(s, "before-connected", ex.where(e.Instr)+" list", e.Instr, "a frame is stored before the client is connected")
			}
		}
	}
	y.accept = func(s *State, f *T, e *Event) {
		ex := s.ex
		ex.Obl("accepted", s.fcmd())
		if !conn(s) {
			ex.Bad(s, "accepted", "before CONNECTED", e.Instr, "a frame is accepted although the client is not connected")
		}
		if isConnect(s) && s.cells["was"] != nil {
			ex.Bad(s, "accepted", "second CONNECT", e.Instr, "a CONNECT frame is accepted on a connection that is already connected")
		}
		if conn(s) {
			s.cells["was"] = ex.ts.Int(1)
		}
		delete(s.cells, "auth")
	}
	y.explore("connection goroutine", nil)
	c.NeedObl("authenticator", 1)
	c.NeedObl("connected-frame", 1)
	c.NeedObl("before-connected", 4)
	c.NeedObl("accepted", 8)

	// the broker's configuration asks the configured authenticator
	n := 0
	iface := c.p.NamedType("server/client", "Config")
	if iface == nil {
		c.Undecided("interface Config not found")
		return
	}
	sp := c.p.Pkgs["server"]
	for _, name := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if !types.Implements(pt, iface.Underlying().(*types.Interface)) {
			continue
		}
		m := c.p.Prog.LookupMethod(pt, nil, "Authenticate")
		if m == nil {
			continue
		}
		n++
		auth := c.field("server", "Server", "Authenticator", "server.Authenticator")
		c.Explore("authentication of "+name, m, &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			switch e.Kind {
			case "invoke":
				if strings.HasSuffix(e.Name, ".Authenticate") {
					s.cells["asked"] = e.Res
					ex.Obl("configured-authenticator", name)
					for i := 1; i <= 2; i++ {
						if len(e.Args) < 3 || len(m.Params) < 3 || e.Args[i] != ex.ts.Param(m.Params[i].Name(), m.Params[i].Type()) {
							ex.Bad(s, "configured-authenticator", name+" arguments", e.Instr, "the configured authenticator is asked about something else than login and passcode")
						}
					}
				}
			case "exit":
				ex.Obl("configured-authenticator", name+" result")
				res := s.val(e.Args[0])
				asked := s.cells["asked"]
				if asked != nil {
					if res != s.val(asked) && !(res.IsConst() && s.eval(asked) == s.eval(res)) {
						ex.Bad(s, "configured-authenticator", name+" result", e.Instr, "the verdict of the configured authenticator is not returned")
					}
					return
				}
				// not asked: there must be none
				none := false
				for k, x := range s.eqc {
					if _, fl, ok := k.FieldOf(); ok && fl == auth && x.IsNil() {
						none = true
					}
				}
				if !none {
					ex.Bad(s, "configured-authenticator", name+" skipped", e.Instr, "the configured authenticator is not asked")
				}
			}
		}}, nil, nil, nil)
	}
	c.Need("implementations of the configuration", n, 1)
}

func checkB03(c *Ctx) {
	v := newSrv(c)
	if !v.ok() {
		return
	}
	v.scanRead(nil)
	y := &cycle{v: v, headers: []string{"receipt"}}
	lost := func(s *State, f *T) bool {
		p, _ := s.hdrOfFrame(f, "receipt")
		return p == -1
	}
	y.on = func(s *State, e *Event) {
		ex := s.ex
		switch e.Kind {
		case "write":
			m := s.cmd(e.Args[1])
			if m == "ERROR" {
				if s.counted("receipt") > 0 {
					ex.Bad(s, "receipt-of-rejected", ex.where(e.Instr), e.Instr, "a frame is answered with ERROR after its RECEIPT has been sent")
				}
				ex.Obl("receipt-of-rejected", ex.where(e.Instr))
				return
			}
			if m != "RECEIPT" {
				return
			}
			ex.Obl("receipt", ex.where(e.Instr)+" "+s.fcmd())
			f, want := s.cells[cellF], s.h("receipt")
			switch {
			case f == nil || s.cells[cellEnd] != nil:
				ex.Bad(s, "receipt", ex.where(e.Instr)+" unasked", e.Instr, "a RECEIPT is sent while no frame is being processed")
			case want == nil:
				ex.Bad(s, "receipt", ex.where(e.Instr)+" unasked", e.Instr, "a RECEIPT is sent for a frame without receipt header")
			default:
				if p, val := s.hdrOfFrame(e.Args[1], "receipt-id"); p != 1 || s.val(val) != s.val(want) {
					ex.Bad(s, "receipt", ex.where(e.Instr)+" id", e.Instr, "the receipt-id of a RECEIPT is not the receipt header of the frame")
				}
				if s.counted("receipt") > 0 {
					ex.Bad(s, "receipt", ex.where(e.Instr)+" twice", e.Instr, "a second RECEIPT is sent for one frame")
				}
			}
			if e.Tag == "ok" {
				s.count("receipt")
			} else {
				s.count("failed")
			}
		case "send":
			if e.Name != v.reqCh || s.cells[cellEnd] != nil {
				return
			}
			if op := v.reqOp(s, e.Args[1]); op == "EnqueueOp" {
				f := v.c.p.structField(e.Args[1], "Frame")
				ex.Obl("receipt-header-removed", ex.where(e.Instr))
				if !lost(s, f) {
					ex.Bad(s, "receipt-header-removed", ex.where(e.Instr), e.Instr, "a frame is handed on with its receipt header")
				}
			}
		case "pushback", "pushfront":
			if len(e.Args) > 1 && e.Args[1].Un() == s.cells[cellF] {
				s.cells["c.stored"] = e.Args[1].Un()
			}
		}
	}
	y.accept = func(s *State, f *T, e *Event) {
		ex := s.ex
		m := s.fcmd()
		ex.Obl("accepted", m)
		if m == "CONNECT" || m == "STOMP" {
			return
		}
		if s.h("receipt") != nil && s.counted("receipt") == 0 && s.counted("failed") == 0 {
			ex.Bad(s, "accepted", m, e.Instr, "a %s frame with a receipt header is accepted without a RECEIPT", m)
		}
		if st := s.cells["c.stored"]; st != nil && !lost(s, st) {
			ex.Bad(s, "receipt-header-removed", "stored "+m, e.Instr, "a frame is stored in a transaction with its receipt header")
		}
	}
	y.explore("connection goroutine", nil)
	c.NeedObl("receipt", 6)
	c.NeedObl("accepted", 8)
	c.NeedObl("receipt-header-removed", 1)
	c.NeedObl("receipt-of-rejected", 1)
}

func checkB04(c *Ctx) {
	v := newSrv(c)
	if !v.ok() {
		return
	}
	v.scanRead(nil)
	y := &cycle{v: v, headers: []string{"receipt"}}
	y.begin = func(s *State, f *T) { delete(s.cells, "swallowed") }
	y.on = func(s *State, e *Event) {
		ex := s.ex
		f := s.cells[cellF]
		switch e.Kind {
		case "write":
			m := s.cmd(e.Args[1])
			if s.cells["errored"] != nil {
				ex.Bad(s, "after-error", ex.where(e.Instr), e.Instr, "something is written after the ERROR frame")
			}
			if e.Tag == "fail" {
				s.cells["failed"] = ex.ts.Int(1)
			}
			if m != "ERROR" || s.isSent(e.Args[1], v) {
				return
			}
			s.cells["errored"] = ex.ts.Int(1)
			if f == nil {
				return
			}
			ex.Obl("error-frame", ex.where(e.Instr))
			s.cells["answered"] = ex.ts.Int(1)
			if p, _ := s.hdrOfFrame(e.Args[1], "message"); p != 1 {
				ex.Bad(s, "error-frame", ex.where(e.Instr)+" message", e.Instr, "an ERROR frame without message header is sent")
			}
			p, val := s.hdrOfFrame(e.Args[1], "receipt-id")
			want := s.h("receipt")
			switch {
			case want != nil && s.cells["failed"] == nil && (p != 1 || s.val(val) != s.val(want)):
				ex.Bad(s, "error-frame", ex.where(e.Instr)+" receipt-id", e.Instr, "the ERROR frame for a frame with receipt header does not carry its value as receipt-id")
			case want == nil && p != -1:
				ex.Bad(s, "error-frame", ex.where(e.Instr)+" receipt-id", e.Instr, "the ERROR frame for a frame without receipt header carries a receipt-id")
			}
		case "send":
			if e.Name == v.reqCh && s.cells["errored"] != nil && s.cells[cellEnd] == nil {
				ex.Bad(s, "after-error", ex.where(e.Instr), e.Instr, "a request is made after the ERROR frame")
			}
		case "return":
			for k, r := range s.cells {
				if strings.HasPrefix(k, "p.") && s.isNil(r) == 1 {
					delete(s.cells, k)
				}
			}
			// a failed step
			if f == nil || len(e.Args) == 0 || s.cells[cellEnd] != nil {
				return
			}
			r := e.Args[len(e.Args)-1]
			res := e.Fn.Signature.Results()
			if !isErrorType(res.At(res.Len() - 1).Type()) {
				return
			}
			s.failedStep(r, e.Instr)
		case "pure", "invoke":
			if f == nil || e.Res == nil || s.cells[cellEnd] != nil {
				return
			}
			if e.Kind == "invoke" && !strings.HasSuffix(e.Name, ".Validate") {
				return
			}
			r := e.Res
			if r.K == KTuple {
				r = r.A[len(r.A)-1]
			}
			if isErrorType(r.Typ) {
				k := "p." + ex.site(0, e.Instr)
				s.cells[k] = r
			}
		}
	}
	clear := func(s *State) {
		for k := range s.cells {
			if strings.HasPrefix(k, "p.") {
				delete(s.cells, k)
			}
		}
		for _, k := range []string{"errored", "answered", "failed"} {
			delete(s.cells, k)
		}
	}
	y.accept = func(s *State, f *T, e *Event) {
		ex := s.ex
		m := s.fcmd()
		ex.Obl("accepted", m)
		if s.cells["errored"] != nil {
			ex.Bad(s, "after-error", "accepts "+m, e.Instr, "the connection goes on after an ERROR frame")
		}
		switch m {
		case "CONNECT", "STOMP", "DISCONNECT", "BEGIN", "ABORT", "COMMIT", "SEND", "SUBSCRIBE", "UNSUBSCRIBE", "ACK", "NACK":
		default:
			ex.Bad(s, "accepted", "command "+m, e.Instr, "a frame with an unknown or inadmissible command is accepted")
		}
		for _, k := range sortedKeys(s.cells) {
			if !strings.HasPrefix(k, "p.") {
				continue
			}
			r := s.cells[k]
			if s.isNil(r) != 1 && !matchedParts(s, r) {
				ex.Bad(s, "swallowed-error", m+" "+k[2:], e.Instr, "a %s frame is accepted although a step of its processing (%s) has failed", m, r)
			}
		}
		clear(s)
	}
	y.reject = func(s *State, f *T, e *Event) {
		ex := s.ex
		ex.Obl("rejected", s.fcmd())
		if s.cells["answered"] == nil && s.cells["failed"] == nil {
			ex.Bad(s, "rejected", s.fcmd(), e.Instr, "a %s frame ends the connection without an ERROR frame", s.fcmd())
		}
		clear(s)
	}
	y.explore("connection goroutine", nil)
	c.NeedObl("accepted", 8)
	c.NeedObl("rejected", 8)
	c.NeedObl("error-frame", 1)
	c.notes = append(c.notes, "rejection also covers the validator, the transaction store, version negotiation and number parsing: every error they return on a path must end the connection")
}

// matchedParts reports whether the failing call works on a part of a string that a regular expression has matched.
func matchedParts(s *State, r *T) bool {
	var found bool
	var walk func(t *T)
	walk = func(t *T) {
		if t.IsApp("strings.Split") {
			if sep, ok := t.A[1].Str(); ok && minParts(s, t.A[0], sep) > 1 {
				found = true
			}
		}
		if whole, _, ok := pieceOf(t, ","); ok && minParts(s, whole, ",") > 1 {
			found = true
		}
		for _, a := range t.A {
			walk(a)
		}
	}
	walk(r)
	return found
}

// failedStep remembers an error that a function of the broker has returned.
func (s *State) failedStep(r *T, in ssa.Instruction) {
	if s.isNil(r) == 1 || r.IsConst() && r.C == nil {
		return
	}
	if r.K == KFresh && strings.Contains(r.S, ".err") {
		return // a failed write ends the connection by itself
	}
	k := "p.return"
	if s.cells[k] == nil {
		s.cells[k] = r
	}
}

// isSent reports whether the frame comes from the write channel.
func (s *State) isSent(f *T, v *srv) bool {
	return f.K == KFresh && strings.HasPrefix(f.S, "recv@")
}
