package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F05", "Value-flow analysis of the body in the frame reader (the reads must fill exactly the buffer that was made with the parsed content-length, tracked by offset through the read loop; without one the body is what precedes the first NUL) and of the content-length header and body from the API functions to the frame that is queued for writing, before the application's options run and after them, and through the broker", checkF05)
}

func stripConv(t *T) *T {
	for t.K == KApp && strings.HasPrefix(t.S, "conv:") {
		t = t.A[0]
	}
	return t
}

// parsedFrom returns the text that a number was parsed from, in base ten.
func parsedFrom(n *T) *T {
	n = stripConv(n)
	if n.K != KApp {
		return nil
	}
	switch n.S {
	case "strconv.ParseUint#0", "strconv.ParseInt#0":
		if len(n.A) == 3 && n.A[1].IsInt(10) {
			return n.A[0]
		}
	case "strconv.Atoi#0":
		return n.A[0]
	}
	return nil
}

// isLenText tells whether a text is the decimal length of x.
func isLenText(t, x *T) bool {
	if t == nil || t.K != KApp {
		return false
	}
	switch t.S {
	case "strconv.Itoa":
	case "strconv.FormatInt", "strconv.FormatUint":
		if !t.A[1].IsInt(10) {
			return false
		}
	default:
		return false
	}
	n := stripConv(t.A[0])
	return n.IsApp("len") && n.A[0] == x
}

func checkF05(c *Ctx) {
	r := &freader{c: c, read: c.method("frame", "Reader", "Read")}
	if r.read == nil {
		return
	}
	with, without := 0, 0
	r.explore("reader", func(s *State, e *Event) {
		ex := s.ex
		ts := ex.ts
		switch e.Kind {
		case "makeslice":
			s.noteLen(e)
		case "bufread":
			if e.Tag == "fail" {
				s.cells["bd.fail"] = ts.Int(1)
				return
			}
			switch e.Name {
			case "ReadBytes", "ReadString", "ReadSlice":
				if k, ok := s.val(e.Args[1]).Int(); ok && k == 0 {
					s.cells["bd.data"] = e.Res
				}
			case "Read", "ReadFull":
				buf, n := e.Args[1], e.Res
				if e.Name == "ReadFull" {
					s.cells["bd.full"] = buf
				}
				ex.Obl("reading", "piece")
				m, off, good := buf, ts.Int(0), false
				if o := s.cells["bd.off"]; o != nil {
					off = o
				}
				for m.IsApp("slice") {
					m = m.A[0]
				}
				// what has been read is known by the offset or by the rest of the buffer, whichever the reader goes by
				first := s.cells["bd.buf"] == nil
				byRest := first || s.cells["bd.rest"] == buf
				byOff := first && buf == m || buf.IsApp("slice") && buf.A[0] == m && (first || m == s.cells["bd.buf"] && s.cells["bd.off"] != nil) && buf.A[1] == off
				if k, ok := off.Int(); ok && !byOff && !first && buf.IsApp("slice") && buf.A[0] == m && m == s.cells["bd.buf"] {
					// after the first round of a loop that counts by constants
					v0, step, known := ex.loopVar(buf.A[1])
					byOff = known && k == v0+step
				}
				switch {
				case first:
					good = byOff
				default:
					good = byRest || byOff
				}
				if !good {
					ex.Bad(s, "reading", "place", e.Instr, "a piece of the body is not read to the place right behind what has been read: %s", buf)
					s.dead = true
					return
				}
				s.cells["bd.buf"] = m
				delete(s.cells, "bd.off")
				delete(s.cells, "bd.rest")
				switch {
				case byOff && e.Name == "ReadFull" && (buf == m || buf.A[2].IsNil()):
					s.cells["bd.off"] = ts.App("len", types.Typ[types.Int], m)
				case byOff && e.Name == "ReadFull":
					s.cells["bd.off"] = buf.A[2]
				case byOff:
					s.cells["bd.off"] = ts.Bin(token.ADD, off, n, types.Typ[types.Int])
				}
				if byRest {
					s.cells["bd.rest"] = ts.App("slice", buf.Typ, buf, n, ts.Nil())
				}
			}
		case "exit":
			f := e.Args[0]
			if s.isNil(f) == 1 || s.isNil(e.Args[1]) == -1 || s.cells["bd.fail"] != nil {
				return
			}
			body := s.peek(f, "frame.Frame.Body")
			has, val := s.hdrOfFrame(f, "content-length")
			switch has {
			case 1:
				with++
				ex.Obl("reading", "with content-length")
				made := body
				if full := body; full.IsApp("slice") && full.A[1].IsInt(0) {
					made = full.A[0]
				}
				n := s.madeLen(made)
				if n == nil || parsedFrom(n) != val {
					ex.Bad(s, "reading", "length", e.Instr, "the body of a frame with a content-length does not have the length that the header says: %s", body)
					return
				}
				if s.cells["bd.full"] == body && body == made {
					return
				}
				done := s.val(n).IsInt(0)
				if !done && s.cells["bd.buf"] == nil && s.cells["bd.full"] == nil {
					iv := s.bounds(n)
					done = iv.hasHi && iv.hi <= 0 // nothing to be read
				}
				if o := s.cells["bd.off"]; o != nil && s.cells["bd.buf"] == made {
					for _, l := range []*T{n, stripConv(n), ts.App("len", types.Typ[types.Int], made)} {
						if s.eval(ts.Bin(token.LSS, o, l, nil)) == -1 || s.eval(ts.Bin(eqTok, o, l, nil)) == 1 {
							done = true
						}
					}
				}
				rest := s.cells["bd.rest"]
				if rest == nil {
					rest = made
				}
				if s.emptyBytes(rest) {
					done = true
				}
				if !done {
					ex.Bad(s, "reading", "complete", e.Instr, "a frame may be returned before as many bytes have been read as its content-length says")
				}
			case -1:
				without++
				ex.Obl("reading", "without content-length")
				d := s.cells["bd.data"]
				if d == nil || !beforeLast(body, d) {
					ex.Bad(s, "reading", "NUL", e.Instr, "the body of a frame without content-length is not what precedes the first NUL: %s", body)
				}
			default:
				ex.Bad(s, "reading", "looked", e.Instr, "a frame is returned without its content-length having been looked at")
			}
		}
	}, nil)
	if with == 0 || without == 0 {
		c.Undecided("no path returns a frame with a content-length, or none without")
	}
	for _, m := range [][2]string{{"Conn", "Send"}, {"Transaction", "Send"}} {
		c.sendBody(m[0]+"."+m[1], c.method("", m[0], m[1]))
	}
	c.NeedObl("sending", 4)
	// the broker passes on what it received
	v := newSrv(c)
	if !v.ok() {
		return
	}
	v.scanRead(nil)
	rule := func(who string) *funcRule {
		return &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			switch e.Kind {
			case "hdrset", "hdradd", "hdrdel":
				if len(e.Args) > 1 && e.Args[1].IsStr("content-length") && e.Args[0].K != KAlloc {
					ex.Bad(s, "passing on", e.Kind, e.Instr, "the broker changes the content-length of a frame that it has received")
				}
			case "store":
				if e.Name == "frame.Frame.Body" && e.Args[0].K != KAlloc && e.Args[1] != e.X[0] {
					ex.Bad(s, "passing on", "body", e.Instr, "the broker changes the body of a frame that it has received")
				}
			case "write", "send", "storage":
				for _, f := range framesIn(ex, e) {
					ex.Obl("passing on", who+" "+e.Kind)
					if f.K != KAlloc {
						continue
					}
					b := s.peek(f, "frame.Frame.Body")
					if b.IsNil() {
						continue
					}
					has, val := s.hdrOfFrame(f, "content-length")
					same := b.IsApp("clone") || b.K == KInit && b.A[0].K == KFldAddr
					if same {
						// copied from another frame: its headers must come along
						src := b
						if b.IsApp("clone") {
							src = b.A[0]
						}
						if src.K == KInit && src.A[0].K == KFldAddr {
							h2, v2 := s.hdrPeek(s.hdrOf(src.A[0].A[0]), "content-length")
							if h2 == has && (h2 != 1 || v2 == val) {
								if h2 != 0 || s.sameHeader(f, src.A[0].A[0]) {
									continue
								}
							}
						}
					}
					if has == 1 && isLenText(val, b) {
						continue
					}
					ex.Bad(s, "passing on", "new "+e.Kind, e.Instr, "the broker sends a frame with a body whose content-length is not known to be right: %s", b)
				}
			}
		}}
	}
	v.explore("connection", rule("connection"), nil)
	v.dispatcher("dispatcher", rule("dispatcher"), nil)
	c.NeedObl("passing on", 3)
}

// sameHeader tells whether the header of f is a copy of that of g in which nothing is known to be missing.
func (s *State) sameHeader(f, g *T) bool {
	h, o := s.hdrOf(f), s.hdrOf(g)
	x := s.hdr[h]
	return h == o || x != nil && x.epoch == o
}

// framesIn returns the frames that an event hands over.
func framesIn(ex *Exec, e *Event) []*T {
	var out []*T
	for i, a := range e.Args {
		if e.Kind == "send" && i == 0 || a == nil {
			continue
		}
		if ex.isFrame(a) {
			out = append(out, a)
		} else if f := fieldByType(a, ex.isFramePtrType); f != nil && ex.isFrame(f) {
			out = append(out, f)
		}
	}
	return out
}

// beforeLast tells whether t is d without its last byte.
func beforeLast(t, d *T) bool {
	switch {
	case t.IsApp("slice") && len(t.A) == 3 && t.A[0] == d && t.A[1].IsInt(0):
		b, k := offset(t.A[2])
		return b != nil && b.IsApp("len") && b.A[0] == d && k == -1
	case t.IsApp("bytes.TrimSuffix") && t.A[0] == d:
		v, ok := bytesOf(t.A[1])
		return ok && v == "\x00"
	case t.IsApp("bytes") || t.IsApp("string"):
		return beforeLast(t.A[0], d)
	}
	return false
}

// sendBody judges the content-length and body of the frame that an API function sends.
func (c *Ctx) sendBody(name string, root *ssa.Function) {
	if root == nil {
		return
	}
	var bodyParam *ssa.Parameter
	for _, p := range root.Params {
		if types.Identical(p.Type(), types.NewSlice(types.Typ[types.Uint8])) {
			bodyParam = p
		}
	}
	if bodyParam == nil {
		c.Undecided("%s has no body parameter", name)
		return
	}
	right := func(s *State, e *Event, f *T, when string) {
		ex := s.ex
		body := ex.ts.Param(bodyParam.Name(), bodyParam.Type())
		ex.Obl("sending", name+" "+when)
		if b := s.peek(f, "frame.Frame.Body"); b != body {
			ex.Bad(s, "sending", name+" body", e.Instr, "%s the frame does not have the body given by the application, but %s", when, b)
		}
		has, val := s.hdrOfFrame(f, "content-length")
		if has != 1 || !isLenText(s.val(val), body) {
			ex.Bad(s, "sending", name+" content-length", e.Instr, "%s the frame does not have the length of the body as its content-length", when)
		}
	}
	c.Explore(name, root, &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		switch e.Kind {
		case "callbackpre":
			for _, a := range e.Args[1:] {
				if ex.isFrame(a) && s.cells["sb.opt"] == nil {
					right(s, e, a, "before the options run,")
					s.cells["sb.opt"] = a
				}
			}
		case "hdrset", "hdradd", "hdrdel":
			if s.cells["sb.opt"] != nil && len(e.Args) > 1 && e.Args[1].IsStr("content-length") {
				ex.Bad(s, "sending", name+" options", e.Instr, "the content-length is changed after the options have run, which may have removed it")
			}
		case "store":
			if s.cells["sb.opt"] != nil && e.Name == "frame.Frame.Body" && e.Args[0] == s.cells["sb.opt"] && e.Args[1] != e.X[0] {
				ex.Bad(s, "sending", name+" options", e.Instr, "the body is changed after the content-length has been computed")
			}
		case "send":
			for _, f := range framesIn(ex, e) {
				ex.Obl("sending", name+" queued")
				if o := s.cells["sb.opt"]; o == nil {
					right(s, e, f, "when it is queued for writing,")
				} else if o != f {
					ex.Bad(s, "sending", name+" other", e.Instr, "another frame is sent than the one the options were applied to")
				}
			}
		}
	}}, func(ex *Exec) {
		ex.Opts.Pre = true
	}, nil, nil)
}

// fieldByType is the value of the field of a structure whose type is accepted.
func fieldByType(v *T, ok func(types.Type) bool) *T {
	if v == nil || v.K != KStruct {
		return nil
	}
	st := v.Typ.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if ok(st.Field(i).Type()) {
			return v.A[i]
		}
	}
	return nil
}

func (ex *Exec) isFramePtrType(t types.Type) bool {
	return types.Identical(t, types.NewPointer(ex.frameType("Frame")))
}

func (ex *Exec) isFrameChan(t types.Type) bool {
	if t == nil {
		return false
	}
	ch, ok := t.Underlying().(*types.Chan)
	return ok && ex.isFramePtrType(ch.Elem())
}
