package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// freader explores Reader.Read with the operations of the buffered reader as primitives:
// every one of them may fail, and delivers anything that its contract allows.
type freader struct {
	c     *Ctx
	read  *ssa.Function
	first string // contents of the first line; "" for any
	alias map[*T]bool
}

func bufName(name string) string {
	for _, p := range []string{"bufio.Reader.", "bufio.ReadWriter.", "bufio.Writer."} {
		if strings.HasPrefix(name, p) {
			return name[len(p):]
		}
	}
	return ""
}

func (r *freader) model(s *State, ci *CallInfo) ([]*State, bool) {
	ex := s.ex
	ts := ex.ts
	in := ci.Instr
	name := ""
	switch {
	case strings.HasPrefix(ci.Name, "bufio.Reader."):
		name = bufName(ci.Name)
	case ci.Name == "io.ReadFull" || ci.Name == "io.ReadAtLeast":
		name = ci.Name[3:]
	default:
		return nil, false
	}
	errT := types.Universe.Lookup("error").Type()
	var out []*State
	ok := func(n *State, v *T, res ...*T) {
		n.note(instrPos(in), name+" succeeds")
		ex.emit(n, &Event{Kind: "bufread", Name: name, Args: ci.Args, Res: v, Tag: "ok", Instr: in})
		ex.finish(n, in, 0, ts.Tuple(res...))
		out = append(out, n)
	}
	fail := func(n *State, v *T) {
		n.note(instrPos(in), name+" fails")
		er := n.fresh("nonnil", in, ".err", errT)
		ex.emit(n, &Event{Kind: "bufread", Name: name, Args: ci.Args, Res: v, X: []*T{er}, Tag: "fail", Instr: in})
		ex.finish(n, in, 0, ts.Tuple(v, er))
		out = append(out, n)
	}
	sig := ci.Call.Signature().Results()
	switch name {
	case "ReadBytes", "ReadSlice", "ReadString":
		o := s.clone()
		fail(o, o.fresh("data", in, ".part", sig.At(0).Type()))
		v := s.fresh("data", in, "", sig.At(0).Type())
		if r.first != "" && s.cells["rd.cmd"] == nil {
			if name == "ReadString" {
				v = ts.Str(r.first)
			} else {
				v = ts.App("bytes", sig.At(0).Type(), ts.Str(r.first))
			}
		} else {
			if l := ts.App("len", types.Typ[types.Int], v); true {
				s.ivals[l] = ival{lo: 1, hasLo: true}
			}
		}
		ok(s, v, v, ts.Nil())
	case "ReadByte":
		o := s.clone()
		fail(o, ts.Int(0))
		v := s.fresh("byte", in, "", sig.At(0).Type())
		ok(s, v, v, ts.Nil())
	case "Read":
		o := s.clone()
		fail(o, o.fresh("n", in, ".part", sig.At(0).Type()))
		v := s.fresh("n", in, "", sig.At(0).Type())
		s.ivals[v] = ival{lo: 0, hasLo: true}
		s.assume(ts.Bin(token.LSS, ts.App("len", types.Typ[types.Int], ci.Args[1]), v, nil), false)
		ok(s, v, v, ts.Nil())
	case "ReadFull":
		o := s.clone()
		fail(o, o.fresh("n", in, ".part", sig.At(0).Type()))
		ok(s, ts.Nil(), ts.App("len", types.Typ[types.Int], ci.Args[1]), ts.Nil())
	case "Buffered", "Size", "UnreadByte", "Reset":
		return nil, false
	default:
		ex.undecided("the reader uses %s, which is not modelled", ci.Name)
		return nil, false
	}
	return out, true
}

func (r *freader) explore(name string, on func(s *State, e *Event), more func(ex *Exec)) {
	r.c.Explore(name, r.read, &funcRule{on: func(s *State, e *Event) {
		on(s, e)
		if e.Kind == "bufread" && e.Tag == "ok" && s.cells["rd.cmd"] == nil {
			s.cells["rd.cmd"] = e.Res
		}
	}}, func(ex *Exec) {
		ex.Opts.Model = r.model
		ex.Opts.Lows = true
		ex.Opts.NoModel = func(n string) bool { return n == "frame.Header.ContentLength" || n == "frame.Reader.Read" }
		if more != nil {
			more(ex)
		}
	}, nil, nil)
}

// lineOf removes what takes the end-of-line off a line.
func lineOf(t *T) *T {
	for t.K == KApp && len(t.A) > 0 {
		switch t.S {
		case "len", "slice", "string", "bytes", "alias":
		case "bytes.TrimSuffix", "strings.TrimSuffix", "bytes.TrimRight", "strings.TrimRight":
			if v, ok := bytesOf(t.A[1]); !ok || strings.Trim(v, "\r\n") != "" {
				return t
			}
		default:
			return t
		}
		t = t.A[0]
	}
	return t
}

// emptyLine tells whether a line is known to hold nothing but its end.
func emptyLine(s *State, data *T) bool {
	if v, ok := bytesOf(data); ok {
		return v == "\n" || v == "\r\n"
	}
	for t, k := range s.eqc {
		if (t.IsApp("len") && k.IsInt(0) || k.IsStr("")) && lineOf(t) == data {
			return true
		}
	}
	for t, iv := range s.ivals {
		if iv.hasHi && iv.hi <= 0 && t.IsApp("len") && lineOf(t) == data {
			return true
		}
	}
	return false
}

func init() {
	register("F07", "Constant propagation of the two possible end-of-line inputs through every path of the frame reader, and effect analysis of the paths on which the goroutines of broker and client have read nothing: a lone LF or CR-LF yields neither a frame nor an error, only an empty line does so, and until the next frame is waited for nothing is sent, stored, closed or written", checkF07)
}

func checkF07(c *Ctx) {
	r := &freader{c: c, read: c.method("frame", "Reader", "Read")}
	if r.read == nil {
		return
	}
	for _, l := range []string{"\n", "\r\n"} {
		r.first = l
		q := strconv.Quote(l)
		r.explore("reader given "+q, func(s *State, e *Event) {
			ex := s.ex
			switch e.Kind {
			case "bufread":
				ex.Obl("reader", "read "+q)
				if s.cells["rd.cmd"] != nil {
					ex.Bad(s, "reader", "waits "+q, e.Instr, "after the lone end-of-line %s, more input is waited for", q)
				}
				if e.Tag == "fail" {
					s.cells["rd.fail"] = ex.ts.Int(1)
				}
			case "crash":
				ex.Bad(s, "reader", "crash "+q, e.Instr, "the lone end-of-line %s leads to a path that %s", q, crashText(e))
			case "exit":
				ex.Obl("reader", "result "+q)
				if s.cells["rd.fail"] != nil {
					return
				}
				if s.cells["rd.cmd"] == nil || s.isNil(e.Args[0]) != 1 || s.isNil(e.Args[1]) != 1 {
					ex.Bad(s, "reader", "result "+q, e.Instr, "the lone end-of-line %s does not yield the absence of a frame without an error, but (%s, %s)", q, e.Args[0], e.Args[1])
				}
			}
		}, nil)
	}
	r.first = ""
	r.explore("reader", func(s *State, e *Event) {
		if e.Kind != "exit" || s.isNil(e.Args[0]) == -1 || s.isNil(e.Args[1]) == -1 {
			return
		}
		s.ex.Obl("reader", "nothing read")
		if x := s.cells["rd.cmd"]; x == nil || !emptyLine(s, x) {
			s.ex.Bad(s, "reader", "nothing read", e.Instr, "neither a frame nor an error is returned although the line read is not known to be empty")
		}
	}, nil)
	// broker
	v := newSrv(c)
	if v.ok() {
		v.scanRead(beatEffects(c, "broker", func(s *State, e *Event) bool { return false }))
	}
	// client: the read loop may pass the absence of a frame on to the processing goroutine,
	// where it resets the read timeout
	if f := c.clientRead(); f != nil {
		c.Explore("client read loop", f, &funcRule{on: beatEffects(c, "client", func(s *State, e *Event) bool {
			return e.Kind == "send" && s.isNil(e.Args[1]) == 1
		})}, nil, nil, nil)
	}
	if f := c.clientProcess(); f != nil {
		c.Explore("client processing", f, &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			switch e.Kind {
			case "select":
				delete(s.cells, "hb")
				return
			case "recv":
				delete(s.cells, "hb")
				if ex.isFramePtr(e.Res) && s.isNil(e.Res) == 1 {
					s.cells["hb"] = e.Res
					ex.Obl("ignored", "client processing")
				}
				return
			}
			if s.cells["hb"] != nil {
				beatEffect(c, s, e, "client processing")
			}
		}}, forkNilFrames, nil, nil)
	}
	c.NeedObl("reader", 5)
	c.NeedObl("ignored", 3)
}

// forkNilFrames tells frames that are received from their absence.
func forkNilFrames(ex *Exec) {
	ex.Opts.Recv = func(s *State, ch, val *T, in ssa.Instruction) []*State {
		if !ex.isFramePtr(val) {
			return nil
		}
		n := s.clone()
		eq := ex.ts.Bin(token.EQL, val, ex.ts.Nil(), nil)
		if !s.assume(eq, false) || !n.assume(eq, true) {
			return nil
		}
		n.note(instrPos(in), "it is a heart-beat")
		return []*State{s, n}
	}
}

func (ex *Exec) isFramePtr(t *T) bool {
	return t != nil && t.Typ != nil && types.Identical(t.Typ, types.NewPointer(ex.frameType("Frame")))
}

// beatEffect reports an effect of a path on which a heart-beat was read.
func beatEffect(c *Ctx, s *State, e *Event, who string) {
	ex := s.ex
	what := ""
	switch e.Kind {
	case "send":
		what = "sends on " + e.Name
	case "close":
		what = "closes " + e.Name
	case "mapset", "mapdel", "hdrset", "hdradd", "pushback", "pushfront", "listremove":
		what = "changes " + e.Name
	case "write":
		what = "writes a frame"
	case "crash":
		what = crashText(e)
	case "store":
		if len(e.X) > 0 && e.Args[0].K != KAlloc {
			what = "changes " + e.Name
		}
	case "exit":
		what = "ends the goroutine"
	case "go":
		what = "starts a goroutine"
	default:
		return
	}
	if what != "" {
		ex.Obl("ignored", who+" "+e.Kind)
		ex.Bad(s, "ignored", who+" "+e.Kind, e.Instr, "after reading a heart-beat, which is not a frame, a path %s", what)
	}
}

// beatEffects judges what a read loop does after the reader has returned nothing.
func beatEffects(c *Ctx, who string, allowed func(s *State, e *Event) bool) func(s *State, e *Event) {
	return func(s *State, e *Event) {
		if e.Kind == "read" {
			delete(s.cells, "hb")
			if e.Tag == "heartbeat" {
				s.cells["hb"] = s.ex.ts.Int(1)
				s.ex.Obl("ignored", who)
			}
			return
		}
		if e.Kind == "recv" || e.Kind == "recvclosed" || allowed(s, e) {
			delete(s.cells, "hb") // something else happens
		}
		if s.cells["hb"] != nil {
			beatEffect(c, s, e, who)
		}
	}
}

// halves says which part of a line a value is: "before" or "after" the first colon, and
// whether there is known to be a colon.
func halves(s *State, t *T) (data *T, part string, colon bool) {
	for {
		switch {
		case t.IsApp("strings.Replacer.Replace") && len(t.A) == 2:
			t = t.A[1]
			continue
		case t.IsApp("string") || t.IsApp("bytes") || t.IsApp("alias"):
			t = t.A[0]
			continue
		}
		break
	}
	isColon := func(x *T) bool {
		if v, ok := bytesOf(x); ok {
			return v == ":"
		}
		return x.IsInt(':')
	}
	pos := func(x *T) bool {
		switch x.S {
		case "bytes.IndexByte", "bytes.Index", "strings.IndexByte", "strings.Index", "strings.IndexRune", "bytes.IndexRune":
			return x.K == KApp && isColon(x.A[1])
		}
		return false
	}
	switch {
	case t.IsApp("slice") && len(t.A) == 3:
		x, lo, hi := t.A[0], t.A[1], t.A[2]
		if lo.IsInt(0) && pos(hi) && lineOf(hi.A[0]) == lineOf(x) {
			b := s.bounds(hi)
			return lineOf(x), "before", b.hasLo && b.lo >= 0
		}
		if b, k := offset(lo); b != nil && k == 1 && pos(b) && lineOf(b.A[0]) == lineOf(x) && (hi.IsNil() || hi.IsApp("len") && lineOf(hi.A[0]) == lineOf(x)) {
			iv := s.bounds(b)
			return lineOf(x), "after", iv.hasLo && iv.lo >= 0
		}
	case t.K == KInit && t.A[0].K == KIdxAddr:
		x, i := t.A[0].A[0], t.A[0].A[1]
		if (x.IsApp("bytes.SplitN") || x.IsApp("strings.SplitN")) && isColon(x.A[1]) && x.A[2].IsInt(2) {
			n := s.bounds(s.ex.ts.App("len", nil, x))
			two := n.hasLo && n.lo >= 2
			if i.IsInt(0) {
				return lineOf(x.A[0]), "before", two
			} else if i.IsInt(1) {
				return lineOf(x.A[0]), "after", two
			}
		}
	case t.K == KApp && (strings.HasPrefix(t.S, "bytes.Cut#") || strings.HasPrefix(t.S, "strings.Cut#")) && isColon(t.A[1]):
		found := s.bools[s.ex.ts.App(t.S[:len(t.S)-1]+"2", types.Typ[types.Bool], t.A...)]
		switch t.S[len(t.S)-1] {
		case '0':
			return lineOf(t.A[0]), "before", found
		case '1':
			return lineOf(t.A[0]), "after", found
		}
	}
	return nil, "", false
}

var stompCommands = []string{"CONNECT", "STOMP", "CONNECTED", "SEND", "SUBSCRIBE", "UNSUBSCRIBE", "ACK", "NACK", "BEGIN", "COMMIT", "ABORT", "DISCONNECT", "MESSAGE", "RECEIPT", "ERROR"}

func init() {
	register("F03", "Path-sensitive dataflow and typestate analysis of the frame reader with every read of the buffered input as a primitive that may fail or deliver anything: a frame is returned only on paths on which its command was found equal to a known one, every header line was split at its colon into exactly one header, the content-length (if present) was parsed without an error, the NUL was seen and no read failed; no path panics, and indexes, slice bounds and allocation sizes are shown to be in range on 32-bit and 64-bit platforms", checkF03)
}

func checkF03(c *Ctx) {
	r := &freader{c: c, read: c.method("frame", "Reader", "Read")}
	if r.read == nil {
		return
	}
	known := map[string]bool{}
	for _, k := range stompCommands {
		known[k] = true
	}
	accepted := map[string]bool{}
	var seenCL bool
	r.explore("reader", func(s *State, e *Event) {
		ex := s.ex
		ts := ex.ts
		body := func() {
			if h := s.cells["rd.hdr"]; h != nil && !emptyLine(s, h) {
				ex.Bad(s, "headers", "end", e.Instr, "the headers end at a line that is not known to be empty")
			}
			delete(s.cells, "rd.hdr")
		}
		switch e.Kind {
		case "crash":
			ex.Bad(s, "no-panic", ex.where(e.Instr)+" "+e.Name, e.Instr, "a path %s", crashText(e))
		case "slice":
			ex.Obl("no-panic", ex.where(e.Instr)+" slice")
			if why := sliceBounds(s, e); why != "" {
				ex.Bad(s, "no-panic", ex.where(e.Instr)+" slice", e.Instr, "a slice of %s is taken whose bounds are not shown to be in range: %s", e.Args[0], why)
			}
		case "index":
			ex.Obl("no-panic", ex.where(e.Instr)+" index")
			if !indexOK(s, e) {
				ex.Bad(s, "no-panic", ex.where(e.Instr)+" index", e.Instr, "index %s of %s is not shown to be within bounds", e.Args[1], e.Args[0])
			}
		case "makeslice":
			s.noteLen(e)
			ex.Obl("no-panic", ex.where(e.Instr)+" make")
			if why := sizeOK(s, e.Args[0]); why != "" {
				ex.Bad(s, "no-panic", ex.where(e.Instr)+" make", e.Instr, "memory is allocated for a length that %s: %s", why, e.Args[0])
			}
		case "bufread":
			ex.Obl("reads", e.Name)
			if e.Tag == "fail" {
				s.cells["rd.fail"] = ts.Int(1)
				return
			}
			if s.cells["rd.cmd"] == nil {
				return // the command
			}
			d, _ := int64(-1), 0
			if strings.HasPrefix(e.Name, "Read") && len(e.Args) > 1 && (e.Name == "ReadBytes" || e.Name == "ReadString" || e.Name == "ReadSlice") {
				if k, ok := s.val(e.Args[1]).Int(); ok {
					d = k
				}
			}
			switch {
			case d == '\n':
				if h := s.cells["rd.hdr"]; h != nil {
					ex.Bad(s, "headers", "dropped", e.Instr, "a header line may be read without its header being added to the frame")
				}
				s.cells["rd.hdr"] = e.Res
				ex.Obl("headers", "line")
			case d == 0:
				body()
				s.cells["rd.nul"] = ts.Int(1)
			case e.Name == "ReadByte":
				body()
				s.cells["rd.nulbyte"] = e.Res
			default:
				body()
			}
		case "hdradd", "hdrset":
			h := s.cells["rd.hdr"]
			ex.Obl("headers", "split")
			n, np, nc := halves(s, e.Args[1])
			v, vp, vc := halves(s, e.Args[2])
			switch {
			case h == nil || n != h || v != h:
				ex.Bad(s, "headers", "source", e.Instr, "a header is added that is not the one of the line just read: %s, %s", e.Args[1], e.Args[2])
			case np != "before" || vp != "after":
				ex.Bad(s, "headers", "split", e.Instr, "a header is not made of what precedes and what follows the first colon: %s, %s", e.Args[1], e.Args[2])
			case !nc || !vc:
				ex.Bad(s, "headers", "colon", e.Instr, "a header line is accepted that is not known to have a colon")
			}
			if e.Kind == "hdrset" {
				ex.Bad(s, "headers", "set", e.Instr, "a header that is read replaces an earlier one of the same name")
			}
			delete(s.cells, "rd.hdr")
		case "exit":
			f, err := e.Args[0], e.Args[1]
			ex.Obl("result", "exit")
			if s.cells["rd.fail"] != nil {
				ex.Obl("result", "failed read")
				if s.isNil(err) != -1 {
					ex.Bad(s, "result", "failed read", e.Instr, "the input ends or fails, but no error is returned")
				}
				if s.isNil(f) == 1 || s.isNil(err) == -1 {
					return
				}
			}
			if s.isNil(f) == 1 && s.isNil(err) == 1 {
				if x := s.cells["rd.cmd"]; x == nil || !emptyLine(s, x) {
					ex.Bad(s, "result", "nothing", e.Instr, "neither a frame nor an error is returned although the line read is not known to be empty")
				}
				return
			}
			if s.isNil(err) == -1 {
				return
			}
			// a frame is returned
			body()
			ex.Obl("result", "frame")
			cmd := s.cmdOf(f)
			k, ok := cmd.Str()
			if !ok || !known[k] {
				ex.Bad(s, "result", "command", e.Instr, "a frame is returned whose command is not known to be one of the protocol's: %s", cmd)
			} else {
				accepted[k] = true
			}
			cl, val := s.hdrOfFrame(f, "content-length")
			switch cl {
			case 0:
				ex.Bad(s, "result", "content-length", e.Instr, "a frame is returned without its content-length having been looked at")
			case 1:
				seenCL = true
				if why := numberChecked(s, val); why != "" {
					ex.Bad(s, "result", "content-length", e.Instr, "a frame is returned whose content-length %s", why)
				}
			}
			nul := s.cells["rd.nul"] != nil
			if b := s.cells["rd.nulbyte"]; b != nil {
				nul = s.val(b).IsInt(0)
			}
			if !nul {
				ex.Bad(s, "result", "NUL", e.Instr, "a frame is returned whose body is not known to be terminated by NUL")
			}
		}
	}, nil)
	for _, k := range stompCommands {
		if !accepted[k] && len(accepted) > 0 {
			c.Fail("result", "accepts "+k, c.p.Pos(r.read.Pos()), "no path returns a %s frame", k)
		}
	}
	if !seenCL {
		c.Undecided("no path returns a frame with a content-length")
	}
	c.NeedObl("headers", 2)
	c.NeedObl("reads", 2)
	c.NeedObl("no-panic", 3)
}

// offset splits a term into one without an added constant and that constant; a nil term
// stands for zero.
func offset(t *T) (*T, int64) {
	var k int64
	for {
		if n, ok := t.Int(); ok {
			return nil, k + n
		}
		if t.K == KApp && len(t.A) == 2 && (t.S == "+" || t.S == "-") {
			if n, ok := t.A[1].Int(); ok {
				if t.S == "-" {
					n = -n
				}
				k += n
				t = t.A[0]
				continue
			}
		}
		return t, k
	}
}

// noteLen remembers the length that a slice was made with.
func (s *State) noteLen(e *Event) {
	var l []*T
	if g := s.cells["~len"]; g != nil {
		for _, x := range g.A {
			if x.A[0] != e.Res {
				l = append(l, x)
			}
		}
	}
	s.cells["~len"] = s.ex.ts.Tuple(append(l, s.ex.ts.Tuple(e.Res, e.Args[0]))...)
}

func (s *State) madeLen(x *T) *T {
	if g := s.cells["~len"]; g != nil {
		for _, y := range g.A {
			if y.A[0] == x {
				return y.A[1]
			}
		}
	}
	return nil
}

// numberChecked tells why a text is not known to have been parsed as a number without an error.
func numberChecked(s *State, val *T) string {
	for t, e := range s.eqc {
		if !e.IsNil() || t.K != KApp {
			continue
		}
		switch t.S {
		case "strconv.ParseUint#1", "strconv.ParseInt#1", "strconv.Atoi#1":
			if t.A[0] == val {
				return ""
			}
		}
	}
	return "is not known to be a number"
}

// sizeOK tells why an allocation size is not known to be acceptable on every platform.
func sizeOK(s *State, n *T) string {
	for n.K == KApp && strings.HasPrefix(n.S, "conv:") {
		n = n.A[0]
	}
	if n.IsApp("len") {
		return ""
	}
	b := s.bounds(n)
	if n.K == KApp && (n.S == "strconv.ParseUint#0" || n.S == "strconv.ParseInt#0") {
		if k, ok := n.A[2].Int(); ok && (n.S == "strconv.ParseUint#0" && k <= 31 || n.S == "strconv.ParseInt#0" && k <= 32) && k > 0 {
			b.hi, b.hasHi = 1<<31-1, true
		}
		if n.S == "strconv.ParseUint#0" {
			b.lo, b.hasLo = 0, true
		}
	}
	switch {
	case !b.hasLo || b.lo < 0:
		return "may be negative"
	case !b.hasHi || b.hi > 1<<31-1:
		return "may exceed what a 32-bit platform can represent, where it panics"
	}
	return ""
}

// sliceBounds tells why the bounds of a slice expression are not known to be in range.
func sliceBounds(s *State, e *Event) string {
	x, lo, hi := e.Args[0], e.Args[1], e.Args[2]
	if x.K == KAlloc {
		return ""
	}
	l := s.ex.ts.App("len", types.Typ[types.Int], x)
	// known to be at most len(x)
	atMost := func(t *T) bool {
		if t.IsNil() || t == l || s.eval(s.ex.ts.Bin(token.LSS, l, t, nil)) == -1 {
			return true
		}
		b, k := offset(t)
		if b == nil {
			v, ok := s.val(t).Int()
			n := s.bounds(l)
			return ok && (v == 0 || n.hasLo && v <= n.lo)
		}
		if b == l && k <= 0 {
			return true
		}
		switch b.S {
		case "bytes.IndexByte", "strings.IndexByte", "bytes.Index", "strings.Index", "strings.IndexRune":
			if b.K == KApp && b.A[0] == x && k <= 1 {
				return true // the position of an element
			}
		}
		if k == 0 {
			if d := s.ex.ts.Bin(token.LSS, b, l, nil); s.eval(d) == 1 {
				return true
			}
			// x was made with this length
			if s.madeLen(x) == b {
				return true
			}
		}
		return false
	}
	atLeast0 := func(t *T) bool {
		if t.IsNil() {
			return true
		}
		iv := s.bounds(t)
		if iv.hasLo && iv.lo >= 0 {
			return true
		}
		b, k := offset(t)
		if b == nil {
			return false
		}
		iv = s.bounds(b)
		if iv.hasLo && iv.lo+k >= 0 {
			return true
		}
		if b == l && k < 0 {
			for q, v := range s.bools {
				if !v || q.K != KApp || len(q.A) != 2 {
					continue
				}
				switch q.S {
				case "bytes.HasSuffix", "bytes.HasPrefix", "strings.HasSuffix", "strings.HasPrefix":
					if w, ok := bytesOf(q.A[1]); ok && q.A[0] == x && int64(len(w)) >= -k {
						return true
					}
				}
			}
		}
		return false
	}
	if !atLeast0(lo) {
		return "the start " + lo.String() + " may be negative"
	}
	if !hi.IsNil() && !atLeast0(hi) {
		return "the end " + hi.String() + " may be negative"
	}
	if !atMost(hi) {
		return "the end " + hi.String() + " may exceed the length"
	}
	if !hi.IsNil() {
		if hi != lo && !lo.IsInt(0) && s.eval(s.ex.ts.Bin(token.LSS, lo, hi, nil)) != 1 && s.eval(s.ex.ts.Bin(token.LSS, hi, lo, nil)) != -1 {
			return "the start " + lo.String() + " may exceed the end"
		}
	} else if !atMost(lo) {
		return "the start " + lo.String() + " may exceed the length"
	}
	return ""
}
