package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fwriter explores Writer.Write with the operations of the buffered writer as primitives that
// emit text and may fail; as documented for bufio.Writer, a failed operation makes all later ones fail.
type fwriter struct {
	c     *Ctx
	write *ssa.Function
	esc   bool // judge the escaping only
}

// affine splits a number into coef*base+k.
func affine(t *T) (coef int64, base *T, k int64) {
	if n, ok := t.Int(); ok {
		return 0, nil, n
	}
	if t.K == KApp && len(t.A) == 2 {
		a, b := t.A[0], t.A[1]
		n, ok := b.Int()
		switch t.S {
		case "+", "-":
			if ok {
				c, x, m := affine(a)
				if t.S == "-" {
					n = -n
				}
				return c, x, m + n
			}
			if c, x, m := affine(a); t.S == "+" {
				if d, y, o := affine(b); x == y {
					return c + d, x, m + o
				}
			}
		case "*":
			if ok {
				c, x, m := affine(a)
				return c * n, x, m * n
			}
		case "<<":
			if ok && n >= 0 && n < 16 {
				c, x, m := affine(a)
				return c << uint(n), x, m << uint(n)
			}
		}
	}
	return 1, t, 0
}

// loopVar gives the first value and the step of a loop variable.
func (ex *Exec) loopVar(t *T) (first, step int64, ok bool) {
	phi := ex.loopPhi[t]
	if phi == nil {
		return
	}
	n := 0
	for i, e := range phi.Edges {
		if k := constOf(e); k != nil && k.Value != nil && k.Value.Kind() == constant.Int {
			first = k.Int64()
			n |= 1
			continue
		}
		b, okb := e.(*ssa.BinOp)
		if !okb || b.Op != token.ADD || b.X != ssa.Value(phi) {
			return 0, 0, false
		}
		k := constOf(b.Y)
		if k == nil || k.Value == nil {
			return 0, 0, false
		}
		if n&2 != 0 && step != k.Int64() {
			return 0, 0, false
		}
		step = k.Int64()
		n |= 2
		_ = i
	}
	return first, step, n == 3
}

// homo is a substitution of single bytes by strings.
type homo map[byte]string

func (h homo) apply(v string) string {
	var b strings.Builder
	for i := 0; i < len(v); i++ {
		if r, ok := h[v[i]]; ok {
			b.WriteString(r)
		} else {
			b.WriteByte(v[i])
		}
	}
	return b.String()
}

// replacerOf returns the pairs of a strings.Replacer that never changes.
func (ex *Exec) replacerOf(t *T) ([][2]string, bool) {
	if t.K != KInit || t.A[0].K != KGlobal {
		return nil, false
	}
	g, ok := t.A[0].V.(*ssa.Global)
	if !ok {
		return nil, false
	}
	gc := ex.p.globalConst(g)
	if gc == nil || gc.kind != "replacer" {
		return nil, false
	}
	var out [][2]string
	for i := 0; i+1 < len(gc.list); i += 2 {
		a, b := gc.list[i], gc.list[i+1]
		if a == nil || b == nil || a.Value == nil || b.Value == nil {
			return nil, false
		}
		out = append(out, [2]string{constant.StringVal(a.Value), constant.StringVal(b.Value)})
	}
	return out, true
}

// escaped splits a text into the substitution applied to it and the text it is applied to; n counts the substitutions.
func (ex *Exec) escaped(t *T) (h homo, x *T, n int, known bool) {
	h, known = homo{}, true
	then := func(next homo) {
		// first what is inside, then next
		for c, r := range h {
			h[c] = next.apply(r)
		}
		for c, r := range next {
			if _, ok := h[c]; !ok {
				h[c] = r
			}
		}
	}
	switch {
	case t.IsApp("strings.Replacer.Replace") && len(t.A) == 2:
		h, x, n, known = ex.escaped(t.A[1])
		pairs, ok := ex.replacerOf(t.A[0])
		if !ok {
			return h, x, n + 1, false
		}
		next := homo{}
		for _, p := range pairs {
			if len(p[0]) != 1 {
				return h, x, n + 1, false
			}
			if _, dup := next[p[0][0]]; !dup {
				next[p[0][0]] = p[1]
			}
		}
		then(next)
		return h, x, n + 1, known
	case t.IsApp("strings.ReplaceAll") || t.IsApp("strings.Replace") && len(t.A) == 4 && t.A[3].IsInt(-1):
		h, x, n, known = ex.escaped(t.A[0])
		a, ok1 := t.A[1].Str()
		b, ok2 := t.A[2].Str()
		if !ok1 || !ok2 || len(a) != 1 {
			return h, x, n + 1, false
		}
		then(homo{a[0]: b})
		return h, x, n + 1, known
	case t.IsApp("string") || t.IsApp("bytes") || t.IsApp("alias"):
		if !t.A[0].IsConst() {
			return ex.escaped(t.A[0])
		}
	}
	return h, t, 0, true
}

func (w *fwriter) model(s *State, ci *CallInfo) ([]*State, bool) {
	ex := s.ex
	ts := ex.ts
	in := ci.Instr
	name, content := "", (*T)(nil)
	byteTok := false
	switch ci.Name {
	case "bufio.Writer.Write", "bufio.Writer.WriteString", "io.WriteString", "io.Writer.Write", "bytes.Buffer.Write", "bytes.Buffer.WriteString", "strings.Builder.WriteString", "strings.Builder.Write":
		name, content = ci.Name, ci.Args[1]
	case "bufio.Writer.WriteByte", "bufio.Writer.WriteRune", "bytes.Buffer.WriteByte", "bytes.Buffer.WriteRune":
		name, content, byteTok = ci.Name, ci.Args[1], true
	case "strings.Replacer.WriteString":
		name, content = ci.Name, ts.App("strings.Replacer.Replace", types.Typ[types.String], ci.Args[0], ci.Args[2])
	case "bufio.Writer.Flush":
		name = "Flush"
	case "frame.Header.Len":
		ex.finish(s, in, 0, ts.App("hlen", types.Typ[types.Int], ci.Args[0]))
		return one(s), true
	case "fmt.Fprintf":
		name = ci.Name
		if f, ok := ci.Args[1].Str(); ok && ci.Args[2].K == KList {
			content = ts.formatted(f, ci.Args[2].A)
		}
		if content == nil {
			ex.undecided("what the writer formats with %s is not understood", ci.Args[1])
			return nil, false
		}
	case "fmt.Fprint", "fmt.Fprintln":
		name = ci.Name
		if ci.Args[1].K == KList {
			for _, x := range ci.Args[1].A {
				y := ts.formatted("%v", []*T{x})
				if y == nil || content != nil {
					content = nil // blanks between operands are not modelled
					break
				}
				content = y
			}
		}
		if content == nil {
			ex.undecided("what the writer prints is not understood")
			return nil, false
		}
		if ci.Name == "fmt.Fprintln" {
			content = ts.Bin(token.ADD, content, ts.Str("\n"), types.Typ[types.String])
		}
	case "bufio.Writer.Reset", "bufio.Writer.ReadFrom", "bytes.Buffer.WriteTo", "io.Copy":
		ex.undecided("the writer uses %s, which is not modelled", ci.Name)
		return nil, false
	default:
		return nil, false
	}
	if s.isNil(ci.Args[0]) == 1 {
		return ex.crash(s, in, "nilderef", ci.Args[0]), true
	}
	sig := ci.Call.Signature().Results()
	var out []*State
	errT := types.Universe.Lookup("error").Type()
	res := func(n *State, err *T) {
		switch sig.Len() {
		case 0:
			ex.finish(n, in, 0, nil)
		case 1:
			ex.finish(n, in, 0, err)
		default:
			ex.finish(n, in, 0, ts.Tuple(n.fresh("n", in, "", types.Typ[types.Int]), err))
		}
		out = append(out, n)
	}
	o := s.clone()
	o.note(instrPos(in), name+" fails")
	o.cells["w.fail"] = ts.Int(1)
	er := o.fresh("nonnil", in, ".err", errT)
	ex.emit(o, &Event{Kind: "bufwrite", Name: name, Args: ci.Args, Res: content, X: []*T{er}, Tag: "fail", Instr: in})
	res(o, er)
	if s.cells["w.fail"] == nil {
		tag := "ok"
		if byteTok {
			tag = "byte"
		}
		ex.emit(s, &Event{Kind: "bufwrite", Name: name, Args: ci.Args, Res: content, Tag: tag, Instr: in})
		res(s, ts.Nil())
	}
	return out, true
}

// piece of the text that is written: constant text, or the value of a term
type piece struct {
	str string
	t   *T // nil: constant
}

func textPieces(t *T, byteTok bool) []piece {
	if byteTok {
		if k, ok := t.Int(); ok && k >= 0 && k < 128 {
			return []piece{{str: string(rune(k))}}
		}
		return []piece{{t: t}}
	}
	if v, ok := bytesOf(t); ok {
		return []piece{{str: v}}
	}
	switch {
	case t.IsApp("bytes") || t.IsApp("string") || t.IsApp("alias"):
		return textPieces(t.A[0], false)
	case t.IsApp("+") && len(t.A) == 2, t.IsApp("append") && len(t.A) == 2:
		return append(textPieces(t.A[0], false), textPieces(t.A[1], false)...)
	case t.K == KList:
		var v []byte
		for _, x := range t.A {
			k, ok := x.Int()
			if !ok {
				return []piece{{t: t}}
			}
			v = append(v, byte(k))
		}
		return []piece{{str: string(v)}}
	case t.IsNil():
		return nil
	}
	return []piece{{t: t}}
}

// entry recognises the name ("key") or value ("val") of a header entry; i is the position of
// the string in the collection of names and values.
func (w *fwriter) entry(s *State, h, t *T) (what string, coef int64, base *T, k int64) {
	if (t.IsApp("hkey") || t.IsApp("hval")) && t.A[0] == h {
		c, b, k := affine(t.A[1])
		if t.IsApp("hval") {
			return "val", 2 * c, b, 2*k + 1
		}
		return "key", 2 * c, b, 2 * k
	}
	if t.K == KInit && t.A[0].K == KIdxAddr && t.A[0].A[0].K == KInit && t.A[0].A[0].A[0].K == KFldAddr && t.A[0].A[0].A[0].A[0] == h {
		c, b, k := affine(t.A[0].A[1])
		if k%2 != 0 {
			return "val", c, b, k
		}
		return "key", c, b, k
	}
	return "", 0, nil, 0
}

func idxTerm(ts *Terms, coef int64, base *T, k int64) *T {
	if base == nil {
		base = ts.Nil()
	}
	return ts.Tuple(ts.Int(coef), base, ts.Int(k))
}

func (w *fwriter) explore(name string, rule string) {
	var f, hdr *T
	setup := func(ex *Exec) {
		ts0 := ex.ts
		f = ts0.Param(w.write.Params[1].Name(), w.write.Params[1].Type())
		hdr = ts0.Init(ts0.FldAddr(f, "frame.Frame.Header", nil), ex.headerPtr())
		ex.Opts.Model = w.model
		ex.Opts.NoModel = func(n string) bool { return n == "frame.Writer.Write" }
		ex.Opts.Lows = true
	}
	st := func(s *State) string {
		if c := s.cells["w.st"]; c != nil {
			v, _ := c.Str()
			return v
		}
		return "start"
	}
	bad := func(s *State, e *Event, construct, format string, args ...interface{}) {
		if !w.esc {
			s.ex.Bad(s, "grammar", construct, e.Instr, format, args...)
		}
	}
	w.c.Explore(name, w.write, &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		ts := ex.ts
		switch e.Kind {
		case "crash":
			bad(s, e, "crash", "a path %s", crashText(e))
		case "hdrset", "hdradd", "hdrdel", "hdraddall":
			bad(s, e, "changes", "the header is changed while the frame is being written")
		case "branch":
			w.decide(s, e, hdr, bad)
		case "bufwrite":
			if !w.esc {
				ex.Obl("errors", e.Name)
			}
			if e.Tag == "fail" {
				return
			}
			if e.Name == "Flush" {
				s.cells["w.flushed"] = ts.Int(1)
				return
			}
			delete(s.cells, "w.flushed")
			for _, p := range textPieces(e.Res, e.Tag == "byte") {
				w.token(s, e, f, hdr, p, st, bad)
			}
		case "exit":
			err := e.Args[0]
			if w.esc {
				return
			}
			ex.Obl("errors", "result")
			if s.cells["w.fail"] != nil {
				if s.isNil(err) != -1 {
					ex.Bad(s, "errors", "failed", e.Instr, "a write or flush fails, but no error is returned")
				}
				return
			}
			if s.isNil(err) != 1 {
				ex.Bad(s, "errors", "invented", e.Instr, "an error may be returned although no write has failed: %s", err)
				return
			}
			if x := st(s); x != "end" {
				bad(s, e, "incomplete "+x, "a frame is reported as written although it is not complete: %s is missing", wants(x))
			}
			if s.cells["w.flushed"] == nil {
				ex.Bad(s, "errors", "flush", e.Instr, "a frame is reported as written although part of it may still be in the buffer")
			}
		}
	}}, setup, nil, nil)
}

func wants(st string) string {
	return map[string]string{"start": "the command", "cmdnl": "the end of the command line", "hdr": "the empty line", "colon": "the colon of a header line",
		"val": "the value of a header", "valnl": "the end of a header line", "body": "the body", "nul": "the NUL byte"}[st]
}

// emptyBytes tells whether a byte slice is known to be empty.
func (s *State) emptyBytes(x *T) bool {
	if s.isNil(x) == 1 {
		return true
	}
	if b := s.bounds(s.ex.ts.App("len", types.Typ[types.Int], x)); b.hasHi && b.hi <= 0 {
		return true
	}
	return false
}

// decide follows the decisions whether there is another header entry to be written.
func (w *fwriter) decide(s *State, e *Event, hdr *T, bad func(s *State, e *Event, construct, format string, args ...interface{})) {
	ex := s.ex
	ts := ex.ts
	cond := e.Args[0]
	v := s.eval(cond)
	for cond.IsApp("!") {
		cond = cond.A[0]
		v = -v
	}
	if v == 0 || cond.K != KApp || len(cond.A) != 2 {
		return
	}
	unit := func(b *T) int64 {
		isLen := func(t *T) bool {
			return t.IsApp("len") && t.A[0].K == KInit && t.A[0].A[0].K == KFldAddr && t.A[0].A[0].A[0] == hdr
		}
		switch {
		case b == nil:
		case b.IsApp("hlen") && b.A[0] == hdr:
			return 2
		case b.IsApp("/") && b.A[1].IsInt(2) && isLen(b.A[0]), b.IsApp(">>") && b.A[1].IsInt(1) && isLen(b.A[0]):
			return 2
		case isLen(b):
			return 1
		}
		return 0
	}
	ca, ba, ka := affine(cond.A[0])
	cb, bb, kb := affine(cond.A[1])
	more := false
	var u, c, k int64
	var b *T
	switch {
	case cond.S == "<" && unit(bb) > 0 && cb == 1 && kb == 0:
		more, u, c, b, k = v == 1, unit(bb), ca, ba, ka
	case cond.S == "<" && unit(ba) > 0 && ca == 1:
		more, u, c, b, k = v == -1, unit(ba), cb, bb, kb-ka-1
	case cond.S == "==" && unit(bb) > 0 && cb == 1 && kb == 0:
		more, u, c, b, k = v == -1, unit(bb), ca, ba, ka
	case cond.S == "==" && unit(ba) > 0 && ca == 1 && ka == 0:
		more, u, c, b, k = v == -1, unit(ba), cb, bb, kb
	default:
		return
	}
	if b != nil && unit(b) > 0 {
		return
	}
	at := idxTerm(ts, c*u, b, k*u)
	if !w.esc {
		ex.Obl("grammar", "header entries")
	}
	if !more {
		s.cells["w.loop"] = ts.Str("done")
		return
	}
	if d := s.cells["w.due"]; d != nil && d != at {
		bad(s, e, "skipped", "a header entry may be left out")
	}
	if b == nil {
		if d := s.cells["w.due"]; k != 0 && d == nil {
			bad(s, e, "order", "header entries are not written from the first one on")
		}
	} else if first, step, ok := ex.loopVar(b); !ok || c*u*first+k*u != 0 || c*u*step != 2 {
		bad(s, e, "order", "header entries are not written one after the other, from the first one on")
	}
	s.cells["w.due"] = at
	s.cells["w.loop"] = ts.Str("more")
}

func (w *fwriter) token(s *State, e *Event, f, hdr *T, p piece, st func(s *State) string, bad func(s *State, e *Event, construct, format string, args ...interface{})) {
	ex := s.ex
	ts := ex.ts
	set := func(n string) { s.cells["w.st"] = ts.Str(n) }
	if p.t == nil {
		for i := 0; i < len(p.str); i++ {
			c := p.str[i]
			now := st(s)
			if !w.esc {
				ex.Obl("grammar", now)
			}
			switch {
			case now == "start" && s.isNil(f) == 1 && c == '\n':
				set("end")
			case now == "cmdnl" && c == '\n':
				set("hdr")
			case now == "hdr" && c == '\n':
				l := s.cells["w.loop"]
				if s.isNil(hdr) != 1 && (l == nil || !l.IsStr("done") || s.cells["w.due"] != nil) {
					bad(s, e, "missing", "the header lines are ended although there may be another entry")
				}
				delete(s.cells, "w.loop")
				set("body")
			case now == "colon" && c == ':':
				set("val")
			case now == "valnl" && c == '\n':
				set("hdr")
			case now == "body" && c == 0 && s.emptyBytes(ts.Init(ts.FldAddr(f, "frame.Frame.Body", nil), nil)), now == "nul" && c == 0:
				set("end")
			case now == "bad":
			default:
				bad(s, e, "byte "+now, "the byte %q is written where %s belongs", c, orNothing(wants(now)))
				set("bad")
			}
		}
		return
	}
	now := st(s)
	if !w.esc {
		ex.Obl("grammar", now)
	}
	h, x, n, known := ex.escaped(p.t)
	what, coef, base, k := w.entry(s, hdr, x)
	at := idxTerm(ts, coef, base, k)
	if what != "" && w.esc {
		w.judge(s, e, what, p.t, h, n, known)
	}
	switch {
	case now == "start" && n == 0 && x == ts.Init(ts.FldAddr(f, "frame.Frame.Command", nil), nil):
		set("cmdnl")
	case now == "hdr" && what == "key":
		if d := s.cells["w.due"]; d == nil {
			bad(s, e, "index", "a header entry is written that is not known to exist, or a second time")
		} else if d != at {
			bad(s, e, "index", "another header entry is written than the one whose turn it is")
		}
		s.cells["w.key"] = idxTerm(ts, coef, base, k+1)
		delete(s.cells, "w.due")
		set("colon")
	case now == "val" && what == "val":
		if d := s.cells["w.key"]; d != at {
			bad(s, e, "pair", "the value of another header entry follows a header name")
		}
		delete(s.cells, "w.key")
		set("valnl")
	case now == "body" && n == 0 && x == ts.Init(ts.FldAddr(f, "frame.Frame.Body", nil), nil):
		set("nul")
	case now == "bad":
	default:
		bad(s, e, "text "+now, "%s is written where %s belongs", p.t, orNothing(wants(now)))
		set("bad")
	}
}

func orNothing(s string) string {
	if s == "" {
		return "nothing more"
	}
	return s
}

func (w *fwriter) judge(s *State, e *Event, what string, t *T, h homo, n int, known bool) {
	ex := s.ex
	name := map[string]string{"key": "name", "val": "value"}[what]
	ex.Obl("escape", what)
	switch {
	case n == 0:
		ex.Bad(s, "escape", what, e.Instr, "a header %s is written without being escaped", name)
	case !known:
		ex.undecided("a header %s is escaped in a way that is not understood: %s", name, t)
	default:
		if why := badEscapes(h); why != "" {
			ex.Bad(s, "escape", what, e.Instr, "a header %s is escaped so that %s", name, why)
		}
		w.c.encodings = append(w.c.encodings, h)
	}
}

// badEscapes tells why a substitution is not an escaping that can be undone and keeps a value on its line.
func badEscapes(h homo) string {
	seen := map[string]byte{}
	for c := 0; c < 256; c++ {
		r, ok := h[byte(c)]
		q := string([]byte{byte(c)})
		special := c == '\\' || c == '\r' || c == '\n' || c == ':'
		if !ok || r == q {
			if special {
				return strconv.Quote(q) + " is not escaped"
			}
			continue
		}
		if strings.ContainsAny(r, "\r\n:") {
			return strconv.Quote(q) + " becomes " + strconv.Quote(r) + ", which contains a character with a meaning of its own"
		}
		if len(r) != 2 || r[0] != '\\' {
			return strconv.Quote(q) + " becomes " + strconv.Quote(r) + ", which is not an escape sequence"
		}
		if o, dup := seen[r]; dup {
			return strconv.Quote(q) + " and " + strconv.Quote(string([]byte{o})) + " have the same escape sequence"
		}
		seen[r] = byte(c)
	}
	return ""
}

func init() {
	register("F01", "Typestate analysis of the text that the frame writer emits, over its inlined SSA with every write to the buffer as a primitive that emits text or fails: on each path that returns no error the text is the command, a newline, a name:value line for each header entry (loop variable and exit condition of the header loop are decided from the SSA), an empty line, the body and a NUL - or a newline if there is no frame - and has been flushed; after a failure an error is returned", checkF01)
	register("F02", "Evaluation of the constant escape tables (as substitutions of single bytes, which compose exactly) and dataflow analysis of writer and reader: each header name and value passes through the escaping exactly once on its way out and through its exact inverse once on its way in", checkF02)
}

func checkF01(c *Ctx) {
	w := &fwriter{c: c, write: c.method("frame", "Writer", "Write")}
	if w.write == nil {
		return
	}
	w.explore("writer", "F01")
	c.NeedObl("grammar", 8)
	c.NeedObl("errors", 3)
}

func checkF02(c *Ctx) {
	w := &fwriter{c: c, write: c.method("frame", "Writer", "Write"), esc: true}
	r := &freader{c: c, read: c.method("frame", "Reader", "Read")}
	if w.write == nil || r.read == nil {
		return
	}
	w.explore("writer", "F02")
	enc := map[string]string{} // escape sequence -> character
	for _, h := range c.encodings {
		for b, s := range h {
			enc[s] = string([]byte{b})
		}
	}
	r.explore("reader", func(s *State, e *Event) {
		if e.Kind != "hdradd" && e.Kind != "hdrset" {
			return
		}
		ex := s.ex
		for i, what := range []string{"name", "value"} {
			ex.Obl("unescape", what)
			t := e.Args[i+1]
			n := 0
			var table *T
			for t.K == KApp {
				if t.S == "strings.Replacer.Replace" {
					n++
					table = t.A[0]
					t = t.A[1]
				} else if t.S == "string" || t.S == "alias" || t.S == "bytes" {
					t = t.A[0]
				} else {
					break
				}
			}
			if n == 0 {
				if _, part, _ := halves(s, t); part == "" {
					ex.undecided("a header %s is unescaped in a way that is not understood: %s", what, t)
				}
				ex.Bad(s, "unescape", what, e.Instr, "a header %s is taken from the input without being unescaped", what)
				continue
			}
			if n > 1 {
				ex.Bad(s, "unescape", what, e.Instr, "a header %s is unescaped twice", what)
				continue
			}
			pairs, ok := ex.replacerOf(table)
			if !ok {
				ex.undecided("the table %s with which a header %s is unescaped is not understood", table, what)
				continue
			}
			got := map[string]string{}
			for _, p := range pairs {
				if _, dup := got[p[0]]; !dup {
					got[p[0]] = p[1]
				}
				if enc[p[0]] != got[p[0]] {
					ex.Bad(s, "unescape", what, e.Instr, "%q in a header %s is changed into %q, which is not what it was written for", p[0], what, p[1])
				}
			}
			for q, ch := range enc {
				if got[q] != ch {
					ex.Bad(s, "unescape", what, e.Instr, "a header %s written as %q is not turned back into %q", what, q, ch)
				}
			}
		}
	}, nil)
	c.NeedObl("escape", 2)
	c.NeedObl("unescape", 2)
}
