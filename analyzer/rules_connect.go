package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "Path-sensitive analysis of the functions that make a connection: every path writes one frame at most, whose command is CONNECT or STOMP, and reads one answer; a path returns a connection exactly if the answer is CONNECTED, of a version that the library knows (or without one) and with a well-formed heart-beat (or without one), and then the connection has the announced version, session and server, is served by both goroutines, and has no deadline left; the other paths return an error, and no goroutine runs. What has been dialled is closed on every path that fails afterwards. The heart-beat syntax is decided by comparing the language of the regular expression", checkC13)
}

func checkC13(c *Ctx) {
	a := newAPI(c)
	proc, read := c.clientProcess(), c.clientRead()
	netConn := c.field("", "Conn", "conn", "io.ReadWriteCloser")
	version := a.version
	session := c.field("", "Conn", "session", "string")
	server := c.field("", "Conn", "server", "string")
	if !a.ok() || proc == nil || read == nil {
		return
	}
	// commands that the connect frame can have: what is stored in a field
	stored := func(field string) (vals []string, ok bool) {
		for _, acc := range c.p.info.accesses[field] {
			if !acc.write {
				continue
			}
			st, isStore := acc.instr.(*ssa.Store)
			if !isStore {
				return nil, false
			}
			k, isConst := st.Val.(*ssa.Const)
			if !isConst || k.Value == nil || k.Value.Kind() != constant.String {
				return nil, false
			}
			vals = append(vals, constant.StringVal(k.Value))
		}
		return vals, len(vals) > 0
	}
	makers := 0
	noConn := func(s *State, e *Event) bool { return len(e.Args) == 2 && s.isNil(e.Args[0]) == 1 }
	for _, f := range c.connectors(proc) {
		f := f
		makers++
		name := c.p.FuncName(f)
		oks, fails := 0, 0
		c.Explore(name, f, &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			switch e.Kind {
			case "write":
				ex.Obl("one frame", name+" write")
				if s.counted("written") > 0 {
					ex.Bad(s, "one frame", "again", e.Instr, "more than one frame is sent before the connection is made")
				}
				if s.counted("answered") > 0 {
					ex.Bad(s, "one frame", "late", e.Instr, "a frame is sent after the answer has been read")
				}
				if e.Tag != "fail" {
					s.count("written")
				} else {
					s.cells["n.reason"] = ex.ts.Str("write")
				}
				cmd := s.cmdOf(e.Args[1])
				if k, ok := cmd.Str(); ok {
					if k != "CONNECT" && k != "STOMP" {
						ex.Bad(s, "one frame", "command", e.Instr, "the connection is opened with the command %q", k)
					}
				} else {
					field := ex.names[cmd]
					if _, fd, ok := cmd.FieldOf(); ok {
						field = fd
					} else if i := strings.Index(cmd.S, "cbw:"); i >= 0 {
						field = strings.SplitN(cmd.S[i+4:], "@", 2)[0] // what an option may have stored
					}
					vals, ok := stored(field)
					for _, k := range vals {
						ok = ok && (k == "CONNECT" || k == "STOMP")
					}
					if !ok {
						ex.Bad(s, "one frame", "command", e.Instr, "the command of the frame that opens the connection may be something else than CONNECT or STOMP: %s", cmd)
					}
				}
			case "read":
				if s.counted("written") == 0 {
					ex.Bad(s, "one frame", "unasked", e.Instr, "an answer is read before the frame has been sent")
				}
				ex.Obl("one frame", name+" read")
				if s.counted("answered") > 0 {
					ex.Bad(s, "one frame", "second answer", e.Instr, "a second frame is read before the connection is made")
				}
				s.count("answered")
				switch e.Tag {
				case "error", "heartbeat":
					s.cells["n.reason"] = ex.ts.Str(e.Tag)
				default:
					s.cells["n.response"] = e.Res
					if e.Res.K == KTuple && len(e.Res.A) > 0 {
						s.cells["n.response"] = e.Res.A[0]
					}
				}
			case "call", "pure":
				if strings.HasSuffix(e.Name, "frame.ParseHeartBeat") {
					s.cells["n.parsed"] = e.Res
				}
			case "go":
				switch e.Fn {
				case proc:
					s.count("proc")
				case read:
					s.count("reader")
				default:
					s.count("other")
				}
				if e.Fn != nil && e.Fn != proc && e.Fn != read {
					rs := c.p.info.Reach(e.Fn)
					if rs[proc] {
						s.count("proc")
					}
					if rs[read] {
						s.count("reader")
					}
				}
			case "invoke":
				if strings.HasSuffix(e.Name, "Deadline") && strings.Contains(e.Name, ".Set") && len(e.Args) == 2 {
					s.cells["n.deadline"] = e.Args[1]
				}
			case "exit":
				if len(e.Args) != 2 {
					return
				}
				resp := s.cells["n.response"]
				var hdr *T
				if resp != nil {
					hdr = s.hdrOf(resp)
				}
				// get returns the value of a header of the answer; "" if there is none; nil if it was not looked at
				get := func(k string) *T {
					if hdr == nil {
						return nil
					}
					switch p, v := s.hdrPeek(hdr, k); {
					case p == 1:
						return s.val(v)
					case p == -1:
						return ex.ts.Str("")
					}
					return nil
				}
				hb := 0 // well-formed
				if hdr != nil {
					p, v := s.hdrPeek(hdr, "heart-beat")
					if p == 1 {
						hb = 2
						for b, val := range s.errsOf("frame.ParseHeartBeat", v) {
							_ = b
							if val {
								hb = 1
							} else {
								hb = -1
							}
						}
					} else if p == -1 {
						hb = 1
					}
				}
				ver := get("version")
				failed := failed(s, e)
				if failed == 0 {
					ex.Bad(s, "answer", name+" unknown", e.Instr, "it is not clear whether %s fails here", f.Name())
					return
				}
				if failed == -1 {
					oks++
					ex.Obl("answer", name+" success")
					cn := e.Args[0]
					bad := func(k, format string, args ...interface{}) {
						ex.Bad(s, "answer", name+" "+k, e.Instr, format, args...)
					}
					if s.isNil(cn) == 1 {
						bad("nil", "%s succeeds without a connection", f.Name())
						return
					}
					switch {
					case s.counted("written") == 0:
						bad("nothing sent", "a connection is made without a frame having been sent")
						return
					case resp == nil:
						bad("no answer", "a connection is made without an answer from the server")
						return
					case s.cmd(resp) != "CONNECTED":
						bad("command", "a connection is made although the answer is not known to be CONNECTED")
						return
					}
					is := func(field, want string, v *T) {
						ex.Obl("answer", name+" "+want)
						got := s.val(s.peek(cn, field))
						if v == nil {
							bad(want, "the %s of the connection does not come from the answer", want)
							return
						}
						if got != v && s.equals(got, v) != 1 {
							bad(want, "the %s of the connection is %s, not the one that the server announced (%s)", want, got, v)
						}
					}
					is(session, "session", get("session"))
					is(server, "server", get("server"))
					if ver != nil {
						if empty(s, ver) {
							is(version, "version", ex.ts.Str("1.0"))
						} else {
							is(version, "version", ver)
							k, ok := ver.Str()
							known := false
							for _, x := range versions {
								known = known || ok && k == x
							}
							if !known {
								bad("unsupported", "a connection is made although the version of the server is not known to be supported")
							}
						}
					} else {
						bad("version", "a connection is made without looking at the version of the server")
					}
					switch hb {
					case 0:
						bad("heart-beat", "a connection is made without looking at the heart-beat of the server")
					case 2, -1:
						bad("heart-beat", "a connection is made although the heart-beat of the server may be malformed")
					}
					ex.Obl("usable", name)
					if x := s.peek(cn, netConn); x != param(ex, f, connParam(f)) {
						bad("network", "the connection does not use the network connection that was given")
					}
					if s.counted("proc") != 1 || s.counted("reader") != 1 {
						ex.Bad(s, "usable", name+" goroutines", e.Instr, "the connection is not served by exactly one I/O goroutine and one reading goroutine")
					}
					if d := s.cells["n.deadline"]; d != nil && !strings.HasPrefix(d.String(), "zero:") {
						ex.Bad(s, "usable", name+" deadline", e.Instr, "the deadline for making the connection is left in place")
					}
					return
				}
				fails++
				ex.Obl("answer", name+" failure")
				if !noConn(s, e) {
					ex.Bad(s, "answer", name+" both", e.Instr, "%s returns a connection together with an error", f.Name())
				}
				if s.counted("proc")+s.counted("reader")+s.counted("other") > 0 {
					ex.Bad(s, "usable", name+" leak", e.Instr, "%s fails, but leaves goroutines behind", f.Name())
				}
				// a good answer
				if resp != nil && s.cells["n.reason"] == nil && s.cmd(resp) == "CONNECTED" && hb != -1 && hb != 2 {
					ex.Obl("answer", name+" refusal")
					for _, x := range append([]string{""}, versions...) {
						if ver == nil || s.equals(ver, ex.ts.Str(x)) != -1 && !(x == "" && !empty(s, ver)) {
							ex.Bad(s, "answer", name+" refused", e.Instr, "%s fails although the server may have answered well (version %q)", f.Name(), x)
							break
						}
					}
				}
			}
		}}, func(ex *Exec) {
			// what the options are matters for the contents of the frame only
			ex.Opts.Forget = func(cond *T) bool {
				n, others := 0, 0
				leaves(cond, func(x *T) {
					if x.K == KFresh {
						if strings.HasPrefix(x.S, "cbw:") {
							n++
						} else {
							others++
						}
					}
				})
				return n > 0 && others == 0
			}
		}, nil, nil)
		if oks == 0 {
			c.Fail("answer", name+" never", c.p.Pos(f.Pos()), "%s never makes a connection", name)
		}
		c.Need("failing paths of "+name, fails, 6)
	}
	c.Need("functions that make a connection", makers, 1)
	a.dialled()
	heartBeatSyntax(c)
	c.NeedObl("one frame", 2)
	c.NeedObl("answer", 5)
	c.NeedObl("dialled", 2)
	c.NeedObl("syntax", 1)
}

// errsOf lists whether calls of a function with that argument are known to have succeeded.
func (s *State) errsOf(fn string, arg *T) map[*T]bool {
	out := map[*T]bool{}
	t := s.ex.ts.App(fn+"#2", errorType, s.val(arg))
	switch s.isNil(t) {
	case 1:
		out[t] = true
	case -1:
		out[t] = false
	}
	return out
}

// empty reports whether a string is known to be empty.
func empty(s *State, v *T) bool {
	if s.equals(v, s.ex.ts.Str("")) == 1 {
		return true
	}
	b := s.bounds(s.ex.ts.App("len", types.Typ[types.Int], v))
	return b.hasHi && b.hi <= 0
}

// connParam is the parameter that is the network connection.
func connParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if it, ok := p.Type().Underlying().(*types.Interface); ok {
			for j := 0; j < it.NumMethods(); j++ {
				if it.Method(j).Name() == "Write" {
					return i
				}
			}
		}
	}
	return 0
}

// dialled decides that what has been dialled is used, or closed again.
func (a *api) dialled() {
	c := a.c
	netConn := c.field("", "Conn", "conn", "io.ReadWriteCloser")
	isDial := func(n string) bool {
		return strings.HasPrefix(n, "net.") && strings.Contains(n[strings.LastIndex(n, ".")+1:], "Dial") || strings.HasPrefix(n, "crypto/tls.") && strings.Contains(n[strings.LastIndex(n, ".")+1:], "Dial")
	}
	n := 0
	inner := map[*ssa.Function]bool{}
	var fs []*ssa.Function
	for _, f := range c.p.Funcs {
		if f.Package() == nil || c.p.Rel(f.Package().Pkg) != "stomp" || f.Parent() != nil || !isExportedName(f.Name()) || len(f.Blocks) == 0 {
			continue
		}
		dials := false
		for g := range c.p.info.Reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if cal := ci.Common().StaticCallee(); cal != nil && isDial(c.p.canonName(cal)) {
							dials = true
						}
					}
				}
			}
		}
		if dials {
			fs = append(fs, f)
		}
	}
	for _, f := range fs {
		for _, g := range fs {
			if f != g && c.p.info.Reach(f)[g] {
				inner[g] = true
			}
		}
	}
	makers := map[*ssa.Function]bool{}
	for _, f := range c.connectors(c.clientProcess()) {
		makers[f] = true
	}
	for _, f := range fs {
		f := f
		n++
		name := c.p.FuncName(f)
		c.Explore(name, f, &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			switch e.Kind {
			case "call", "pure", "invoke":
				switch {
				case isDial(e.Name):
					if e.Res != nil && e.Res.K == KTuple && len(e.Res.A) == 2 {
						s.cells["n.dialled"] = e.Res
						delete(s.cells, "n.closed")
						ex.Obl("dialled", name+" dial")
					}
				case e.Kind == "invoke" && strings.HasSuffix(e.Name, ".Close"):
					if d := s.cells["n.dialled"]; d != nil && len(e.Args) > 0 && s.val(e.Args[0]) == s.val(d.A[0]) {
						s.cells["n.closed"] = ex.ts.Int(1)
					}
				}
			case "exit":
				d := s.cells["n.dialled"]
				if len(e.Args) != 2 || len(s.frames) > 1 {
					return
				}
				fl := failed(s, e)
				if d == nil || s.isNil(d.A[1]) == -1 {
					if fl != 1 {
						ex.Bad(s, "dialled", name+" error", e.Instr, "%s succeeds although no network connection was made", name)
					}
					return
				}
				ex.Obl("dialled", name+" exit")
				switch {
				case fl == 0:
					ex.Bad(s, "dialled", name+" unknown", e.Instr, "%s may return the error of the handshake without closing the network connection", name)
				case fl == 1 && s.cells["n.closed"] == nil:
					ex.Bad(s, "dialled", name+" open", e.Instr, "%s fails, but leaves the network connection open", name)
				case fl == -1 && s.cells["n.closed"] != nil:
					ex.Bad(s, "dialled", name+" closed", e.Instr, "%s succeeds, but has closed the network connection", name)
				case fl == -1:
					if s.isNil(e.Args[0]) == 1 {
						ex.Bad(s, "dialled", name+" nil", e.Instr, "%s succeeds without a connection", name)
					} else if x := s.cells["n.made"]; x == nil || x.A[0] != e.Args[0] {
						ex.Bad(s, "dialled", name+" other", e.Instr, "the connection that %s returns is not the one that was made", name)
					}
				}
			}
		}}, func(ex *Exec) {
			ex.Opts.NoInline = func(g *ssa.Function) bool { return makers[g] }
			ex.Opts.Model = func(s *State, ci *CallInfo) ([]*State, bool) {
				if ci.Fn == nil || !makers[ci.Fn] {
					return nil, false
				}
				// the function that makes the connection: it fails, or not
				if d := s.cells["n.dialled"]; d == nil || s.val(ci.Args[connParam(ci.Fn)]) != s.val(d.A[0]) {
					ex.Bad(s, "dialled", name+" foreign", ci.Instr, "the handshake is not made on the network connection that was dialled")
				}
				o := s.clone()
				err := o.fresh("nonnil", ci.Instr, ".err", errorType)
				o.note(instrPos(ci.Instr), "the handshake fails")
				ex.finish(o, ci.Instr, 0, ex.ts.Tuple(ex.ts.Nil(), err))
				cn := s.fresh("nonnil", ci.Instr, ".conn", nil)
				t := ex.ts.Tuple(cn, ex.ts.Nil())
				s.cells["n.made"] = t
				ex.finish(s, ci.Instr, 0, t)
				return []*State{s, o}, true
			}
		}, nil, nil)
	}
	_ = netConn
	c.Need("functions that dial", n, 1)
}

// heartBeatSyntax decides that ParseHeartBeat accepts nothing but two numbers.
func heartBeatSyntax(c *Ctx) {
	ph := c.p.Func("frame", "ParseHeartBeat")
	if ph == nil {
		c.Undecided("frame.ParseHeartBeat not found")
		return
	}
	const ref = "^[0-9]+,[0-9]+$"
	c.Explore("ParseHeartBeat: syntax", ph, &funcRule{on: func(s *State, e *Event) {
		if e.Kind != "exit" || len(e.Args) != 3 || len(s.frames) > 1 {
			return
		}
		ex := s.ex
		h := param(ex, ph, 0)
		matched := 0
		for b, val := range s.bools {
			if b.IsApp("regexp.Regexp.MatchString") && len(b.A) == 2 && b.A[1] == h {
				if pat, ok := ex.regexOf(b.A[0]); ok {
					eq, known := regexEqual(pat, ref)
					ex.Obl("syntax", "pattern")
					if known && !eq {
						ex.Bad(s, "syntax", "pattern", e.Instr, "the pattern %s, by which a heart-beat header is accepted, is not that of two numbers", pat)
					}
					matched = 1
					if !val {
						matched = -1
					}
				}
			}
		}
		// conversions on this path
		convs := map[*T]int{}
		conv := func(t *T) {
			if t.K == KApp && strings.HasPrefix(t.S, "strconv.") && strings.HasSuffix(t.S, "#1") {
				if k := s.isNil(t); k != 0 {
					convs[t] = k
				}
			}
		}
		for t := range s.eqc {
			conv(t)
		}
		for t := range s.nec {
			conv(t)
		}
		switch failed(s, e) {
		case -1:
			ex.Obl("syntax", "accepted")
			okConv := 0
			for _, r := range convs {
				if r == -1 {
					ex.Bad(s, "syntax", "number", e.Instr, "a heart-beat header is accepted although a number in it cannot be converted")
				}
				okConv++
			}
			if okConv < 2 {
				ex.Bad(s, "syntax", "numbers", e.Instr, "a heart-beat header is accepted without its two numbers having been converted and checked")
			}
			for i := 0; i < 2; i++ {
				// a number of milliseconds
				r := s.val(e.Args[i])
				if r.K == KApp && r.S == "*" && len(r.A) == 2 {
					for j, k := range []*T{r.A[1], r.A[0]} {
						if n, ok := k.Int(); ok && n > 0 {
							ex.Obl("syntax", "range")
							if b := s.bounds(r.A[j]); !b.hasHi || b.hi > math.MaxInt64/n {
								ex.Bad(s, "syntax", "range", e.Instr, "a number that is too big for a duration is accepted in a heart-beat header")
							}
						}
					}
				}
			}
			if matched == -1 {
				ex.Bad(s, "syntax", "pattern ignored", e.Instr, "a heart-beat header is accepted that does not have the form of two numbers")
			}
			if matched == 0 {
				// no pattern: exactly two parts, neither of which is negative
				two := false
				for b := range s.ivals {
					if b.IsApp("len") && b.A[0].K == KApp && strings.HasPrefix(b.A[0].S, "strings.Split") {
						if bd := s.bounds(b); bd.hasLo && bd.hasHi && bd.lo == 2 && bd.hi == 2 {
							two = true
						}
					}
				}
				for b, val := range s.bools {
					if b.IsApp("==") && val && (b.A[0].IsApp("len") && b.A[1].IsInt(2) || b.A[1].IsApp("len") && b.A[0].IsInt(2)) {
						two = true
					}
				}
				for t := range s.eqc {
					if t.IsApp("len") {
						if k, ok := s.val(t).Int(); ok && k == 2 {
							two = true
						}
					}
				}
				if !two {
					ex.Bad(s, "syntax", "parts", e.Instr, "a heart-beat header is accepted that may not have exactly two parts")
				}
				for t := range convs {
					if !strings.HasPrefix(t.S, "strconv.ParseUint") {
						v := ex.ts.App(strings.TrimSuffix(t.S, "#1")+"#0", nil, t.A...)
						if bd := s.bounds(v); !bd.hasLo || bd.lo < 0 {
							ex.Bad(s, "syntax", "negative", e.Instr, "a heart-beat header with a negative number may be accepted")
						}
					}
				}
			}
		case 1:
			ex.Obl("syntax", "refused")
			if matched != 1 {
				return
			}
			for _, r := range convs {
				if r == -1 {
					return
				}
			}
			for v, b := range s.ivals {
				if v.Contains(h) && b.hasLo && b.lo > 1e9 {
					return // too big
				}
			}
			for b, val := range s.bools {
				if b.IsApp("<") && val && b.A[1].Contains(h) && !b.A[0].Contains(h) || b.IsApp("<=") && val && b.A[1].Contains(h) {
					return
				}
			}
			ex.Bad(s, "syntax", "refused", e.Instr, "a well-formed heart-beat header is refused")
		}
	}}, func(ex *Exec) { ex.Opts.NoModel = func(n string) bool { return n == "frame.ParseHeartBeat" } }, nil, nil)
}

// ---- languages of regular expressions ----

type reProg struct{ p *syntax.Prog }

// regexEqual compares the sets of strings that two patterns match (searching, as MatchString does).
func regexEqual(a, b string) (eq, known bool) {
	if a == b {
		return true, true
	}
	var ps [2]*syntax.Prog
	marks := map[rune]bool{0: true, '\n': true, '\n' + 1: true}
	for i, x := range []string{a, b} {
		re, err := syntax.Parse(x, syntax.Perl)
		if err != nil {
			return false, true
		}
		p, err := syntax.Compile(re.Simplify())
		if err != nil {
			return false, true
		}
		ps[i] = p
		for _, in := range p.Inst {
			switch in.Op {
			case syntax.InstEmptyWidth:
				if syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
					return false, false
				}
			case syntax.InstRune, syntax.InstRune1:
				if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					return false, false
				}
				for j := 0; j < len(in.Rune); j += 2 {
					marks[in.Rune[j]] = true
					hi := in.Rune[j]
					if j+1 < len(in.Rune) {
						hi = in.Rune[j+1]
					}
					marks[hi+1] = true
				}
			}
		}
	}
	var runes []rune
	for r := range marks {
		runes = append(runes, r)
	}
	sort.Slice(runes, func(i, j int) bool { return runes[i] < runes[j] })
	closure := func(p *syntax.Prog, set map[uint32]bool, flags syntax.EmptyOp) (out map[uint32]bool, match bool) {
		out = map[uint32]bool{}
		var walk func(pc uint32)
		walk = func(pc uint32) {
			if out[pc] {
				return
			}
			out[pc] = true
			in := &p.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				walk(in.Out)
				walk(in.Arg)
			case syntax.InstCapture, syntax.InstNop:
				walk(in.Out)
			case syntax.InstEmptyWidth:
				if syntax.EmptyOp(in.Arg)&^flags == 0 {
					walk(in.Out)
				}
			case syntax.InstMatch:
				match = true
			}
		}
		for pc := range set {
			walk(pc)
		}
		return
	}
	type dstate struct {
		set     [2]map[uint32]bool
		matched [2]bool
		begin   bool
	}
	key := func(d dstate) string {
		k := fmt.Sprint(d.begin, d.matched)
		for i := range d.set {
			var l []int
			for x := range d.set[i] {
				l = append(l, int(x))
			}
			sort.Ints(l)
			k += fmt.Sprint(l)
		}
		return k
	}
	start := dstate{begin: true}
	for i := range ps {
		start.set[i] = map[uint32]bool{uint32(ps[i].Start): true}
	}
	seen := map[string]bool{key(start): true}
	for todo := []dstate{start}; len(todo) > 0; {
		d := todo[0]
		todo = todo[1:]
		var here syntax.EmptyOp
		if d.begin {
			here = syntax.EmptyBeginText
		}
		var acc [2]bool
		var cl [2]map[uint32]bool
		m := d.matched
		for i := range ps {
			_, end := closure(ps[i], d.set[i], here|syntax.EmptyEndText)
			acc[i] = d.matched[i] || end
			var now bool
			cl[i], now = closure(ps[i], d.set[i], here)
			m[i] = m[i] || now
		}
		if acc[0] != acc[1] {
			return false, true
		}
		if len(seen) > 5000 {
			return false, false
		}
		for _, r := range runes {
			n := dstate{matched: m}
			for i := range ps {
				n.set[i] = map[uint32]bool{uint32(ps[i].Start): true}
				for pc := range cl[i] {
					in := &ps[i].Inst[pc]
					switch in.Op {
					case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
						if in.MatchRune(r) {
							n.set[i][in.Out] = true
						}
					}
				}
			}
			if k := key(n); !seen[k] {
				seen[k] = true
				todo = append(todo, n)
			}
		}
	}
	return true, true
}
