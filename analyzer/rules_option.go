package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "Value flow of every option from its arguments to what it names: the function that makes the option is explored with unknown arguments, and the operation that it is given to is explored from there with the option among its options; on every path the first frame written and the connection that is made (channel sizes, buffers, timeouts, logger, callbacks) carry the arguments of the options that were given, and the documented defaults of all others; the timers at the waits of Send, Disconnect and Unsubscribe run for exactly the timeouts that the options set; options for SEND and SUBSCRIBE frames are found in the frame that is handed to the I/O goroutine; no operation goes on after an option has failed", checkC08)
}

// option is one of the documented options.
type option struct {
	name   string // e.g. ConnOpt.Host
	fn     *ssa.Function
	direct bool // is itself the option function
}

// documented lists the fields of the option variables and the functions they are set to.
func (c *Ctx) documented(varName string) []*option {
	pk := c.p.NamedType("", "Conn").Obj().Pkg()
	v, ok := pk.Scope().Lookup(varName).(*types.Var)
	if !ok {
		c.Undecided("variable %s not found", varName)
		return nil
	}
	st, ok := v.Type().Underlying().(*types.Struct)
	if !ok {
		c.Undecided("variable %s is not a struct", varName)
		return nil
	}
	set := map[int][]ssa.Value{}
	for _, f := range c.p.Funcs {
		if f.Package() == nil || f.Package().Pkg != pk {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				store, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := store.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(derefType(fa.X.Type()), v.Type()) {
					continue
				}
				set[fa.Field] = append(set[fa.Field], store.Val)
			}
		}
	}
	var out []*option
	for i := 0; i < st.NumFields(); i++ {
		name := varName + "." + st.Field(i).Name()
		c.Obl("set", name)
		switch len(set[i]) {
		case 0:
			c.Fail("set", name, c.p.Pos(st.Field(i).Pos()), "the option %s is never set to a function", name)
			continue
		case 1:
		default:
			c.Undecided("the option %s is set more than once", name)
			continue
		}
		val := set[i][0]
		if mc, ok := val.(*ssa.MakeClosure); ok && len(mc.Bindings) == 0 {
			val = mc.Fn
		}
		if ct, ok := val.(*ssa.ChangeType); ok {
			val = ct.X
		}
		f, ok := val.(*ssa.Function)
		if !ok {
			c.Undecided("the option %s is not set to a function of the package", name)
			continue
		}
		sig := f.Signature
		direct := sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type())
		out = append(out, &option{name: name, fn: f, direct: direct})
	}
	return out
}

// given is an option with arguments, ready to be applied.
type given struct {
	o    *option
	args []*T
	fn   *T
}

// prepared runs the functions that make the options, one after another, and calls use with the outcome.
func (c *Ctx) prepared(ts *Terms, opts []*option, args [][]*T, use func(s *State, gs []*given)) {
	type outcome struct {
		s  *State
		gs []*given
	}
	todo := []outcome{{nil, nil}}
	for i, o := range opts {
		var next []outcome
		for _, from := range todo {
			from := from
			if o.direct {
				next = append(next, outcome{from.s, append(append([]*given(nil), from.gs...), &given{o, nil, ts.Func(o.fn)})})
				continue
			}
			as := args[i]
			c.Explore(o.name, o.fn, &funcRule{on: func(s *State, e *Event) {
				if e.Kind != "exit" || len(e.Args) != 1 {
					return
				}
				s.ex.Obl("made", o.name)
				f := s.val(e.Args[0])
				if f.K != KClosure && f.K != KFunc {
					s.ex.Bad(s, "made", o.name, e.Instr, "%s does not return an option: %s", o.name, f)
					return
				}
				next = append(next, outcome{s.clone(), append(append([]*given(nil), from.gs...), &given{o, as, f})})
			}}, func(ex *Exec) {
				ex.ts = ts
				// what the options allocate is distinct
				for j := 0; j < i; j++ {
					ex.ctxCall = append(ex.ctxCall, nil)
					ex.ctxParent = append(ex.ctxParent, -1)
				}
			}, as, func(s *State) {
				if from.s != nil {
					from.s.into(s)
				}
				for j, g := range from.gs {
					s.cells[fmt.Sprintf("op.given.%d", j)] = g.fn
				}
				s.top().ctx = i
			})
		}
		todo = next
	}
	for _, t := range todo {
		use(t.s, t.gs)
	}
}

// into makes what is known in a state known in another one, which is at its start.
func (s *State) into(n *State) {
	c := s.clone()
	c.frames, c.ex, c.path, c.trace = n.frames, n.ex, nil, nil
	c.cells, c.dead, c.locks = n.cells, false, nil
	*n = *c
}

// inOption tells whether an option is being applied.
func inOption(gs []*given) func(s *State) bool {
	return func(s *State) bool {
		for _, f := range s.frames {
			for _, g := range gs {
				if f.fn == g.fn.V {
					return true
				}
			}
		}
		// (the round in which an option was applied)
		if n := applied(s, gs); n > 0 && s.cells[fmt.Sprintf("op.round.%d", n)] == nil {
			s.cells[fmt.Sprintf("op.round.%d", n)] = s.ex.ts.Int(1)
			return true
		}
		return false
	}
}

// start begins an exploration with options that were made before.
func start(s, s0 *State, gs []*given) {
	if s0 != nil {
		s0.into(s)
	}
	for i, g := range gs {
		s.cells[fmt.Sprintf("op.given.%d", i)] = g.fn
	}
}

// listItems takes a list apart, as far as it is known.
func listItems(t *T) ([]*T, bool) {
	switch {
	case t.IsNil():
		return nil, true
	case t.K == KList:
		return t.A, true
	case t.IsApp("append") && len(t.A) == 2:
		a, ok1 := listItems(t.A[0])
		b, ok2 := listItems(t.A[1])
		return append(append([]*T(nil), a...), b...), ok1 && ok2
	}
	return nil, false
}

// arguments are unknown values for the parameters of an option; variadic ones get n elements.
func arguments(ts *Terms, o *option, tag string, n int) []*T {
	var out []*T
	sig := o.fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		name := tag + o.name + "." + p.Name()
		if sl, ok := p.Type().(*types.Slice); ok && sig.Variadic() && i == sig.Params().Len()-1 {
			var l []*T
			for j := 0; j < n; j++ {
				l = append(l, ts.Param(fmt.Sprintf("%s[%d]", name, j), sl.Elem()))
			}
			if n == 0 {
				out = append(out, ts.Nil())
			} else {
				out = append(out, ts.List(l...))
			}
			continue
		}
		out = append(out, ts.Param(name, p.Type()))
	}
	return out
}

// applying makes unknown function values of an option type behave as the given options, each applied once, in order.
func applying(gs []*given, isOpt func(types.Type) bool) func(s *State, fn *T, typ types.Type) (*T, bool) {
	return func(s *State, fn *T, typ types.Type) (*T, bool) {
		if !isOpt(typ) {
			return nil, false
		}
		for i, g := range gs {
			k := fmt.Sprintf("op.applied.%d", i)
			if s.cells[k] == nil {
				s.cells[k] = s.ex.ts.Int(1)
				return g.fn, true
			}
		}
		return nil, true
	}
}

// applied is the number of options that were applied on a path.
func applied(s *State, gs []*given) int {
	for i := range gs {
		if s.cells[fmt.Sprintf("op.applied.%d", i)] == nil {
			return i
		}
	}
	return len(gs)
}

// same tells whether two values are known to be equal.
func same(s *State, a, b *T) bool {
	if a == nil || b == nil {
		return false
	}
	a, b = unconv(s.val(a)), unconv(s.val(b))
	if a == b || s.val(a) == s.val(b) {
		return true
	}
	if a.Typ == nil || b.Typ == nil {
		return false
	}
	return s.eval(s.ex.ts.Bin(token.EQL, a, b, types.Typ[types.Bool])) == 1
}

// unconv takes off conversions and interfaces.
func unconv(t *T) *T {
	for t.K == KIface && len(t.A) > 0 || t.K == KApp && strings.HasPrefix(t.S, "conv:") {
		t = t.A[0]
	}
	return t
}

// millisOf tells whether a number is a duration in milliseconds.
func millisOf(s *State, t, d *T) bool {
	t = s.val(unconv(t))
	if n, ok := d.Int(); ok {
		m, ok := t.Int()
		return ok && m == n/1000000
	}
	if t.IsApp("/") && t.A[1].IsInt(1000000) || t.IsApp("time.Duration.Milliseconds") {
		return same(s, t.A[0], d)
	}
	if n, ok := t.Int(); ok && n == 0 {
		iv := s.bounds(d)
		return iv.hasHi && iv.hi <= 0
	}
	return false
}

// connItems is what options for connecting determine.
type connItems struct {
	c      *Ctx
	a      *api
	proc   *ssa.Function
	read   *ssa.Function
	readCh string
	// fields of the connection
	timeouts map[string]string // item -> field
	grace    string
	stats    string
	log      map[string]bool
	rt       string
}

// table tells which item an argument of an option is for.
var connTable = map[string][]string{
	"Login": {"login", "passcode"}, "Host": {"host"}, "UseStomp": {}, "AcceptVersion": {"versions"}, "HeartBeat": {"send", "recv"},
	"HeartBeatError": {"tolerance"}, "MsgSendTimeout": {"hand-over"}, "RcvReceiptTimeout": {"receipt"}, "DisconnectReceiptTimeout": {"disconnect"},
	"UnsubscribeReceiptTimeout": {"unsubscribe"}, "HeartBeatGracePeriodMultiplier": {"grace"}, "Header": {"key", "value"},
	"ReadChannelCapacity": {"read channel"}, "WriteChannelCapacity": {"write channel"}, "ReadBufferSize": {"read buffer"}, "WriteBufferSize": {"write buffer"},
	"ResponseHeaders": {"callback"}, "Logger": {"logger"}, "WithStats": {},
}

// wanted are the values of all items after the options that were applied on a path.
func (k *connItems) wanted(s *State, gs []*given) (map[string]*T, [][2]*T) {
	ts := s.ex.ts
	const sec = int64(1e9)
	w := map[string]*T{"command": ts.Str("CONNECT"), "send": ts.Int(60 * sec), "recv": ts.Int(60 * sec), "tolerance": ts.Int(5 * sec),
		"hand-over": ts.Int(10 * sec), "receipt": ts.Int(30 * sec), "disconnect": ts.Int(30 * sec), "unsubscribe": ts.Int(30 * sec),
		"read channel": nil, "write channel": nil}
	var hdr [][2]*T
	for _, g := range gs[:applied(s, gs)] {
		n := strings.TrimPrefix(g.o.name, "ConnOpt.")
		switch n {
		case "UseStomp":
			w["command"] = ts.Str("STOMP")
		case "WithStats":
			w["stats"] = ts.Bool(true)
		case "Header":
			hdr = append(hdr, [2]*T{g.args[0], g.args[1]})
		case "Logger":
			if s.isNil(g.args[0]) != 1 {
				w["logger"] = g.args[0]
			}
		case "AcceptVersion":
			l := append([]*T(nil), g.args[0].A...)
			if old := w["versions"]; old != nil {
				l = append(append([]*T(nil), old.A...), l...)
			}
			w["versions"] = ts.List(l...)
		default:
			for i, item := range connTable[n] {
				if i < len(g.args) {
					w[item] = g.args[i]
				}
			}
		}
	}
	return w, hdr
}

// frame decides the CONNECT frame.
func (k *connItems) frame(s *State, e *Event, gs []*given) {
	ex := s.ex
	w, hdr := k.wanted(s, gs)
	f := e.Args[1]
	bad := func(item, format string, args ...interface{}) {
		ex.Bad(s, "connect frame", item+k.of(s, gs), e.Instr, format, args...)
	}
	for _, o := range gs[:applied(s, gs)] {
		ex.Obl("connect frame", o.o.name)
	}
	ex.Obl("connect frame", "defaults")
	if !same(s, s.cmdOf(f), w["command"]) {
		bad("command", "the first frame is %s instead of %s", s.cmdOf(f), w["command"])
	}
	// host
	has, v := s.hdrOfFrame(f, "host")
	if has != 1 {
		bad("host", "the first frame has no host header")
	} else if h := w["host"]; h != nil && !same(s, v, h) && !empty(s, h) {
		bad("host", "the host header is %s instead of the host given", v)
	} else if h == nil {
		k.foreign(s, gs, v, "host header", bad)
	}
	// heart-beat
	has, v = s.hdrOfFrame(f, "heart-beat")
	if has != 1 {
		bad("heart-beat", "the first frame has no heart-beat header")
	} else if ps := numbers(s, v); len(ps) != 2 || !millisOf(s, ps[0], w["send"]) || !millisOf(s, ps[1], w["recv"]) {
		bad("heart-beat", "the heart-beat header is %s instead of %s and %s in milliseconds", v, w["send"], w["recv"])
	}
	// login, passcode
	for _, n := range []string{"login", "passcode"} {
		has, v = s.hdrOfFrame(f, n)
		x := w[n]
		switch {
		case x == nil && has == 1, x == nil && has == 0 && len(hdr) == 0:
			bad(n, "there may be a %s header although no credentials were given", n)
		case x != nil && has == 1 && !same(s, v, x):
			bad(n, "the %s header is %s instead of the one given", n, v)
		case x != nil && has != 1 && !(empty(s, w["login"]) && empty(s, w["passcode"])):
			bad(n, "the %s given is not in the first frame", n)
		}
	}
	// accept-version
	has, v = s.hdrOfFrame(f, "accept-version")
	want := []*T{ex.ts.Str("1.0"), ex.ts.Str("1.1"), ex.ts.Str("1.2")}
	if x := w["versions"]; x != nil && len(x.A) > 0 {
		want = x.A
	}
	if has != 1 {
		bad("accept-version", "the first frame has no accept-version header")
	} else {
		var ps []*T
		v = s.val(v)
		ps0 := pieces(v)
		if v.IsApp("strings.Join") && v.A[1].IsStr(",") {
			if l, ok := s.items(s.val(v.A[0])); ok {
				ps0 = nil
				for i, x := range l {
					if i > 0 {
						ps0 = append(ps0, ex.ts.Str(","))
					}
					ps0 = append(ps0, x)
				}
			}
		}
		for _, p := range ps0 {
			if t, ok := s.val(p).Str(); ok {
				for i, x := range strings.Split(t, ",") {
					if i > 0 {
						ps = append(ps, ex.ts.Str(","))
					}
					if x != "" {
						ps = append(ps, ex.ts.Str(x))
					}
				}
			} else {
				ps = append(ps, p)
			}
		}
		ok := len(ps) == 2*len(want)-1
		for i := 0; ok && i < len(ps); i++ {
			if i%2 == 1 {
				ok = ps[i].IsStr(",")
			} else {
				ok = same(s, ps[i], want[i/2])
			}
		}
		if !ok {
			bad("accept-version", "the accept-version header is %s instead of %s", v, want)
		}
	}
	// custom entries
	for i, h := range hdr {
		if s.cells[fmt.Sprintf("op.custom.%d", i)] == nil {
			bad("custom header", "the header entry %s given is not in the first frame", h[0])
		}
	}
}

// of names the options applied on the path.
func (k *connItems) of(s *State, gs []*given) string {
	var l []string
	for _, g := range gs[:applied(s, gs)] {
		l = append(l, g.o.name)
	}
	if len(l) == 0 {
		return " without options"
	}
	return " with " + strings.Join(l, ", ")
}

// foreign reports arguments of options in places that they are not for.
func (k *connItems) foreign(s *State, gs []*given, v *T, where string, bad func(item, format string, args ...interface{})) {
	for _, g := range gs {
		for _, a := range g.args {
			if a.K == KList {
				continue
			}
			if contains(v, a) {
				bad(where, "the %s is made of an argument of %s", where, g.o.name)
			}
		}
	}
}

// numbers takes a text of two numbers apart.
func numbers(s *State, v *T) []*T {
	v = s.val(v)
	ps := pieces(v)
	var out []*T
	sep := false
	for _, p := range ps {
		if p.IsStr(",") {
			sep = true
			continue
		}
		if t, ok := p.Str(); ok {
			for i, x := range strings.Split(t, ",") {
				if i > 0 {
					sep = true
				}
				if x == "" {
					continue
				}
				n := int64(0)
				if _, err := fmt.Sscanf(x, "%d", &n); err != nil || fmt.Sprint(n) != x {
					return nil
				}
				out = append(out, s.ex.ts.Int(n))
			}
			continue
		}
		out = append(out, p)
	}
	if !sep {
		return nil
	}
	return out
}

func contains(t, x *T) bool {
	if t == nil {
		return false
	}
	if t == x {
		return true
	}
	for _, a := range t.A {
		if contains(a, x) {
			return true
		}
	}
	return false
}

func isOptionOf(pkg, name string) func(types.Type) bool {
	return func(t types.Type) bool {
		sig, ok := t.Underlying().(*types.Signature)
		if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 1 || !isErrorType(sig.Results().At(0).Type()) {
			return false
		}
		pt, ok := sig.Params().At(0).Type().(*types.Pointer)
		return ok && isNamed(pt.Elem(), pkg, name)
	}
}

// connect explores a connection being made with the given options.
func (k *connItems) connect(f *ssa.Function, name string, ts *Terms, s0 *State, gs []*given) {

	k.c.Explore(name, f, &funcRule{wants: func(s *State, e *Event) bool { return e.Kind == "store" && e.Name == k.a.writeCh }, on: func(s *State, e *Event) {
		ex := s.ex
		switch e.Kind {
		case "hdraddall":
			if len(e.Args) < 2 {
				return
			}
			_, hdr := k.wanted(s, gs)
			for i, h := range hdr {
				if x := s.hdr[s.val(e.Args[1])]; x != nil {
					if v, ok := x.e[h[0]]; ok && v.present && same(s, v.val, h[1]) {
						s.cells[fmt.Sprintf("op.custom.%d", i)] = e.Args[0]
					}
				}
			}
		case "hdradd":
			_, hdr := k.wanted(s, gs)
			for i, h := range hdr {
				if same(s, e.Args[1], h[0]) && same(s, e.Args[2], h[1]) {
					s.cells[fmt.Sprintf("op.custom.%d", i)] = e.Args[0]
				}
			}
		case "makechan":
			s.cells["op.size."+e.Res.String()] = e.Args[0]
		case "write":
			if s.cells["op.sent"] == nil {
				s.cells["op.sent"] = ex.ts.Int(1)
				k.frame(s, e, gs)
			}
			s.cells["op.writer"] = e.Args[0]
		case "read":
			if e.Tag == "frame" {
				s.cells["op.response"] = e.Res
			}
			s.cells["op.reader"] = e.Args[0]
		case "call":
			switch e.Name {
			case "frame.NewReader", "frame.NewWriter":
				s.cells["op.buffer."+e.Res.String()] = ex.ts.Int(0)
			case "frame.NewReaderSize", "frame.NewWriterSize":
				s.cells["op.buffer."+e.Res.String()] = e.Args[1]
			}
		case "callback":
			w, _ := k.wanted(s, gs)
			if cb := w["callback"]; cb != nil && s.val(e.Args[0]) == s.val(cb) {
				if r := s.cells["op.response"]; r != nil && len(e.Args) == 2 && s.val(e.Args[1]) == s.val(s.hdrOf(r)) {
					s.cells["op.called"] = ex.ts.Int(1)
				}
			}
		case "go":
			k.started(s, e, f, gs)
		case "exit":
			if failed(s, e) != 1 && s.cells["op.proc"] == nil {
				ex.Bad(s, "connected", f.Name(), e.Instr, "%s succeeds without a connection that works", f.Name())
			}
		case "store":
			if e.Name == k.a.writeCh {
				s.cells["op.conn"] = e.Args[0]
			}
		}
	}}, func(ex *Exec) {
		ex.ts = ts
		ex.Opts.Callback = applying(gs, isOptionOf("stomp", "Conn"))
		ex.Opts.Forget = func(*T) bool { return false }
		ex.Opts.Unroll = inOption(gs)
	}, nil, func(s *State) { start(s, s0, gs) })
}

// started decides the connection when its goroutines are started.
func (k *connItems) started(s *State, e *Event, f *ssa.Function, gs []*given) {
	ex := s.ex
	if e.Fn != k.proc && e.Fn != k.read {
		return
	}
	w, _ := k.wanted(s, gs)
	bad := func(item, format string, args ...interface{}) {
		ex.Bad(s, "connection", item+k.of(s, gs), e.Instr, format, args...)
	}
	for _, o := range gs[:applied(s, gs)] {
		ex.Obl("connection", o.o.name)
	}
	ex.Obl("connection", "defaults")
	// buffers
	for _, x := range e.Args {
		item := ""
		switch {
		case isNamed(derefType(x.Typ), "frame", "Reader"):
			item = "read buffer"
		case isNamed(derefType(x.Typ), "frame", "Writer"):
			item = "write buffer"
		default:
			continue
		}
		size := s.cells["op.buffer."+x.String()]
		want := w[item]
		isDefault := size != nil && (size.IsInt(0) || size.IsInt(4096))
		iv := ival{}
		if want != nil {
			iv = s.bounds(want)
		}
		switch {
		case size == nil:
			bad(item, "the %s is of unknown size: %s", item, x)
		case want == nil && !isDefault:
			bad(item, "the size of the %s is %s instead of the default", item, size)
		case want != nil && !same(s, size, want) && !(isDefault && iv.hasHi && iv.hi <= 0):
			bad(item, "the size of the %s is %s instead of the one given", item, sizeName(size))
		}
	}
	if e.Fn != k.proc {
		return
	}
	s.cells["op.proc"] = ex.ts.Int(1)
	cn := s.cells["op.conn"]
	if cn == nil {
		bad("connection", "the I/O goroutine is started without a connection")
		return
	}
	at := func(field string) *T { return s.val(s.peek(cn, field)) }
	// channels
	for item, field := range map[string]string{"read channel": k.readCh, "write channel": k.a.writeCh} {
		size := s.cells["op.size."+at(field).String()]
		want := w[item]
		iv := ival{}
		if want != nil {
			iv = s.bounds(want)
		}
		switch {
		case size == nil:
			bad(item, "the capacity of the %s is unknown", item)
		case want == nil && !size.IsInt(20):
			bad(item, "the capacity of the %s is %s instead of 20", item, size)
		case want != nil && !same(s, size, want) && !(size.IsInt(20) && iv.hasHi && iv.hi <= 0):
			bad(item, "the capacity of the %s is %s instead of the one given", item, size)
		}
	}
	// timeouts
	for item, field := range k.timeouts {
		if v := at(field); !same(s, v, w[item]) {
			bad(item+" timeout", "the %s timeout is %s instead of %s", item, v, w[item])
		}
	}
	if k.grace != "" {
		v := at(k.grace)
		if g := w["grace"]; g != nil && !same(s, v, g) {
			bad("grace period", "the grace period multiplier is %s instead of the one given", v)
		} else if g == nil && v.String() != "1" {
			bad("grace period", "the grace period multiplier is %s instead of 1", v)
		}
	}
	// tolerance
	if k.rt != "" {
		v := at(k.rt)
		iv := s.bounds(v)
		if !(iv.hasHi && iv.hi <= 0) {
			tol := w["tolerance"]
			n, isInt := v.Int()
			ok := false
			switch {
			case isInt && tol.K == KConst:
				t, _ := tol.Int()
				ok = n == 60e9+t
			default:
				ok = v.IsApp("+") && (same(s, v.A[0], tol) || same(s, v.A[1], tol))
				if r := w["recv"]; !ok && v.IsApp("+") && r != nil {
					_, b, m := affine(v)
					if t, isT := tol.Int(); isT {
						ok = m == t || b != nil && m == t+60e9
					}
				}
			}
			if !ok {
				bad("tolerance", "the receiving interval %s is not extended by the heart-beat error", v)
			}
		}
	}
	// logger
	for field := range k.log {
		v := at(field)
		if l := w["logger"]; l != nil && !same(s, v, l) {
			bad("logger", "the logger of the connection is %s instead of the one given", v)
		} else if l == nil && s.isNil(v) != -1 {
			bad("logger", "the connection may be without a logger")
		} else if l == nil {
			k.foreign(s, gs, v, "logger", bad)
		}
	}
	// statistics
	if k.stats == "" && w["stats"] != nil {
		// the flag that the option changes
		for x, v := range s.heap {
			if x.K == KFldAddr && x.A[0] == cn && v.IsTrue() && (k.stats == "" || x.S < k.stats) {
				k.stats = x.S
			}
		}
	}
	if k.stats != "" {
		r := s.eval(at(k.stats))
		if w["stats"] != nil && r != 1 {
			bad("statistics", "statistics are not enabled")
		} else if w["stats"] == nil && r == 1 {
			bad("statistics", "statistics are enabled")
		}
	}
	// response headers
	if cb := w["callback"]; cb != nil && s.isNil(cb) != 1 && s.cells["op.called"] == nil {
		bad("response headers", "the function given is not called with the headers of the response")
	}
}

func sizeName(t *T) string {
	if t.IsInt(0) {
		return "the default"
	}
	return t.String()
}

// wait is a place at which an operation waits.
type waitFact struct {
	in         ssa.Instruction
	armed, off map[string]bool
	positive   map[string]bool
}

// waits explores an operation and collects what runs while it waits; answers are waits after its frame was handed over.
func (k *connItems) waits(f *ssa.Function) (handOver, answer []waitFact) {
	seen := map[string]bool{}
	c := k.c
	record := func(s *State, e *Event, chans []*T, list *[]waitFact) {
		w := waitFact{e.Instr, map[string]bool{}, map[string]bool{}, map[string]bool{}}
		for _, ch := range chans {
			b, n, ok := ch.FieldOf()
			if !ok || n != "time.Timer.C" && n != "time.Ticker.C" {
				b = ch
			}
			if d := s.cells["op.timer."+b.String()]; d != nil {
				fs := map[string]bool{}
				s.sources(d, fs)
				for x := range fs {
					w.armed[x] = true
				}
			}
		}
		look := func(t *T) {
			if n := s.loadOf(t); n != "" {
				iv := s.bounds(t)
				if iv.hasHi && iv.hi <= 0 {
					w.off[n] = true
				}
				if iv.hasLo && iv.lo > 0 {
					w.positive[n] = true
				}
			}
		}
		for x := range s.ivals {
			look(x)
		}
		for x := range s.eqc {
			look(x)
		}
		key := fmt.Sprint(c.p.Pos(instrPos(e.Instr)), keys(w.armed), keys(w.off), keys(w.positive))
		if !seen[key] {
			seen[key] = true
			*list = append(*list, w)
		}
	}
	c.Explore(f.Name()+": timers", f, &funcRule{on: func(s *State, e *Event) {
		switch e.Kind {
		case "call":
			switch e.Name {
			case "time.NewTimer", "time.After", "time.NewTicker", "time.Tick":
				s.cells["op.timer."+e.Res.String()] = s.val(e.Args[0])
			}
		case "select":
			if e.Tag != "blocking" {
				return
			}
			for i, x := range e.X {
				if x != nil && x.IsTrue() && s.ex.chanName(e.Args[i]) == k.a.writeCh {
					s.cells["op.offered"] = s.ex.ts.Int(1)
					record(s, e, e.Args, &handOver)
					return
				}
			}
			record(s, e, e.Args, &answer)
		case "recvwait":
			record(s, e, e.Args[:1], &answer)
		case "send":
			if e.Name == k.a.writeCh {
				if s.cells["op.offered"] == nil {
					record(s, e, nil, &handOver)
				}
				delete(s.cells, "op.offered")
			}
		}
	}}, func(ex *Exec) { ex.Opts.Forget = func(*T) bool { return false } }, nil, nil)
	return
}

func keys(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// sources are the fields that a value is made of.
func (s *State) sources(t *T, out map[string]bool) {
	if t == nil {
		return
	}
	if n := s.loadOf(t); n != "" {
		out[n] = true
		return
	}
	if t.K == KApp || t.K == KIface {
		for _, a := range t.A {
			s.sources(a, out)
		}
	}
}

// timeout finds the field that the waits of an operation are limited by, and decides that all of them are.
func (k *connItems) timeout(item, what string, ws []waitFact, infinite bool) string {
	c := k.c
	fields := map[string]bool{}
	for _, w := range ws {
		for f := range w.armed {
			fields[f] = true
		}
	}
	if len(ws) == 0 {
		c.Undecided("%s is never waited for", what)
		return ""
	}
	if len(fields) == 0 {
		c.Fail("timer", item, c.p.Pos(instrPos(ws[0].in)), "there is no timeout while %s is waited for", what)
		return ""
	}
	if len(fields) > 1 {
		c.Fail("timer", item, c.p.Pos(instrPos(ws[0].in)), "several timeouts limit the time for which %s is waited for: %s", what, keys(fields))
		return ""
	}
	f := keys(fields)
	for _, w := range ws {
		c.Obl("timer", item)
		if !w.armed[f] && !w.off[f] {
			c.Fail("timer", item+" missing", c.p.Pos(instrPos(w.in)), "%s is waited for although the timeout %s may be set, and no timer is running", what, f)
		}
		if infinite && w.armed[f] && !w.positive[f] {
			c.Fail("timer", item+" infinite", c.p.Pos(instrPos(w.in)), "a timer is running while %s is waited for although the timeout %s may be zero or negative, which means that there is none", what, f)
		}
	}
	return f
}

// consumers finds the fields of the connection that are used for what the options are documented for.
func (k *connItems) consumers() {
	c, a := k.c, k.a
	send, disc, unsub, subscribe := c.method("", "Conn", "Send"), c.method("", "Conn", "Disconnect"), c.method("", "Subscription", "Unsubscribe"), c.method("", "Conn", "Subscribe")
	if send == nil || disc == nil || unsub == nil || subscribe == nil {
		return
	}
	put := func(item, f string) {
		if f != "" {
			k.timeouts[item] = f
		}
	}
	h, ans := k.waits(send)
	put("hand-over", k.timeout("hand-over", "the hand-over of a message", h, true))
	put("receipt", k.timeout("receipt", "the receipt of a message", ans, false))
	_, ans = k.waits(disc)
	put("disconnect", k.timeout("disconnect", "the receipt of DISCONNECT", ans, false))
	_, ans = k.waits(unsub)
	if f := k.timeout("unsubscribe", "the receipt of UNSUBSCRIBE", ans, false); strings.HasPrefix(f, "stomp.Subscription.") {
		from := map[string]bool{}
		c.Explore("Subscribe: timeouts", subscribe, &funcRule{on: func(s *State, e *Event) {
			if e.Kind == "exit" && failed(s, e) != 1 && len(e.Args) == 2 {
				s.ex.Obl("timer", "unsubscribe")
				v := s.val(s.peek(e.Args[0], f))
				n := s.loadOf(v)
				if n == "" {
					s.ex.Bad(s, "timer", "unsubscribe", e.Instr, "the timeout of the subscription is %s instead of that of the connection", v)
					return
				}
				from[n] = true
			}
		}}, nil, nil, nil)
		if len(from) == 1 {
			put("unsubscribe", keys(from))
		}
		for _, acc := range c.p.info.accesses[f] {
			if acc.write && !acc.ctor {
				c.Fail("timer", "unsubscribe changed", c.p.Pos(instrPos(acc.instr)), "the timeout of the subscription is changed")
			}
		}
	} else if f != "" {
		put("unsubscribe", f)
	}
	// intervals of the I/O goroutine
	factors := map[string]bool{}
	c.Explore("I/O goroutine: timers", k.proc, &funcRule{on: func(s *State, e *Event) {
		if e.Kind == "call" && (e.Name == "time.NewTimer" || e.Name == "time.After" || e.Name == "time.Timer.Reset") {
			fs := map[string]bool{}
			s.sources(e.Args[len(e.Args)-1], fs)
			rt, fl := "", ""
			for f := range fs {
				if b, ok := c.p.info.fieldType[f].Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
					fl = f
				} else {
					rt = f
				}
			}
			if fl != "" {
				factors[fl] = true
				k.rt = rt
			}
		}
	}}, nil, nil, nil)
	switch len(factors) {
	case 0:
		c.Fail("timer", "grace period", c.p.Pos(k.proc.Pos()), "the interval in which something must arrive is not multiplied by the grace period multiplier")
	case 1:
		k.grace = keys(factors)
		c.Obl("timer", "grace period")
	default:
		c.Undecided("several factors for heart-beat intervals: %s", keys(factors))
	}
	// logger
	lt := c.p.NamedType("", "Logger")
	if lt == nil {
		c.Undecided("type Logger not found")
		return
	}
	logger, ok := lt.Underlying().(*types.Interface)
	if !ok {
		c.Undecided("Logger is not an interface")
		return
	}
	n := 0
	for _, f := range c.p.Funcs {
		if f.Package() == nil || f.Package().Pkg != c.p.NamedType("", "Conn").Obj().Pkg() {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && f.Synthetic == "" {
					recv := g.Signature.Recv()
					if g.Package() != nil && g.Package().Pkg.Path() == "log" || recv != nil && types.Implements(recv.Type(), logger) {
						c.Fail("logger", c.p.FuncName(f), c.p.Pos(instrPos(in)), "the message goes to something else than the logger of the connection: %s", g.String())
					}
				}
				if !ci.Common().IsInvoke() || !isNamed(ci.Common().Value.Type(), "stomp", "Logger") {
					continue
				}
				n++
				c.Obl("logger", c.p.FuncName(f))
				k.origin(ci.Common().Value, 0, func(field string) {
					k.log[field] = true
				}, func(why string) {
					c.Fail("logger", c.p.FuncName(f), c.p.Pos(instrPos(in)), "the message may go to something else than the logger of the connection: %s", why)
				})
			}
		}
	}
	c.Need("places that log", n, 3)
	for f := range k.log {
		if !strings.HasPrefix(f, "stomp.Conn.") {
			delete(k.log, f)
		}
	}
	_ = a
}

// origin follows a value back to the fields of the connection that it comes from.
func (k *connItems) origin(v ssa.Value, depth int, field func(string), other func(string)) {
	if depth > 8 {
		other("its origin is too far away")
		return
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != v {
				k.origin(e, depth+1, field, other)
			}
		}
	case *ssa.ChangeInterface:
		k.origin(v.X, depth+1, field, other)
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			name := k.c.p.fieldName(fa.X.Type(), fa.Field)
			if strings.HasPrefix(name, "stomp.Conn.") {
				field(name)
				return
			}
			n := 0
			for _, acc := range k.c.p.info.accesses[name] {
				if st, ok := acc.instr.(*ssa.Store); ok && acc.write {
					n++
					k.origin(st.Val, depth+1, field, other)
				}
			}
			if n == 0 {
				other("field " + name)
			}
			return
		}
		other(v.String())
	case *ssa.Parameter:
		cs := k.c.p.info.callers[v.Parent()]
		if len(cs) == 0 {
			other("parameter " + v.Name())
		}
		for i, p := range v.Parent().Params {
			if p != v {
				continue
			}
			for _, ci := range cs {
				if i < len(ci.Common().Args) {
					k.origin(ci.Common().Args[i], depth+1, field, other)
				}
			}
		}
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
						k.origin(r.Results[0], depth+1, field, other)
					}
				}
			}
			return
		}
		other(v.String())
	default:
		other(v.String())
	}
}

// statistics decides that frames are counted if the option was given; it finds the flag by what the option changes.
func (k *connItems) statistics() {
	c, a := k.c, k.a
	st := c.method("", "Conn", "Stats")
	if st == nil {
		return
	}
	counters := map[string]string{}
	c.Explore("Stats", st, &funcRule{on: func(s *State, e *Event) {
		switch e.Kind {
		case "atomic":
			if f := addrField(e.Args[0]); f != "" && e.Res != nil {
				s.cells["op.atom."+f] = e.Res
			}
		case "exit":
			if len(e.Args) != 1 {
				return
			}
			n, ok := e.Args[0].Typ.(*types.Named)
			if !ok {
				return
			}
			t := n.Underlying().(*types.Struct)
			for i := 0; i < t.NumFields(); i++ {
				v := s.val(s.field(e.Args[0], n, i))
				for name, r := range s.cells {
					if strings.HasPrefix(name, "op.atom.") && s.val(r) == v {
						counters[t.Field(i).Name()] = strings.TrimPrefix(name, "op.atom.")
					}
				}
				if f := s.loadOf(v); f != "" {
					counters[t.Field(i).Name()] = f
				}
			}
		}
	}}, nil, nil, nil)
	w, r := counters["WritesSent"], counters["ReadsReceived"]
	if w == "" || r == "" {
		c.Undecided("the counters behind Stats were not found: %v", counters)
		return
	}
	if w == r {
		c.Fail("statistics", "counters", c.p.Pos(st.Pos()), "frames sent and received are counted by the same counter")
		return
	}
	flag := func(s *State) int {
		res := 0
		for t, v := range s.bools {
			if s.loadOf(t) == k.stats {
				if v {
					return 1
				}
				res = -1
			}
		}
		for t, v := range s.eqc {
			if s.loadOf(t) == k.stats {
				if v.IsTrue() {
					return 1
				}
				if v.IsFalse() {
					res = -1
				}
			}
		}
		return res
	}
	count := func(s *State, e *Event, field string) {
		if f := addrField(e.Args[0]); f != field || strings.HasPrefix(e.Name, "Load") {
			return
		}
		n := int64(0)
		if x := s.cells["op.count"]; x != nil {
			n, _ = x.Int()
		}
		d := int64(100)
		if len(e.Args) > 1 && strings.HasPrefix(e.Name, "Add") {
			if m, ok := s.val(e.Args[1]).Int(); ok {
				d = m
			}
		}
		if n < 100 {
			n += d
		}
		s.cells["op.count"] = s.ex.ts.Int(n)
	}
	judge := func(s *State, e *Event, who string) {
		s.ex.Obl("statistics", who)
		n := int64(0)
		if x := s.cells["op.count"]; x != nil {
			n, _ = x.Int()
		}
		switch f := flag(s); {
		case f == 1 && n != 1:
			s.ex.Bad(s, "statistics", who, e.Instr, "statistics are enabled, but a frame counts %d times", n)
		case f != 1 && n != 0:
			s.ex.Bad(s, "statistics", who, e.Instr, "a frame is counted although statistics may not be enabled")
		case f == 0:
			s.ex.Bad(s, "statistics", who, e.Instr, "a frame is not counted although statistics may be enabled")
		}
	}
	for _, f := range c.exportedMethods("Conn", "Subscription", "Transaction") {
		if !c.sends(f) {
			continue
		}
		name := strings.TrimPrefix(c.p.FuncName(f), "stomp.")
		c.Explore(name+": statistics", f, &funcRule{on: func(s *State, e *Event) {
			switch e.Kind {
			case "atomic":
				count(s, e, w)
			case "send":
				if e.Name == a.writeCh {
					s.cells["op.sent"] = s.ex.ts.Int(1)
				}
			case "exit":
				if s.cells["op.sent"] != nil {
					judge(s, e, name)
				}
			}
		}}, nil, nil, nil)
	}
	c.Explore("reading goroutine: statistics", k.read, &funcRule{on: func(s *State, e *Event) {
		switch e.Kind {
		case "atomic":
			count(s, e, r)
		case "send":
			if e.Name == k.readCh {
				s.cells["op.sent"] = s.ex.ts.Int(1)
			}
		case "read":
			if s.cells["op.sent"] != nil {
				judge(s, e, "reading goroutine")
			}
			delete(s.cells, "op.sent")
			delete(s.cells, "op.count")
			for t := range s.bools {
				if s.loadOf(t) == k.stats {
					delete(s.bools, t)
				}
			}
		}
	}}, nil, nil, nil)
	c.NeedObl("statistics", 5)
}

// refuse decides that an operation does not go on after an option has failed.
func (k *connItems) refuse(f *ssa.Function, isOpt func(types.Type) bool) {
	c := k.c
	name := strings.TrimPrefix(c.p.FuncName(f), "stomp.")
	check := func(s *State, e *Event, what string) {
		if r := s.cells["op.result"]; r != nil && s.isNil(r) != 1 {
			s.ex.Bad(s, "failing option", name+" "+what, e.Instr, "%s %s although an option may have failed", f.Name(), what)
		}
	}
	c.Explore(name+": failing options", f, &funcRule{on: func(s *State, e *Event) {
		switch e.Kind {
		case "callbackpre":
			if ci, ok := e.Instr.(ssa.CallInstruction); ok && isOpt(ci.Common().Value.Type()) {
				check(s, e, "goes on")
			}
		case "callback":
			ci, ok := e.Instr.(ssa.CallInstruction)
			if !ok || !isOpt(ci.Common().Value.Type()) {
				return
			}
			s.ex.Obl("failing option", name)
			s.cells["op.result"] = e.Res
		case "write":
			check(s, e, "writes a frame")
		case "go":
			check(s, e, "starts a goroutine")
		case "send":
			if e.Name == k.a.writeCh {
				check(s, e, "hands over a frame")
			}
		case "exit":
			if failed(s, e) != 1 {
				check(s, e, "succeeds")
			}
		}
	}}, func(ex *Exec) { ex.Opts.Pre = true }, nil, nil)
}

// frames decides the frames of an operation with the given options.
func (k *connItems) frames(f *ssa.Function, name string, ts *Terms, s0 *State, gs []*given, ack *T, ackText string) {
	c, a := k.c, k.a
	who := strings.TrimPrefix(c.p.FuncName(f), "stomp.")
	var args []*T
	var strs []*T
	var body *T
	for _, p := range f.Params {
		t := ts.Param(p.Name(), p.Type())
		if isNamed(p.Type(), "stomp", "AckMode") && ack != nil {
			t = ack
		}
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			strs = append(strs, t)
		}
		if typKey(p.Type()) == "[]byte" {
			body = t
		}
		args = append(args, t)
	}
	c.Explore(name, f, &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		n := applied(s, gs)
		bad := func(item, format string, args ...interface{}) {
			ex.Bad(s, "frame", who+" "+item+k.of(s, gs), e.Instr, format, args...)
		}
		switch e.Kind {
		case "hdradd":
			for i, g := range gs[:n] {
				if strings.HasSuffix(g.o.name, ".Header") && same(s, e.Args[1], g.args[0]) && same(s, e.Args[2], g.args[1]) {
					s.cells[fmt.Sprintf("op.custom.%d", i)] = e.Args[0]
				}
			}
		case "send":
			for _, fr := range a.sent(s, e) {
				ex.Obl("frame", who)
				custom := false
				want := map[string]*T{}
				gone := map[string]bool{}
				switch f.Name() {
				case "Send":
					want["destination"] = strs[0]
					if !empty(s, strs[1]) {
						want["content-type"] = strs[1]
					}
				case "Subscribe":
					want["destination"] = strs[0]
					if ack != nil {
						want["ack"] = ts.Str(ackText)
					}
				}
				length, receipt := f.Name() == "Send", false
				for i, g := range gs[:n] {
					ex.Obl("frame", g.o.name)
					switch g.o.name {
					case "SendOpt.Receipt":
						receipt = true
					case "SendOpt.NoContentLength":
						length = false
						gone["content-length"] = true
					case "SubscribeOpt.Id":
						want["id"] = g.args[0]
					case "SendOpt.Header", "SubscribeOpt.Header":
						custom = true
						if h := s.cells[fmt.Sprintf("op.custom.%d", i)]; h == nil || s.val(h) != s.val(s.hdrOf(fr)) {
							bad("header", "the header entry given is not in the frame")
						}
					}
				}
				if f.Name() == "Send" && !receipt {
					gone["receipt"] = true
				}
				for key, v := range want {
					has, x := s.hdrOfFrame(fr, key)
					if has != 1 || !same(s, x, v) {
						bad(key, "the header %s of the frame is not %s", key, v)
					}
				}
				if !custom {
					for key := range gone {
						if has, _ := s.hdrOfFrame(fr, key); has != -1 {
							bad(key, "the frame may have a header %s although that was not asked for", key)
						}
					}
				}
				if length {
					has, x := s.hdrOfFrame(fr, "content-length")
					ok := has == 1
					if ok {
						ps := pieces(s.val(x))
						ok = len(ps) == 1 && unconv(s.val(ps[0])) == s.val(ts.App("len", types.Typ[types.Int], body)) || x.IsStr("0") && s.bounds(ts.App("len", types.Typ[types.Int], body)).hi == 0
					}
					if !ok {
						bad("content-length", "the content-length of the frame is not the length of the body")
					}
				}
				if body != nil && !same(s, s.peek(fr, "frame.Frame.Body"), body) {
					bad("body", "the body of the frame is not the one given")
				}
				if receipt {
					has, _ := s.hdrOfFrame(fr, "receipt")
					if ch := a.requestChan(s, e.Args[1]); has != 1 || ch == nil || s.isNil(ch) != -1 {
						bad("receipt", "no receipt is requested and waited for")
					}
				}
			}
			if e.Name == a.writeCh {
				s.cells["op.sent"] = ex.ts.Int(1)
			}
		case "exit":
			if failed(s, e) == 1 || s.cells["op.sent"] == nil {
				return
			}
			if f.Name() == "Subscribe" && len(e.Args) == 2 {
				ex.Obl("subscription", who)
				if ack != nil && !same(s, s.peek(e.Args[0], a.subAck), ack) {
					bad("mode", "the acknowledgement mode of the subscription is not the one given")
				}
				for _, g := range gs[:n] {
					if g.o.name == "SubscribeOpt.Id" && !same(s, s.peek(e.Args[0], a.subID), g.args[0]) {
						bad("id", "the id of the subscription is not the one given")
					}
				}
			}
		}
	}}, func(ex *Exec) {
		ex.ts = ts
		ex.Opts.Callback = applying(gs, isOptionOf("frame", "Frame"))
		ex.Opts.Unroll = inOption(gs)
	}, args, func(s *State) { start(s, s0, gs) })
}
func checkC08(c *Ctx) {
	a := newAPI(c)
	k := &connItems{c: c, a: a, proc: c.clientProcess(), read: c.clientRead(), timeouts: map[string]string{}, log: map[string]bool{}}
	k.readCh = c.field("", "Conn", "readCh", "chan *frame.Frame")
	if !a.ok() || k.proc == nil || k.read == nil {
		return
	}
	opts := c.documented("ConnOpt")
	var known []*option
	for _, o := range opts {
		names, ok := connTable[strings.TrimPrefix(o.name, "ConnOpt.")]
		if !ok {
			continue // not one of those that are decided
		}
		if !o.direct && len(names) != o.fn.Signature.Params().Len() {
			c.Undecided("%s has %d parameters", o.name, o.fn.Signature.Params().Len())
			continue
		}
		known = append(known, o)
	}
	c.Need("options for connecting", len(known), 19)
	if len(c.undecided) > 0 {
		return
	}
	k.consumers()
	makers := c.connectors(k.proc)
	c.Need("functions that make a connection", len(makers), 1)
	for _, f := range makers {
		ts := NewTerms()
		k.connect(f, f.Name()+" without options", ts, nil, nil)
		for _, o := range known {
			for n := 0; n < 3; n++ {
				if n > 0 && !o.fn.Signature.Variadic() {
					break
				}
				ts := NewTerms()
				c.prepared(ts, []*option{o}, [][]*T{arguments(ts, o, "", n)}, func(s *State, gs []*given) {
					k.connect(f, f.Name()+" with "+o.name, ts, s, gs)
				})
			}
		}
	}
	// every two options, those of the first frame in both orders
	first := func(o *option) bool {
		return o.name == "ConnOpt.Header" || o.name == "ConnOpt.Host" || o.name == "ConnOpt.Login" || o.name == "ConnOpt.AcceptVersion"
	}
	for _, f := range makers {
		for i, x := range known {
			for j, y := range known {
				if j < i && !(first(x) && first(y)) {
					continue
				}
				repeats := x == y && (x.name == "ConnOpt.Header" || x.name == "ConnOpt.AcceptVersion")
				if c.tier == "thorough" || repeats {
					ts := NewTerms()
					c.prepared(ts, []*option{x, y}, [][]*T{arguments(ts, x, "1:", 1), arguments(ts, y, "2:", 1)}, func(s *State, gs []*given) {
						k.connect(f, f.Name()+" with "+x.name+", "+y.name, ts, s, gs)
					})
				}
			}
		}
	}
	k.buffers()
	k.dialled(makers)
	c.NeedObl("connect frame", 20)
	c.NeedObl("connection", 20)
	if k.stats == "" {
		c.Fail("connection", "statistics", c.p.Pos(k.proc.Pos()), "ConnOpt.WithStats changes nothing")
	} else {
		k.statistics()
	}

	// failing options
	for _, f := range makers {
		k.refuse(f, isOptionOf("stomp", "Conn"))
	}
	frameOpt := isOptionOf("frame", "Frame")
	send, txSend, subscribe, unsub := c.method("", "Conn", "Send"), c.method("", "Transaction", "Send"), c.method("", "Conn", "Subscribe"), c.method("", "Subscription", "Unsubscribe")
	if send == nil || txSend == nil || subscribe == nil || unsub == nil {
		return
	}
	for _, f := range []*ssa.Function{send, txSend, subscribe, unsub} {
		k.refuse(f, frameOpt)
	}
	c.NeedObl("failing option", 5)

	// options of frames
	with := func(fs []*ssa.Function, opts []*option) {
		for _, f := range fs {
			for _, o := range opts {
				if f == unsub && !strings.HasSuffix(o.name, ".Header") {
					continue
				}
				ts := NewTerms()
				c.prepared(ts, []*option{o}, [][]*T{arguments(ts, o, "", 0)}, func(s *State, gs []*given) {
					k.frames(f, f.Name()+" with "+o.name, ts, s, gs, nil, "")
				})
			}
			ts := NewTerms()
			k.frames(f, f.Name()+" without options", ts, nil, nil, nil, "")
		}
	}
	sendOpts, subOpts := c.documented("SendOpt"), c.documented("SubscribeOpt")
	c.Need("options for sending", len(sendOpts), 3)
	c.Need("options for subscribing", len(subOpts), 2)
	with([]*ssa.Function{send, txSend}, sendOpts)
	with([]*ssa.Function{subscribe, unsub}, subOpts)
	for name, text := range map[string]string{"AckAuto": "auto", "AckClient": "client", "AckClientIndividual": "client-individual"} {
		ex := NewExec(c.p, "", nil)
		k.frames(subscribe, "Subscribe with "+name, ex.ts, nil, nil, a.constant(ex, name), text)
	}
	c.NeedObl("frame", 9)
}

// addrField is the field that an address points to.
func addrField(t *T) string {
	if t.K == KFldAddr {
		return t.S
	}
	return ""
}

// buffers decides that readers and writers of frames have buffers of the size asked for.
func (k *connItems) buffers() {
	c := k.c
	for _, name := range []string{"NewReader", "NewReaderSize", "NewWriter", "NewWriterSize"} {
		f := c.fn("frame", name)
		if f == nil {
			continue
		}
		size := -1
		for i, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				size = i
			}
		}
		c.Explore("frame."+name, f, &funcRule{on: func(s *State, e *Event) {
			switch e.Kind {
			case "call":
				if n := strings.TrimSuffix(e.Name, "Size"); n == "bufio.NewReader" || n == "bufio.NewWriter" {
					s.ex.Obl("buffer size", name)
					want := s.ex.ts.Int(4096)
					if size >= 0 {
						want = param(s.ex, f, size)
					}
					switch {
					case n == e.Name && size >= 0:
						s.ex.Bad(s, "buffer size", name, e.Instr, "the buffer of %s does not have the size asked for", name)
					case n != e.Name && !same(s, e.Args[1], want):
						s.ex.Bad(s, "buffer size", name, e.Instr, "the size of the buffer of %s is %s instead of %s", name, e.Args[1], want)
					}
				}
			}
		}}, func(ex *Exec) {
			ex.Opts.NoModel = func(n string) bool {
				return strings.HasPrefix(n, "frame.NewReader") || strings.HasPrefix(n, "frame.NewWriter")
			}
		}, nil, nil)
	}
	c.NeedObl("buffer size", 4)
}

// dialled decides that options given by the application come after those of the library, so that they count.
func (k *connItems) dialled(makers []*ssa.Function) {
	c := k.c
	is := map[*ssa.Function]bool{}
	for _, f := range makers {
		is[f] = true
	}
	for _, f := range c.p.Funcs {
		if f.Package() == nil || c.p.Rel(f.Package().Pkg) != "stomp" || !token.IsExported(f.Name()) || f.Signature.Recv() != nil || f.Parent() != nil || is[f] {
			continue
		}
		reaches := false
		for g := range is {
			reaches = reaches || c.p.info.Reach(f)[g]
		}
		if !reaches || !f.Signature.Variadic() {
			continue
		}
		f := f
		last := len(f.Params) - 1
		c.Explore(f.Name()+": options", f, &funcRule{on: func(s *State, e *Event) {
			if e.Kind != "call" || !is[e.Fn] || len(e.Args) == 0 {
				return
			}
			s.ex.Obl("passed on", f.Name())
			v := s.val(e.Args[len(e.Args)-1])
			if v == s.val(param(s.ex, f, last)) || v.IsApp("append") && s.val(v.A[1]) == s.val(param(s.ex, f, last)) {
				return
			}
			s.ex.Bad(s, "passed on", f.Name(), e.Instr, "the options given to %s are not those that count in the end: %s", f.Name(), v)
		}}, func(ex *Exec) { ex.Opts.NoInline = func(g *ssa.Function) bool { return is[g] } }, nil, nil)
	}
	c.NeedObl("passed on", 3)
}
