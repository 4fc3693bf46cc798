package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "Value flow of the heart-beat intervals from the options and the CONNECTED frame into the connection, and typestate of the two timers of the I/O goroutine: the CONNECT frame offers the configured intervals in milliseconds; on every path on which a connection is made, its sending interval is zero exactly if either side has declined and never longer than the maximum of both sides' values, and its receiving interval is zero exactly if either side has declined and otherwise their maximum plus the tolerance; at every wait of the I/O goroutine a timer of exactly these intervals is running, if they are not zero; the sending timer starts anew only after a write, and its expiry is answered by a heart-beat; the receiving timer is stopped by whatever arrives, starts anew only then, and its expiry ends the connection; heart-beats are written only when agreed", checkC09)
}

// clock is the typestate of a timer of the I/O goroutine.
type clock struct {
	name  string
	field string // the agreed interval
	grace string // a factor that it may be multiplied with
	write bool   // renewed by writes, and not by what is received
	readC string
}

func (k *clock) cell(n string) string { return "k." + k.name + "." + n }

// measures tells whether a duration is the agreed interval.
func (k *clock) measures(s *State, d, base *T) bool {
	d = s.val(d)
	for d.K == KApp && strings.HasPrefix(d.S, "conv:") {
		d = d.A[0]
	}
	if _, f, ok := fieldOf(d); ok && f == k.field {
		return true
	}
	if d == s.val(s.peek(base, k.field)) {
		return true
	}
	if d.IsApp("*") && k.grace != "" {
		for i := 0; i < 2; i++ {
			o := d.A[1-i]
			for o.K == KApp && strings.HasPrefix(o.S, "conv:") {
				o = o.A[0]
			}
			if k.measures(s, d.A[i], base) && (s.val(o) == s.val(s.peek(base, k.grace)) || s.loadOf(o) == k.grace) {
				return true
			}
		}
	}
	return s.loadOf(d) == k.field
}

// fieldOf takes the initial value of a field apart.
func fieldOf(t *T) (*T, string, bool) {
	if t.K == KInit && t.A[0].K == KFldAddr {
		return t.A[0].A[0], t.A[0].S, true
	}
	return nil, "", false
}

// loadOf is the field that a value of unknown origin was loaded from.
func (s *State) loadOf(t *T) string {
	if _, f, ok := fieldOf(t); ok {
		return f
	}
	return s.ex.loaded[t]
}

func (k *clock) interval(s *State, base *T) *T { return s.val(s.peek(base, k.field)) }

// on0 tells whether heart-beats are known to be agreed (1), or not (-1).
func (k *clock) on0(s *State, base *T) int {
	if r := s.eval(s.ex.ts.Bin(token.LSS, s.ex.ts.Int(0), k.interval(s, base), types.Typ[types.Bool])); r != 0 {
		return r
	}
	for t := range s.ivals {
		if k.measures(s, t, base) {
			iv := s.bounds(t)
			switch {
			case iv.hasLo && iv.lo > 0:
				return 1
			case iv.hasHi && iv.hi <= 0:
				return -1
			}
		}
	}
	return 0
}

func (k *clock) is(s *State, ch *T) bool {
	t := s.cells[k.cell("t")]
	if t == nil {
		return false
	}
	if ch == t {
		return true
	}
	b, f, ok := ch.FieldOf()
	return ok && b == t && (f == "time.Timer.C" || f == "time.Ticker.C")
}

func (k *clock) on(s *State, e *Event, base *T) {
	ex := s.ex
	bad := func(n, format string, args ...interface{}) { ex.Bad(s, k.name, n, e.Instr, format, args...) }
	arm := func(d, t *T) {
		if !k.measures(s, d, base) {
			return
		}
		ex.Obl(k.name, "armed")
		if s.cells[k.cell("armed")] != nil && s.cells[k.cell("due")] == nil {
			what := "received"
			if k.write {
				what = "written"
			}
			bad("renewed", "the %s timer starts anew although nothing was %s", k.name, what)
		}
		s.cells[k.cell("t")] = t
		s.cells[k.cell("armed")] = ex.ts.Int(1)
		delete(s.cells, k.cell("due"))
		delete(s.cells, k.cell("late"))
	}
	switch e.Kind {
	case "write":
		if k.write {
			if s.cells[k.cell("armed")] != nil {
				s.cells[k.cell("due")] = ex.ts.Int(1)
			}
			if s.isNil(e.Args[1]) == 1 {
				delete(s.cells, k.cell("fired"))
				ex.Obl(k.name, "heart-beat")
				if k.on0(s, base) != 1 {
					bad("heart-beat", "a heart-beat is written although none may be agreed")
				}
			}
		}
	case "call":
		switch e.Name {
		case "time.NewTimer", "time.After", "time.NewTicker", "time.Tick":
			arm(e.Args[0], e.Res)
		case "time.Timer.Reset", "time.Ticker.Reset":
			arm(e.Args[1], e.Args[0])
		case "time.Timer.Stop", "time.Ticker.Stop":
			if s.cells[k.cell("t")] == e.Args[0] {
				delete(s.cells, k.cell("t"))
			}
		}
	case "recv", "recvclosed":
		if k.is(s, e.Args[0]) {
			s.cells[k.cell("fired")] = ex.ts.Int(1)
			if !strings.Contains(typKey(s.cells[k.cell("t")].Typ), "Ticker") {
				delete(s.cells, k.cell("t"))
			}
		} else if ex.chanName(e.Args[0]) == k.readC && !k.write {
			if s.cells[k.cell("armed")] != nil {
				s.cells[k.cell("due")] = ex.ts.Int(1)
				if s.cells[k.cell("t")] != nil {
					s.cells[k.cell("late")] = ex.ts.Int(1)
				}
			}
		}
	case "store":
		if e.Name == k.field {
			bad("changed", "the agreed interval is changed by the I/O goroutine")
		}
	}
}

// wait decides that the timer is running when the I/O goroutine waits.
func (k *clock) wait(s *State, e *Event, base *T) {
	ex := s.ex
	bad := func(n, format string, args ...interface{}) { ex.Bad(s, k.name, n, e.Instr, format, args...) }
	if s.cells[k.cell("fired")] != nil {
		if k.write {
			bad("expired", "the sending timer has expired, but no heart-beat is written")
		} else {
			bad("expired", "the receiving timer has expired, but the connection goes on")
		}
	}
	ex.Obl(k.name, "waited for")
	switch k.on0(s, base) {
	case -1:
		for _, a := range e.Args {
			if k.is(s, a) {
				bad("none", "a %s timer is running although no heart-beats are agreed", k.name)
			}
		}
		return
	case 0:
		bad("wait", "the I/O goroutine waits without looking whether heart-beats are agreed")
		return
	}
	for _, a := range e.Args {
		if k.is(s, a) {
			if !k.write && s.cells[k.cell("late")] != nil {
				bad("late", "the receiving timer is not renewed when something arrives")
			}
			return
		}
	}
	bad("wait", "heart-beats are agreed, but the %s timer is not running", k.name)
}

// offer classifies the numbers of the client's side of the negotiation.
type offer struct {
	beat
	a          *api
	rt, wt, he string // options
}

func (o *offer) source(s *State, t *T) string {
	for t != nil && (t.K == KIface || t.K == KApp && strings.HasPrefix(t.S, "conv:")) {
		t = t.A[0]
	}
	if t == nil {
		return "?"
	}
	switch s.loadOf(t) {
	case o.rt:
		return "recv"
	case o.wt:
		return "send"
	case o.he:
		return "tolerance"
	}
	return o.beat.source(s, t)
}

// sign tells whether a number is known to be positive (1) or not (-1).
func (o *offer) sign(s *State, src string) int {
	r := 0
	is := func(t *T) bool { return o.source(s, t) == src }
	for t := range s.ivals {
		if iv := s.bounds(t); is(t) {
			if iv.hasLo && iv.lo > 0 {
				return 1
			}
			if iv.hasHi && iv.hi <= 0 {
				r = -1
			}
		}
	}
	for t, v := range s.eqc {
		if n, ok := v.Int(); ok && is(t) {
			if n > 0 {
				return 1
			}
			r = -1
		}
	}
	nonneg := src == "0" || src == "1"
	for t, m := range s.nec {
		for v := range m {
			if v.IsInt(0) && nonneg && is(t) {
				return 1
			}
		}
	}
	return r
}

// less tells whether one number is known to be less than another (1), or not (-1).
func (o *offer) less(s *State, x, y string) int {
	r := 0
	for c, v := range s.bools {
		if !c.IsApp("<") {
			continue
		}
		a, b := o.source(s, c.A[0]), o.source(s, c.A[1])
		switch {
		case a == x && b == y && v:
			return 1
		case a == x && b == y && !v, a == y && b == x && v:
			r = -1
		}
	}
	return r
}

// judge decides that a value is the agreed interval; the reason is empty if so.
func (o *offer) judge(s *State, v *T, theirs, ours string, exact bool) string {
	p, q := o.sign(s, theirs), o.sign(s, ours)
	if o.hdr(s) == nil {
		p = -1
	}
	// (the tolerance is not negative)
	if p == -1 && o.less(s, "tolerance", theirs) == 1 || q == -1 && o.less(s, "tolerance", ours) == 1 {
		return ""
	}
	if p == 0 && o.less(s, "tolerance", theirs) == 1 {
		p = 1
	}
	if q == 0 && o.less(s, "tolerance", ours) == 1 {
		q = 1
	}
	v = s.val(v)
	tol := 0
	for v.IsApp("+") || v.IsApp("-") {
		if o.source(s, v.A[1]) == "tolerance" {
			tol++
			if v.S == "-" {
				if exact {
					return "is shortened by the tolerance"
				}
				if o.sign(s, "tolerance") == -1 {
					return "" // not meant to be negative
				}
				if o.less(s, "tolerance", theirs) != 1 && o.less(s, "tolerance", ours) != 1 {
					return "may become negative when the tolerance is subtracted"
				}
			} else if !exact {
				return "is extended by the tolerance"
			}
			v = s.val(v.A[0])
		} else if v.S == "+" && o.source(s, v.A[0]) == "tolerance" && exact {
			tol++
			v = s.val(v.A[1])
		} else {
			return "is not derived from the two sides' values: " + v.String()
		}
	}
	if n, ok := v.Int(); ok && tol == 0 {
		if n <= 0 {
			if p != -1 && q != -1 {
				return "is zero although neither side may have declined"
			}
			return ""
		}
	}
	src := o.source(s, v)
	if tol == 0 && src == theirs && p == -1 {
		return "" // zero
	}
	if p == -1 || q == -1 {
		return "is not zero although one side has declined"
	}
	switch src {
	case theirs:
		if q != 1 {
			return "may be not zero although the client has declined"
		}
		if p != 1 && (exact || tol > 0) {
			return "may be not zero although the server has declined"
		}
		if exact && o.less(s, theirs, ours) != -1 && o.less(s, ours, theirs) != 1 {
			return "may be less than the client's value"
		}
	case ours:
		if p != 1 || q != 1 {
			return "may be not zero although one side has declined"
		}
		if exact && o.less(s, ours, theirs) != -1 && o.less(s, theirs, ours) != 1 {
			return "may be less than the server's value"
		}
	default:
		return "is not derived from the two sides' values: " + v.String()
	}
	if exact && tol != 1 {
		return "does not include the tolerance once"
	}
	return ""
}

func checkC09(c *Ctx) {
	a := newAPI(c)
	o := &offer{a: a}
	dur := "time.Duration"
	o.rt = c.field("", "connOptions", "ReadTimeout", dur)
	o.wt = c.field("", "connOptions", "WriteTimeout", dur)
	o.he = c.field("", "connOptions", "HeartBeatError", dur)
	rt := c.field("", "Conn", "readTimeout", dur)
	wt := c.field("", "Conn", "writeTimeout", dur)
	grace := c.field("", "Conn", "hbGracePeriodMultiplier", "float64")
	readCh := c.field("", "Conn", "readCh", "chan *frame.Frame")
	proc := c.clientProcess()
	if !a.ok() {
		return
	}
	o.hdr = func(s *State) *T { return s.cells["hb.h"] }

	// what the functions that connect agree on
	makers := 0
	for _, f := range c.connectors(proc) {
		f := f
		makers++
		c.Explore(c.p.FuncName(f), f, &funcRule{wants: func(s *State, e *Event) bool { return e.Kind == "load" }, on: func(s *State, e *Event) {
			ex := s.ex
			switch e.Kind {
			case "callback":
				s.cells["hb.cb"] = ex.ts.Int(1)
			case "write":
				if s.cells["hb.cb"] == nil {
					s.dead = true // with the defaults, which are constants
					return
				}
				if s.cells["hb.sent"] != nil || s.isNil(e.Args[1]) == 1 {
					return
				}
				s.cells["hb.sent"] = ex.ts.Int(1)
				ex.Obl("offered", f.Name())
				has, v := s.hdrOfFrame(e.Args[1], "heart-beat")
				if has != 1 {
					ex.Bad(s, "offered", f.Name(), e.Instr, "the CONNECT frame has no heart-beat header")
					return
				}
				ps := pieces(s.val(v))
				if len(ps) != 3 || !ps[1].IsStr(",") {
					ex.Bad(s, "offered", f.Name(), e.Instr, "the heart-beat header of CONNECT is not made of two numbers: %s", v)
					return
				}
				for i, want := range []string{"send", "", "recv"} {
					if want == "" {
						continue
					}
					if r := o.millis(s, ps[i], want); r != "" {
						ex.Bad(s, "offered", f.Name()+" "+want, e.Instr, "the %s interval that CONNECT offers %s", want, r)
					}
				}
			case "read":
				delete(s.cells, "hb.h")
				delete(s.cells, "hb.looked")
				if e.Tag == "frame" {
					s.cells["hb.f"] = e.Res
				}
			case "hdrget":
				if g := s.cells["hb.f"]; g != nil && e.Args[0] == s.hdrOf(g) && e.Args[1].IsStr("heart-beat") {
					s.cells["hb.looked"] = ex.ts.Int(1)
					if e.Tag == "present" {
						s.cells["hb.h"] = e.Res
					}
				}
			case "go":
				if e.Fn != proc || len(e.Args) == 0 {
					return
				}
				var cn *T
				for _, x := range e.Args {
					if isNamed(derefType(x.Typ), "stomp", "Conn") {
						cn = x
					}
				}
				if cn == nil {
					cn = s.cells["hb.conn"]
				}
				ex.Obl("agreed", f.Name())
				if cn == nil || s.cells["hb.looked"] == nil {
					ex.Bad(s, "agreed", f.Name()+" ignored", e.Instr, "the heart-beat header of CONNECTED is not looked at")
					return
				}
				if r := o.judge(s, s.peek(cn, wt), "1", "send", false); r != "" {
					ex.Bad(s, "agreed", f.Name()+" sending", e.Instr, "the sending interval %s", r)
				}
				if r := o.judge(s, s.peek(cn, rt), "0", "recv", true); r != "" {
					ex.Bad(s, "agreed", f.Name()+" receiving", e.Instr, "the receiving interval %s", r)
				}
			case "store":
				if e.Name == a.writeCh {
					s.cells["hb.conn"] = e.Args[0]
				}
			}
		}}, func(ex *Exec) {
			ex.Opts.Loads = true
			ex.Opts.Forget = forgetOptionsBut(o.rt, o.wt, o.he)
			ex.Opts.Given = func(f string) bool { return f == o.rt || f == o.wt || f == o.he }
		}, nil, nil)
	}
	c.Need("functions that make a connection", makers, 1)

	// the header, taken apart
	if ph := c.p.Func("frame", "ParseHeartBeat"); ph != nil {
		b := &beat{hdr: func(s *State) *T { return param(s.ex, ph, 0) }}
		c.Explore("ParseHeartBeat", ph, &funcRule{on: func(s *State, e *Event) {
			if e.Kind != "exit" || failed(s, e) == 1 || len(e.Args) != 3 {
				return
			}
			ex := s.ex
			for i := 0; i < 2; i++ {
				ex.Obl("taken apart", string(rune('0'+i)))
				base, k := lin(s, s.val(e.Args[i]))
				if n, ok := s.val(e.Args[i]).Int(); ok && n == 0 && b.positive(s, string(rune('0'+i))) == -1 {
					continue
				}
				if b.source(s, base) != string(rune('0'+i)) || k != 1000000 {
					ex.Bad(s, "taken apart", string(rune('0'+i)), e.Instr, "the result %d of ParseHeartBeat is not number %d of the header in milliseconds", i, i)
				}
			}
		}}, func(ex *Exec) { ex.Opts.NoModel = func(n string) bool { return n == "frame.ParseHeartBeat" } }, nil, nil)
		c.NeedObl("taken apart", 2)
	}

	// timers
	for _, k := range []*clock{{name: "sending", field: wt, write: true, readC: readCh}, {name: "receiving", field: rt, grace: grace, readC: readCh}} {
		k := k
		c.Explore("I/O goroutine, "+k.name+" timer", proc, &funcRule{wants: func(s *State, e *Event) bool { return e.Kind == "store" && e.Name == k.field }, on: func(s *State, e *Event) {
			base := c.connOf(s, proc)
			if e.Kind == "select" && e.Tag == "blocking" {
				for _, x := range e.Args {
					if s.ex.chanName(x) == readCh {
						k.wait(s, e, base)
						break
					}
				}
			}
			k.on(s, e, base)
		}}, nil, nil, nil)
		c.NeedObl(k.name, 2)
	}
	c.NeedObl("offered", 1)
	c.NeedObl("agreed", 1)
}

// millis decides that a number is an option in milliseconds.
func (o *offer) millis(s *State, t *T, want string) string {
	for t.K == KIface || t.K == KApp && strings.HasPrefix(t.S, "conv:") {
		t = t.A[0]
	}
	t = s.val(t)
	switch {
	case t.IsApp("/") && t.A[1].IsInt(1000000), t.IsApp("time.Duration.Milliseconds"):
		if o.source(s, t.A[0]) == want {
			return ""
		}
		return "is not the configured one"
	case o.source(s, t) == want:
		return "is not in milliseconds"
	}
	if n, ok := t.Int(); ok && n == 0 && o.sign(s, want) == -1 {
		return ""
	}
	return "is not the configured one: " + t.String()
}

// connOf is the connection that the I/O goroutine serves.
func (c *Ctx) connOf(s *State, proc *ssa.Function) *T {
	for i, p := range proc.Params {
		if isNamed(derefType(p.Type()), "stomp", "Conn") {
			return param(s.ex, proc, i)
		}
	}
	for _, v := range proc.FreeVars {
		t := v.Type()
		if isNamed(derefType(t), "stomp", "Conn") {
			return s.ex.ts.Param("free:"+v.Name(), t)
		}
		if isNamed(derefType(derefType(t)), "stomp", "Conn") {
			p := s.ex.ts.Param("free:"+v.Name(), t)
			return s.ex.ts.Init(p, derefType(t))
		}
	}
	return s.ex.ts.Nil()
}

// connectors lists the exported functions that start the I/O goroutine themselves, or by helpers,
// without going through another of them.
func (c *Ctx) connectors(proc *ssa.Function) []*ssa.Function {
	var starts []*ssa.Function
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok && goTarget(g) == proc {
					starts = append(starts, f)
				}
			}
		}
	}
	var api []*ssa.Function
	for _, f := range c.p.Funcs {
		if f.Package() == nil || c.p.Rel(f.Package().Pkg) != "stomp" || !token.IsExported(f.Name()) || f.Signature.Recv() != nil || f.Parent() != nil {
			continue
		}
		for _, g := range starts {
			if f == g || c.p.info.Reach(f)[g] {
				api = append(api, f)
				break
			}
		}
	}
	var out []*ssa.Function
	for _, f := range api {
		inner := false
		for _, g := range api {
			if f != g && c.p.info.Reach(f)[g] {
				inner = true
			}
		}
		if !inner {
			out = append(out, f)
		}
	}
	return out
}
