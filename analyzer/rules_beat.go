package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("B13", "Value flow of the heart-beat intervals and typestate of the timer: on every path on which CONNECT is accepted, the announced intervals and the connection's sending interval are the ones that the protocol derives from the client's header and the configured minimum; at every wait of the connection goroutine a timer of exactly that interval is running and waited for, which is renewed only after something was written and whose expiry is answered by a heart-beat; before every read of the read loop the deadline is that of the agreed receiving interval", checkB13)
}

// pieces takes a formatted or concatenated string apart.
func pieces(t *T) []*T {
	for t != nil && t.K == KIface {
		t = t.A[0]
	}
	switch {
	case t == nil:
		return nil
	case t.IsApp("+"):
		return append(pieces(t.A[0]), pieces(t.A[1])...)
	case t.IsApp("strconv.Itoa"), t.IsApp("strconv.FormatInt"), t.IsApp("strconv.FormatUint"):
		return []*T{t.A[0]}
	case t.IsApp("strings.Join") && t.A[0].K == KList:
		var out []*T
		for i, x := range t.A[0].A {
			if i > 0 {
				out = append(out, t.A[1])
			}
			out = append(out, pieces(x)...)
		}
		return out
	case t.IsApp("fmt.Sprintf") && t.A[1].K == KList:
		f, ok := t.A[0].Str()
		if !ok {
			return []*T{t}
		}
		var out []*T
		n := 0
		for f != "" {
			i := strings.IndexByte(f, '%')
			if i < 0 || i+1 == len(f) {
				i = len(f)
			}
			if i > 0 {
				out = append(out, strTerm(f[:i]))
				f = f[i:]
				continue
			}
			if n >= len(t.A[1].A) || !strings.ContainsRune("dvs", rune(f[1])) {
				return []*T{t}
			}
			x := t.A[1].A[n]
			for x.K == KIface {
				x = x.A[0]
			}
			out = append(out, x)
			n++
			f = f[2:]
		}
		return out
	}
	return []*T{t}
}

var strTerms = NewTerms()

func strTerm(s string) *T { return strTerms.Str(s) }

// beat recognises the numbers that heart-beat intervals are made of.
type beat struct {
	hdr func(s *State) *T // the heart-beat header of the other side
}

// source classifies a number: "0" and "1" for the parts of the other side's
// header, "min" for the configured value, "#" for a constant.
func (b *beat) source(s *State, t *T) string {
	for t != nil {
		if t.K == KIface || strings.HasPrefix(t.S, "conv:") && t.K == KApp {
			t = t.A[0]
			continue
		}
		break
	}
	if t == nil {
		return "?"
	}
	if _, ok := s.val(t).Int(); ok {
		return "#"
	}
	for _, p := range []string{"strconv.ParseUint#0", "strconv.ParseInt#0", "strconv.Atoi#0"} {
		if !t.IsApp(p) {
			continue
		}
		if whole, k, ok := pieceOf(t.A[0], ","); ok && k < 2 {
			if h := b.hdr(s); h != nil && s.val(whole) == s.val(h) {
				return string(rune('0' + k))
			}
		}
		return "?"
	}
	for i := 0; i < 2; i++ {
		if t.IsApp("frame.ParseHeartBeat#"+string(rune('0'+i))) && b.hdr(s) != nil && s.val(t.A[0]) == s.val(b.hdr(s)) {
			return string(rune('0' + i))
		}
	}
	if t.IsApp("config.HeartBeat") {
		return "min"
	}
	if (t.IsApp("/") || t.IsApp("*")) && len(t.A) == 2 {
		if _, ok := t.A[1].Int(); ok {
			return b.source(s, t.A[0])
		}
	}
	return "?"
}

// lin splits a term into a base and a constant factor.
func lin(s *State, t *T) (*T, int64) {
	k := int64(1)
	for {
		switch {
		case t.K == KIface, t.K == KApp && strings.HasPrefix(t.S, "conv:"):
			t = t.A[0]
		case t.IsApp("*") && len(t.A) == 2:
			n, ok := t.A[1].Int()
			if !ok {
				return t, k
			}
			k *= n
			t = t.A[0]
		default:
			return t, k
		}
	}
}

// below tells whether the other side's number is known to be less than the configured one (1), or not (-1).
func (b *beat) below(s *State, src string) int {
	r := 0
	for c, v := range s.bools {
		if !c.IsApp("<") {
			continue
		}
		x, y := b.source(s, c.A[0]), b.source(s, c.A[1])
		switch {
		case x == src && y == "min" && v, x == "min" && y == src && !v && r == 0:
			r = 1
		case x == src && y == "min" && !v, x == "min" && y == src && v:
			r = -1
		case x == src && y == "#" || x == "#" && y == src:
			// the configured value is capped
			k := c.A[1]
			if x == "#" {
				k = c.A[0]
			}
			if n, _ := s.val(k).Int(); n > 1 {
				if (x == src) == v {
					r = 1
				} else {
					r = -1
				}
			}
		}
	}
	return r
}

// positive tells whether a part of the header is known to be positive (1) or zero (-1).
func (b *beat) positive(s *State, src string) int {
	r := 0
	look := func(t *T, zero int) {
		if b.source(s, t) == src && r == 0 {
			r = zero
		}
	}
	for t := range s.ivals {
		iv := s.bounds(t)
		if iv.hasLo && iv.lo > 0 {
			look(t, 1)
		}
		if iv.hasHi && iv.hi <= 0 {
			look(t, -1)
		}
	}
	for t, v := range s.eqc {
		if n, ok := v.Int(); ok {
			if n > 0 {
				look(t, 1)
			} else {
				look(t, -1)
			}
		}
	}
	for t, m := range s.nec {
		for v := range m {
			if v.IsInt(0) {
				look(t, 1)
			}
		}
	}
	return r
}

// cap returns the constant that the configured value exceeds and is limited to.
func (b *beat) cap(s *State) (int64, bool) {
	for c, v := range s.bools {
		if c.IsApp("<") {
			if k, ok := c.A[0].Int(); ok && v && b.source(s, c.A[1]) == "min" {
				return k, true
			}
			if k, ok := c.A[1].Int(); ok && !v && b.source(s, c.A[0]) == "min" {
				return k, true
			}
		}
	}
	return 0, false
}

// agreed decides that a value is the interval that follows from the part src of the header; the
// reason is empty if so.
func (b *beat) agreed(s *State, val *T, src string) string {
	pos, low := 0, 0
	if b.hdr(s) == nil {
		pos = -1
	} else {
		pos, low = b.positive(s, src), b.below(s, src)
	}
	v := s.val(val)
	if n, ok := v.Int(); ok && n <= 0 {
		if pos != -1 {
			return "is zero although the client may not have declined"
		}
		return ""
	}
	if pos == -1 {
		if b.source(s, v) == src {
			return "" // zero
		}
		return "is not zero although the client has declined"
	}
	switch b.source(s, v) {
	case src:
		if low != -1 && s.cells["hb.nomin"] == nil {
			return "may be less than the configured value"
		}
		return ""
	case "min", "#":
		if pos != 1 {
			return "may be not zero although the client has declined"
		}
		if n, ok := v.Int(); ok {
			if k, capped := b.cap(s); !capped || n != k {
				return "is a constant"
			}
		}
		if low != 1 {
			return "is the configured value although the client may have asked for a longer one"
		}
		return ""
	case "0", "1":
		return "is taken from the wrong part of the client's header"
	}
	return "is not derived from the client's header and the configured value: " + v.String()
}

// timer follows the heart-beat timer of a goroutine.
type timer struct {
	interval func(s *State) *T // the agreed sending interval
	rule     string
}

func (m *timer) on(s *State, e *Event) {
	ex := s.ex
	bad := func(k, format string, args ...interface{}) { ex.Bad(s, m.rule, k, e.Instr, format, args...) }
	arm := func(d *T, t *T) {
		ex.Obl(m.rule, "armed")
		iv := m.interval(s)
		if iv == nil || s.val(d) != s.val(iv) {
			bad("interval", "the heart-beat timer does not run for the agreed interval")
		}
		if s.cells["t.armed"] != nil && s.cells["t.wrote"] == nil {
			bad("renewed", "the heart-beat timer starts anew although nothing was written: no heart-beat is sent in time")
		}
		s.cells["t.timer"] = t
		s.cells["t.armed"] = ex.ts.Int(1)
		delete(s.cells, "t.wrote")
	}
	switch e.Kind {
	case "write":
		if s.cells["t.armed"] != nil {
			s.cells["t.wrote"] = ex.ts.Int(1)
		}
		if s.isNil(e.Args[1]) == 1 {
			delete(s.cells, "t.fired")
		}
	case "call":
		switch e.Name {
		case "time.NewTimer", "time.After", "time.NewTicker", "time.Tick":
			arm(e.Args[0], e.Res)
		case "time.Timer.Reset", "time.Ticker.Reset":
			arm(e.Args[1], e.Args[0])
		case "time.Timer.Stop", "time.Ticker.Stop":
			if s.cells["t.timer"] == e.Args[0] {
				delete(s.cells, "t.timer")
			}
		}
	case "recv":
		if m.isTimer(s, e.Args[0]) {
			s.cells["t.fired"] = ex.ts.Int(1)
			if !strings.Contains(typKey(s.cells["t.timer"].Typ), "Ticker") {
				delete(s.cells, "t.timer")
			}
		} else if ch, ok := e.Args[0].Typ.(*types.Chan); ok && typKey(ch.Elem()) == "time.Time" {
			s.dead = true // a stopped timer
		}
	}
}

func (m *timer) isTimer(s *State, ch *T) bool {
	t := s.cells["t.timer"]
	if t == nil {
		return false
	}
	if ch == t {
		return true
	}
	b, f, ok := ch.FieldOf()
	return ok && b == t && (f == "time.Timer.C" || f == "time.Ticker.C")
}

// wait decides that the timer is running at a select.
func (m *timer) wait(s *State, e *Event) {
	ex := s.ex
	bad := func(k, format string, args ...interface{}) { ex.Bad(s, m.rule, k, e.Instr, format, args...) }
	if s.cells["t.fired"] != nil {
		bad("heart-beat", "the heart-beat timer has expired, but no heart-beat is written")
	}
	iv := m.interval(s)
	if iv == nil {
		return
	}
	v := s.val(iv)
	ex.Obl(m.rule, "waited for")
	switch s.eval(ex.ts.Bin(token.LSS, ex.ts.Int(0), v, types.Typ[types.Bool])) {
	case -1:
		return
	case 0:
		bad("wait", "the goroutine waits without looking whether heart-beats are agreed")
		return
	}
	for _, a := range e.Args {
		if m.isTimer(s, a) {
			return
		}
	}
	bad("wait", "heart-beats are agreed, but no timer is running")
}

func checkB13(c *Ctx) {
	v := newSrv(c)
	interval := c.field("server/client", "Conn", "writeTimeout", "time.Duration")
	if !v.ok() {
		return
	}
	v.scanRead(nil)
	pure := func(ex *Exec) {
		model := ex.Opts.Model
		ex.Opts.Model = func(s *State, ci *CallInfo) ([]*State, bool) {
			if ci.Call.IsInvoke() && strings.HasSuffix(ci.Name, ".HeartBeat") && len(ci.Args) == 1 {
				ex.finish(s, ci.Instr, 0, ex.ts.App("config.HeartBeat", ci.Typ))
				return one(s), true
			}
			if model != nil {
				return model(s, ci)
			}
			return nil, false
		}
	}

	// negotiation
	y := &cycle{v: v, headers: []string{"heart-beat"}}
	b := &beat{hdr: func(s *State) *T {
		if h := s.cells["hb.h"]; h != nil {
			return h
		}
		return s.h("heart-beat")
	}}
	own := func(s *State, e *Event, w *T) {
		s.ex.Obl("negotiated", "sending interval")
		base, k := lin(s, w)
		if n, ok := w.Int(); ok {
			base, k = s.ex.ts.Int(n/1000000), 1000000
		}
		if r := b.agreed(s, base, "1"); r != "" {
			s.ex.Bad(s, "negotiated", "sending interval", e.Instr, "the broker's sending interval %s", r)
		} else if n, ok := base.Int(); k != 1000000 && !(ok && n == 0) {
			s.ex.Bad(s, "negotiated", "sending interval", e.Instr, "the broker's sending interval is not in milliseconds (factor %d)", k)
		}
	}
	y.accept = func(s *State, f *T, e *Event) {
		if m := s.fcmd(); m != "CONNECT" && m != "STOMP" || s.cells["hb.done"] != nil {
			return
		}
		s.cells["hb.done"] = s.ex.ts.Int(1)
		cn := v.connTerm(s)
		if cn == nil {
			return
		}
		if s.cells["c.stored"] == nil {
			own(s, e, s.val(s.peek(cn, interval)))
		}
	}
	y.on = func(s *State, e *Event) {
		if m := s.fcmd(); e.Kind == "store" && e.Name == interval && (m == "CONNECT" || m == "STOMP") && s.cells["hb.done"] == nil {
			s.cells["c.stored"] = s.ex.ts.Int(1)
			own(s, e, s.val(e.Args[1]))
		}
		if e.Kind != "write" || s.cmd(e.Args[1]) != "CONNECTED" {
			return
		}
		ex := s.ex
		ex.Obl("negotiated", "announced")
		bad := func(k, format string, args ...interface{}) {
			ex.Bad(s, "negotiated", "announced "+k, e.Instr, format, args...)
		}
		p, val := s.hdrOfFrame(e.Args[1], "heart-beat")
		if p != 1 {
			bad("", "CONNECTED announces no heart-beat")
			return
		}
		ps := pieces(s.val(val))
		if len(ps) != 3 || !ps[1].IsStr(",") {
			bad("", "the heart-beat header of CONNECTED is not made of two numbers: %s", val)
			return
		}
		if r := b.agreed(s, ps[0], "1"); r != "" {
			bad("sending", "the announced sending interval %s", r)
		}
		if r := b.agreed(s, ps[2], "0"); r != "" {
			bad("receiving", "the announced receiving interval %s", r)
		}
	}
	y.explore("connection goroutine, intervals", pure)
	c.NeedObl("negotiated", 2)

	// timer
	z := &cycle{v: v}
	tm := &timer{rule: "timer", interval: func(s *State) *T {
		if cn := v.connTerm(s); cn != nil {
			return s.peek(cn, interval)
		}
		return nil
	}}
	z.on = func(s *State, e *Event) {
		if z.waits(s, e) && s.cells[cellEnd] == nil {
			tm.wait(s, e)
		}
		tm.on(s, e)
		if e.Kind == "store" && e.Name == interval && s.fcmd() != "CONNECT" && s.fcmd() != "STOMP" {
			s.ex.Bad(s, "timer", "changed "+s.ex.where(e.Instr), e.Instr, "the sending interval is changed outside the handshake")
		}
	}
	z.explore("connection goroutine, timer", pure)
	c.NeedObl("timer", 2)

	// read loop
	for _, m := range []string{"CONNECT", "STOMP"} {
		v.deadlines(m, pure)
	}
	c.NeedObl("deadline", 4)
}

// deadlines decides that the read loop sets the agreed deadline before every read after the handshake.
func (v *srv) deadlines(m string, conf func(ex *Exec)) {
	b := &beat{hdr: func(s *State) *T { return s.cells["hb.h"] }}
	judge := func(s *State, e *Event) {
		ex := s.ex
		if b.positive(s, "min") == -1 && b.positive(s, "0") == 1 && b.below(s, "0") == 1 {
			return // not possible: 0 < client's value < configured value
		}
		bad := func(k, format string, args ...interface{}) {
			ex.Bad(s, "deadline", m+" "+k, e.Instr, format, args...)
		}
		if s.cells["r.looked"] == nil {
			bad("ignored", "the read loop does not look at the heart-beat header of the %s frame", m)
			return
		}
		dl := s.cells["r.dl"]
		add := dl != nil && dl.IsApp("time.Time.Add")
		d := ex.ts.Int(0)
		if add {
			d = dl.A[1]
			ex.Obl("deadline", m+" set")
			if dl.A[0] != s.cells["r.now"] {
				bad("from now", "the read deadline does not count from the moment at which the read begins")
			}
		} else {
			ex.Obl("deadline", m+" none")
		}
		s.cells["r.d"] = d
		base, k := lin(s, d)
		if n, ok := d.Int(); ok && n > 0 {
			if m, capped := b.cap(s); capped {
				base, k = ex.ts.Int(m), n/m
			}
		}
		if r := b.agreed(s, base, "0"); r != "" {
			bad("interval", "the interval after which the broker gives up reading %s", r)
		} else if add && k <= 1000000 {
			bad("tolerance", "the read deadline is not longer than the agreed interval in milliseconds")
		}
	}
	rule := &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		ts := ex.ts
		if len(s.frames) == 0 || s.frames[0].fn != v.read {
			return
		}
		switch e.Kind {
		case "invoke":
			if strings.HasSuffix(e.Name, ".SetReadDeadline") || strings.HasSuffix(e.Name, ".SetDeadline") {
				s.cells["r.dl"] = s.val(e.Args[1])
				if s.cells["r.first"] != nil && s.cells["r.second"] == nil {
					judge(s, e)
				}
			}
		case "call":
			if e.Name == "time.Now" {
				s.cells["r.now"] = e.Res
			}
		case "hdrget":
			if f := s.cells["r.first"]; f != nil && s.cells["r.second"] == nil && e.Args[0] == s.hdrOf(f) && e.Args[1].IsStr("heart-beat") {
				s.cells["r.looked"] = ts.Int(1)
				if e.Tag == "present" {
					s.cells["hb.h"] = e.Res
				}
			}
		case "send":
			if e.Name == v.readCh && s.cells["r.first"] != nil && s.cells["r.second"] == nil {
				if s.cells["r.looked"] != nil && b.agreed(s, ts.Int(0), "0") == "" {
					s.cells["r.none"] = ts.Int(1)
				}
			}
		case "pure":
			h := s.cells["hb.h"]
			if h == nil {
				return
			}
			if e.Name == "regexp.Regexp.MatchString" && s.val(e.Args[1]) == s.val(h) {
				s.cells["r.match"] = e.Res
			}
			if e.Res.K == KTuple && len(e.Res.A) > 0 && b.source(s, e.Res.A[0]) == "0" {
				s.cells["r.c0"] = e.Res.A[0] // keeps what is known about it
			}
		case "branch":
			if t := s.cells["r.match"]; t != nil && s.eval(t) == -1 {
				s.dead = true // the connection is going to be rejected
			}
		case "read":
			if s.cells["r.first"] != nil {
				if s.cells["r.dl"] == nil && s.cells["r.none"] == nil {
					ex.Bad(s, "deadline", m+" missing", e.Instr, "no deadline is set for a read although the client may have agreed to send heart-beats")
				}
				s.cells["r.second"] = ts.Int(1)
			}
			delete(s.cells, "r.dl")
			delete(s.cells, "r.now")
			if e.Tag == "frame" && s.cells["r.first"] == nil {
				s.cells["r.first"] = e.Res
				s.assume(ts.Bin(eqTok, s.peek(e.Res, "frame.Frame.Command"), ts.Str(m), nil), true)
			}
		}
	}}
	v.c.Explore("server read loop, "+m, v.ctor, rule, func(ex *Exec) {
		ex.Opts.FollowGo = func(f *ssa.Function) bool { return f == v.read }
		conf(ex)
	}, nil, nil)
}
