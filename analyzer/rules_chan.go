package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "Ownership and typestate analysis of every channel that the client library closes: a channel in a field is closed and sent on by one goroutine only, in an order that no path breaks, or by holders of one mutex that have seen a flag that closing sets and nothing resets, or is closed under sync.Once and never sent on by others; the channels of requests are made for one request each, registered under one key, used by the I/O goroutine only, and forgotten when they are closed", checkC01)
}

// chanUse is a send or a close, with what protects it.
type chanUse struct {
	in    ssa.Instruction
	close bool
	root  string
	locks map[string]bool // mutexes of the same object
	seen  map[string]bool // flags of the same object that are known to be unset, and were read under these mutexes
	once  string
	n     int
}

type chans struct {
	c     *Ctx
	uses  map[string]map[string]*chanUse // field -> root and instruction
	flags map[string]map[string]bool     // field -> flags that are set whenever its closer lets go of the mutex
}

func fieldBase(t *T) (*T, string) {
	if b, f, ok := t.FieldOf(); ok {
		return b, f
	}
	if t.K == KFldAddr {
		return t.A[0], t.S
	}
	return nil, ""
}

// boolFields lists the flags of the type of a field.
func (r *chans) boolFields(field string) []string {
	pre := field[:strings.LastIndex(field, ".")+1]
	var out []string
	for f, t := range r.c.p.info.fieldType {
		if strings.HasPrefix(f, pre) && !strings.Contains(f[len(pre):], ".") {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				out = append(out, f)
			}
		}
	}
	sort.Strings(out)
	return out
}

func (r *chans) observe(s *State, root string, e *Event) {
	ex := s.ex
	onceField := func() string {
		for _, f := range s.frames {
			if ci, ok := f.call.(ssa.CallInstruction); ok {
				if cal := ci.Common().StaticCallee(); cal != nil && cal.String() == "(*sync.Once).Do" && len(ci.Common().Args) > 0 {
					if fa, ok := ci.Common().Args[0].(*ssa.FieldAddr); ok {
						return r.c.p.fieldName(fa.X.Type(), fa.Field)
					}
				}
			}
		}
		return ""
	}
	switch e.Kind {
	case "load":
		if f := e.Name; f != "" && len(e.Args) > 0 && e.Args[0] != nil {
			for _, l := range s.locks {
				if b, _ := fieldBase(l); b == e.Args[0] {
					s.cells["ch.read."+f+"@"+b.String()] = ex.ts.Int(1)
				}
			}
		}
	case "store":
		if f := e.Name; f != "" && len(e.Args) > 0 && e.Args[0] != nil && len(e.X) > 0 && e.X[0] != nil {
			if k := f + "@" + e.Args[0].String(); s.cells["ch.read."+k] != nil && s.eval(e.X[0]) == -1 {
				s.cells["ch.was."+k] = ex.ts.Int(1)
			}
		}
	case "unlock", "lock":
		// what was read before may be old
		for k := range s.cells {
			if strings.HasPrefix(k, "ch.read.") || strings.HasPrefix(k, "ch.was.") {
				delete(s.cells, k)
			}
		}
		if e.Kind == "lock" {
			return
		}
		for k, b := range s.cells {
			if !strings.HasPrefix(k, "ch.closed.") {
				continue
			}
			field := strings.TrimPrefix(k, "ch.closed.")
			if len(s.locks) > 0 {
				continue
			}
			set := map[string]bool{}
			for _, f := range r.boolFields(field) {
				if v := s.peek(b, f); v != nil && s.eval(v) == 1 {
					set[f] = true
				}
			}
			if old := r.flags[field]; old != nil {
				for f := range old {
					if !set[f] {
						delete(old, f)
					}
				}
			} else {
				r.flags[field] = set
			}
			delete(s.cells, k)
		}
	case "send", "close":
		ch := e.Args[0]
		b, field := fieldBase(ch)
		if b == nil || !strings.HasPrefix(field, "stomp.") {
			field = e.Name
			b = nil
		}
		if field == "" || !strings.HasPrefix(field, "stomp.") {
			return
		}
		u := &chanUse{in: e.Instr, close: e.Kind == "close", root: root, locks: map[string]bool{}, seen: map[string]bool{}, once: onceField()}
		for _, l := range s.locks {
			if lb, lf := fieldBase(l); lb != nil && lb == b {
				u.locks[lf] = true
			}
		}
		if b != nil && len(u.locks) > 0 {
			for _, f := range r.boolFields(field) {
				if s.cells["ch.was."+f+"@"+b.String()] != nil {
					u.seen[f] = true // and has been set since
				}
				if v := s.peek(b, f); v != nil && s.eval(v) == -1 && s.cells["ch.read."+f+"@"+b.String()] != nil {
					u.seen[f] = true
				}
			}
		}
		if e.Kind == "close" && b != nil {
			s.cells["ch.closed."+field] = b
		}
		r.add(field, u)
	}
}

func (r *chans) add(field string, u *chanUse) {
	if r.uses[field] == nil {
		r.uses[field] = map[string]*chanUse{}
	}
	k := u.root + "|" + r.c.p.Pos(instrPos(u.in))
	if u.close {
		k += "|close"
	}
	old := r.uses[field][k]
	if old == nil {
		r.uses[field][k] = u
		old = u
	} else {
		for l := range old.locks {
			if !u.locks[l] {
				delete(old.locks, l)
			}
		}
		for f := range old.seen {
			if !u.seen[f] {
				delete(old.seen, f)
			}
		}
		if old.once != u.once {
			old.once = ""
		}
	}
	old.n++
	what := "send"
	if u.close {
		what = "close"
	}
	r.c.Obl("ordered", field+" "+what+" by "+u.root)
}

// judge decides, for the channels of each field that are closed, that nobody sends after that, or closes them again.
func (r *chans) judge() {
	c := r.c
	n := 0
	for _, field := range sortedKeys(r.uses) {
		var us []*chanUse
		closed := false
		for _, k := range sortedKeys(r.uses[field]) {
			us = append(us, r.uses[field][k])
			closed = closed || r.uses[field][k].close
		}
		if !closed {
			continue
		}
		n++
		// one goroutine does everything: its paths show the order
		roots := map[string]bool{}
		for _, u := range us {
			roots[u.root] = true
		}
		c.Obl("closed", field)
		if len(roots) == 1 && !roots[application] {
			for _, acc := range c.p.info.accesses[field] {
				if acc.write && !acc.ctor {
					c.Fail("ordered", field+" replaced", c.p.Pos(instrPos(acc.instr)), "the channel %s, which is closed, is replaced by another one", field)
				}
			}
			continue
		}
		// a mutex and a flag
		locks, seen := map[string]bool{}, map[string]bool{}
		for i, u := range us {
			for l := range u.locks {
				if i == 0 {
					locks[l] = true
				}
			}
			for f := range u.seen {
				if i == 0 {
					seen[f] = true
				}
			}
			for l := range locks {
				if !u.locks[l] {
					delete(locks, l)
				}
			}
			for f := range seen {
				if !u.seen[f] && !(u.close && u.once != "") {
					delete(seen, f)
				}
			}
		}
		guarded := false
		for f := range seen {
			if len(locks) > 0 && r.flags[field][f] && c.onlySet(f) {
				guarded = true
			}
		}
		if guarded {
			continue
		}
		// closed under sync.Once, and sent on by nobody else
		once, sends := "", 0
		same := true
		for _, u := range us {
			if !u.close {
				sends++
				if u.once == "" {
					same = false
				}
				continue
			}
			if u.once == "" || once != "" && u.once != once {
				same = false
			}
			once = u.once
		}
		if same && once != "" {
			continue
		}
		for _, u := range us {
			what := "sent on"
			if u.close {
				what = "closed"
			}
			c.Fail("ordered", field+" "+what+" by "+u.root, c.p.Pos(instrPos(u.in)), "the channel %s is %s by the %s, which does not exclude that it has been closed before, or is being closed, by somebody else (it is used by several goroutines without a mutex and a flag)", field, what, u.root)
		}
	}
	c.Need("channels in fields that are closed", n, 4)
}

// onlySet tells whether a flag is never reset.
func (c *Ctx) onlySet(f string) bool {
	for _, acc := range c.p.info.accesses[f] {
		if !acc.write || acc.ctor {
			continue
		}
		st, ok := acc.instr.(*ssa.Store)
		if !ok {
			return false
		}
		k, ok := st.Val.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Bool || !constant.BoolVal(k.Value) {
			return false
		}
	}
	return true
}

func checkC01(c *Ctx) {
	a := newAPI(c)
	proc, read, loop := c.clientProcess(), c.clientRead(), c.subscriptionLoop()
	if !a.ok() || proc == nil || read == nil || loop == nil {
		return
	}
	r := &chans{c: c, uses: map[string]map[string]*chanUse{}, flags: map[string]map[string]bool{}}
	crash := func(s *State, e *Event) {
		if e.Kind == "crash" && (e.Name == "sendclosed" || e.Name == "closeclosed" || e.Name == "closenil") {
			s.ex.Bad(s, "ordered", s.ex.where(e.Instr)+" "+e.Name, e.Instr, "a path %s", crashText(e))
		}
	}
	conf := func(ex *Exec) {
		ex.Opts.Loads = true
		ex.Opts.Forget = forgetOptions
	}
	// the operations
	made := 0
	for _, f := range c.exportedMethods("Conn", "Subscription", "Transaction") {
		f := f
		name := c.p.FuncName(f)
		c.Explore(name, f, &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			crash(s, e)
			r.observe(s, application, e)
			switch e.Kind {
			case "send":
				if e.Name != a.writeCh {
					break
				}
				ch := a.requestChan(s, e.Args[1])
				fr := a.requestFrame(s, e.Args[1])
				ex.Obl("requests", name)
				isSub := fr != nil && s.cmd(fr) == "SUBSCRIBE"
				switch {
				case ch == nil:
					ex.undecided("the channel of a request is not known at %s", c.p.Pos(instrPos(e.Instr)))
				case s.isNil(ch) == 1:
					if isSub {
						ex.Bad(s, "requests", name+" nil", e.Instr, "a SUBSCRIBE request has no channel")
					}
				case ch.K != KFresh || !strings.HasPrefix(ch.S, "make@"):
					ex.Bad(s, "requests", name+" shared", e.Instr, "the channel of a request is not made for it: %s", ch)
				case s.cells["rq."+ch.String()] != nil:
					ex.Bad(s, "requests", name+" twice", e.Instr, "a channel is used for two requests, and may be closed for both")
				default:
					made++
					s.cells["rq."+ch.String()] = ch
				}
			}
			if (e.Kind == "send" || e.Kind == "close") && ex.frameChan(e.Args[0]) {
				if _, field := fieldBase(e.Args[0]); field == "" && s.cells["rq."+e.Args[0].String()] != nil {
					ex.Bad(s, "requests", name+" "+e.Kind, e.Instr, "the channel of a request is used for a %s by the %s after it has been handed to the I/O goroutine", e.Kind, application)
				}
			}
		}}, conf, nil, nil)
	}
	c.Need("requests with a channel", made, 2)
	// the goroutines
	c.Explore("I/O goroutine", proc, &funcRule{on: func(s *State, e *Event) {
		crash(s, e)
		r.observe(s, "I/O goroutine", e)
		a.registered(s, e)
	}}, conf, nil, nil)
	c.Explore("reading goroutine", read, &funcRule{on: func(s *State, e *Event) {
		crash(s, e)
		r.observe(s, "reading goroutine", e)
	}}, conf, nil, nil)
	c.Explore("goroutine of a subscription", loop, &funcRule{on: func(s *State, e *Event) {
		crash(s, e)
		r.observe(s, "goroutine of a subscription", e)
		if e.Kind == "close" || e.Kind == "send" {
			if b, f := fieldBase(e.Args[0]); b != nil && strings.HasPrefix(f, "stomp.Subscription.") && b != subOf(s, loop) {
				s.ex.Bad(s, "ordered", f+" other", e.Instr, "the goroutine of a subscription uses a channel of another subscription")
			}
			if s.ex.frameChan(e.Args[0]) {
				s.ex.Bad(s, "requests", "subscription "+e.Kind, e.Instr, "the goroutine of a subscription uses the channel, from which it gets its frames, for a %s", e.Kind)
			}
		}
	}}, func(ex *Exec) {
		conf(ex)
		ex.Opts.Once = func(s *State, addr *T) bool {
			return addr.K == KFldAddr && addr.A[0] == subOf(s, loop) && c.onlyBy(addr.S, loop)
		}
	}, nil, nil)
	// each of them is started once for an object
	for _, g := range []*ssa.Function{proc, read, loop} {
		n := 0
		for _, site := range c.p.info.goSites {
			if goTarget(site) != g {
				continue
			}
			n++
			c.Obl("once", c.p.FuncName(g))
			if loops(site.Block()) {
				c.Fail("once", c.p.FuncName(g), c.p.Pos(site.Pos()), "the goroutine %s may be started several times, and closes its channels each time", c.p.FuncName(g))
			}
		}
		if n > 1 {
			c.Fail("once", c.p.FuncName(g)+" sites", c.p.Pos(g.Pos()), "the goroutine %s is started in %d places, and closes its channels each time", c.p.FuncName(g), n)
		}
	}
	r.judge()
	c.NeedObl("ordered", 6)
	c.NeedObl("closed", 4)
	c.NeedObl("requests", 5)
	c.NeedObl("registry", 4)
	c.NeedObl("once", 3)
}

// loops tells whether a block can be executed more than once in a call.
func loops(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			todo = append(todo, x.Succs...)
		}
	}
	return false
}

// forgetOptions ignores what the options of a connection are.
func forgetOptions(cond *T) bool { return forgetOptionsBut()(cond) }

// forgetOptionsBut ignores what the options of a connection are, except for some.
func forgetOptionsBut(kept ...string) func(cond *T) bool {
	return func(cond *T) bool {
		n, others := 0, 0
		leaves(cond, func(x *T) {
			if x.K != KFresh {
				return
			}
			field := strings.TrimPrefix(x.S, "cbw:")
			if i := strings.IndexByte(field, '@'); i >= 0 {
				field = field[:i]
			}
			keep := !strings.HasPrefix(x.S, "cbw:stomp.connOptions")
			for _, k := range kept {
				keep = keep || field == k
			}
			if keep {
				others++
			} else {
				n++
			}
		})
		return n > 0 && others == 0
	}
}

// registered follows the channels that the I/O goroutine keeps in a map: closed ones are not kept.
func (a *api) registered(s *State, e *Event) {
	ex := s.ex
	one := ex.ts.Int(1)
	pending := func(what string) {
		if s.cells["mp.pend"] != nil {
			ex.Bad(s, "registry", "kept", e.Instr, "a channel that has been closed is still registered when the registered channels are %s", what)
		}
	}
	clear := func() {
		for _, k := range []string{"mp.k", "mp.v", "mp.sk", "mp.sv"} {
			delete(s.cells, k)
		}
	}
	switch e.Kind {
	case "select":
		clear()
	case "recv":
		if e.Name == a.writeCh {
			clear()
			s.cells["mp.req"] = e.Res
		}
	case "maplookup":
		if e.Res == nil || !ex.frameChan(e.Res) {
			return
		}
		ex.Obl("registry", "lookup")
		pending("looked up")
		if e.Tag == "absent" {
			return
		}
		s.cells["mp.k"], s.cells["mp.v"] = e.Args[1], e.Res
	case "range":
		if len(e.Args) < 3 || !ex.frameChan(e.Args[2]) && e.Tag != "end" {
			return
		}
		if e.Tag == "end" {
			delete(s.cells, "mp.in")
			return
		}
		ex.Obl("registry", "range")
		if s.cells["mp.in"] == nil {
			pending("gone through")
		}
		s.cells["mp.in"] = one
		s.cells["mp.k"], s.cells["mp.v"] = e.Args[1], e.Args[2]
	case "mapset":
		v := e.Args[2]
		if !ex.frameChan(v) {
			return
		}
		ex.Obl("registry", "register")
		pending("extended")
		if s.closedC[v] {
			ex.Bad(s, "registry", "closed", e.Instr, "a channel is registered after it has been closed")
		}
		req := s.cells["mp.req"]
		ch, fr := a.parts(s, req)
		if ch == nil || s.val(v) != s.val(ch) {
			ex.Bad(s, "registry", "foreign", e.Instr, "a channel is registered that is not that of the request in hand, and so may be registered twice: %s", v)
			return
		}
		if s.isNil(v) != -1 && (fr == nil || s.cmd(fr) != "SUBSCRIBE") {
			ex.Bad(s, "registry", "nil", e.Instr, "a nil channel may be registered, which cannot be closed")
		}
		if s.cells["mp.sv"] == v && s.equals(s.cells["mp.sk"], e.Args[1]) != 1 {
			ex.Bad(s, "registry", "two keys", e.Instr, "a channel is registered under two keys, and may be closed for both")
		}
		s.cells["mp.sk"], s.cells["mp.sv"] = e.Args[1], v
	case "mapdel":
		for _, k := range []string{"mp.k", "mp.sk"} {
			if x := s.cells[k]; x != nil && s.equals(x, e.Args[1]) == 1 {
				delete(s.cells, k)
				delete(s.cells, strings.Replace(k, "k", "v", 1))
			}
		}
		if p := s.cells["mp.pend"]; p != nil && s.equals(p, e.Args[1]) == 1 {
			delete(s.cells, "mp.pend")
		}
	case "close":
		ch := e.Args[0]
		if !ex.frameChan(ch) {
			return
		}
		if _, f := fieldBase(ch); f != "" && strings.HasPrefix(f, "stomp.Conn.") {
			return
		}
		ex.Obl("registry", "close "+ex.where(e.Instr))
		switch {
		case s.cells["mp.v"] == ch:
			s.cells["mp.pend"] = s.cells["mp.k"]
		case s.cells["mp.sv"] == ch:
			s.cells["mp.pend"] = s.cells["mp.sk"]
		}
	case "exit":
		ex.Obl("registry", "exit")
	}
}

// parts are the channel and the frame of a request.
func (a *api) parts(s *State, req *T) (ch, fr *T) {
	if req == nil {
		return nil, nil
	}
	return a.requestChan(s, req), a.requestFrame(s, req)
}

// frameChan tells whether a value is a channel of frames.
func (ex *Exec) frameChan(t *T) bool { return t != nil && t.Typ != nil && ex.isFrameChan(t.Typ) }
