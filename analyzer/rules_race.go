package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("B16", "Ownership and confinement analysis of the broker's goroutines: the fields touched on any path of the read loop, the connection's goroutine, the dispatcher and the accept loop are collected with the locks held, and one that a goroutine changes after the others are running is touched by that goroutine only (or under a common lock); subscriptions and frames, which are handed over, are touched only by a goroutine that has just made them, received them or keeps them in its own list, and never after they were handed on; no package variable is changed after initialisation", checkB16)
}

type raceAccess struct {
	write bool
	in    ssa.Instruction
	locks string
	what  string
}

// races collects which goroutine touches which field.
type races struct {
	c    *Ctx
	acc  map[string]map[string][]raceAccess // field -> goroutine -> accesses
	skip func(field string) bool            // handed over: judged by ownership
}

func (r *races) add(s *State, g, field string, write bool, in ssa.Instruction) {
	if field == "" || r.skip(field) || !strings.HasPrefix(field, "server") && !strings.HasPrefix(field, "stomp.") {
		return
	}
	var ls []string
	for _, l := range s.locks {
		if l.K == KFldAddr {
			ls = append(ls, l.S)
		} else if l.K == KGlobal {
			ls = append(ls, l.S)
		}
	}
	sort.Strings(ls)
	a := raceAccess{write, in, strings.Join(ls, ","), ""}
	if r.acc[field] == nil {
		r.acc[field] = map[string][]raceAccess{}
	}
	for _, x := range r.acc[field][g] {
		if x.write == a.write && x.locks == a.locks {
			return
		}
	}
	r.acc[field][g] = append(r.acc[field][g], a)
	r.c.Obl("confined", field+" by "+g)
}

// observe records the accesses that an event makes.
func (r *races) observe(s *State, g string, e *Event) {
	switch e.Kind {
	case "load":
		if !r.private(s, e.Args[0]) {
			r.add(s, g, e.Name, false, e.Instr)
		}
	case "store":
		if len(e.Args) == 2 && e.Name != "" && len(e.X) > 0 && !r.private(s, e.Args[0]) {
			r.add(s, g, e.Name, true, e.Instr)
		}
	case "mapset", "mapdel", "pushback", "pushfront", "listremove", "listinit":
		r.add(s, g, e.Name, true, e.Instr)
	}
}

// private tells whether an object was made on this path and no goroutine was started since.
func (r *races) private(s *State, base *T) bool {
	for base.K == KFldAddr || base.K == KIdxAddr {
		base = base.A[0]
	}
	return base.K == KAlloc && s.cells["rc.go"] == nil
}

func lockedAlike(a, b string) bool {
	for _, x := range strings.Split(a, ",") {
		for _, y := range strings.Split(b, ",") {
			if x != "" && x == y {
				return true
			}
		}
	}
	return false
}

// judge reports fields that several goroutines touch without synchronisation. many lists the
// goroutines of which there are several that share objects.
func (r *races) judge(many map[string]bool) {
	for _, f := range sortedKeys(r.acc) {
		gs := sortedKeys(r.acc[f])
		for _, g := range gs {
			for _, a := range r.acc[f][g] {
				if !a.write {
					continue
				}
				for _, h := range gs {
					if h == g && !many[g] {
						continue
					}
					for _, b := range r.acc[f][h] {
						if lockedAlike(a.locks, b.locks) {
							continue
						}
						what := "read"
						if b.write {
							what = "changed"
						}
						r.c.Fail("confined", f+" "+g+" and "+h, r.c.p.Pos(instrPos(a.in)), "%s is changed by the %s and %s by the %s (%s) without synchronisation", f, g, what, h, r.c.p.Pos(instrPos(b.in)))
					}
				}
			}
		}
	}
}

// globals reports package variables that are changed after initialisation.
func globalWrites(c *Ctx, inScope func(rel string) bool) {
	n := 0
	var root func(v ssa.Value, depth int) *ssa.Global
	root = func(v ssa.Value, depth int) *ssa.Global {
		if depth > 8 {
			return nil
		}
		switch v := v.(type) {
		case *ssa.Global:
			return v
		case *ssa.FieldAddr:
			return root(v.X, depth+1)
		case *ssa.IndexAddr:
			return root(v.X, depth+1)
		case *ssa.UnOp:
			return root(v.X, depth+1)
		case *ssa.Slice:
			return root(v.X, depth+1)
		}
		return nil
	}
	for _, f := range c.p.Funcs {
		if f.Package() == nil || !inScope(c.p.Rel(f.Package().Pkg)) || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		locked := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil && strings.HasPrefix(cal.String(), "(*sync.") && strings.HasSuffix(cal.Name(), "Lock") && len(ci.Common().Args) > 0 {
						if root(ci.Common().Args[0], 0) != nil {
							locked = true
						}
					}
				}
				var g *ssa.Global
				switch in := in.(type) {
				case *ssa.Store:
					g = root(in.Addr, 0)
				case *ssa.MapUpdate:
					g = root(in.Map, 0)
				}
				n++
				if g == nil || g.Pkg == nil || !inScope(c.p.Rel(g.Pkg.Pkg)) {
					continue
				}
				c.Obl("globals", g.String())
				if !locked {
					c.Fail("globals", g.Name(), c.p.Pos(instrPos(in)), "the package variable %s is changed by %s, which several goroutines may run", g.Name(), c.p.FuncName(f))
				}
			}
		}
	}
	c.Obl("globals", "instructions")
	c.Need("instructions examined for changes of package variables", n, 500)
}

func checkB16(c *Ctx) {
	v := newSrv(c)
	if !v.ok() {
		return
	}
	handed := func(f string) bool {
		i := strings.LastIndex(f, ".")
		switch f[:i] {
		case "server/client.Subscription", "server/client.SubscriptionList", "server/client.Request", "frame.Frame", "frame.Header":
			return true
		}
		return strings.HasPrefix(f, "container/list.")
	}
	r := &races{c: c, acc: map[string]map[string][]raceAccess{}, skip: handed}
	mutable := map[string]bool{v.subFrame: true, v.subMsg: true, v.subList: true}
	// fields of subscriptions that are set only when they are made
	gone := func(s *State, t *T) {
		if t == nil || t.HasSum() || t.IsNil() {
			return
		}
		var l []*T
		if g := s.cells["~gone"]; g != nil {
			for _, x := range g.A {
				if x == t {
					return
				}
				if !x.HasSum() {
					l = append(l, x)
				}
			}
		}
		s.cells["~gone"] = s.ex.ts.Tuple(append(l, t)...)
	}
	isGone := func(s *State, t *T) bool {
		if g := s.cells["~gone"]; g != nil && t != nil {
			for _, x := range g.A {
				if x == t && !x.HasSum() {
					return true
				}
			}
		}
		return false
	}
	back := func(s *State, t *T) {
		if g := s.cells["~gone"]; g != nil && isGone(s, t) {
			var l []*T
			for _, x := range g.A {
				if x != t {
					l = append(l, x)
				}
			}
			s.cells["~gone"] = s.ex.ts.Tuple(l...)
		}
	}
	// listOf tells whose list a value was taken from.
	mine := func(s *State, t *T, inProc bool) bool {
		if t.K == KAlloc || t.HasSum() {
			return true
		}
		if v.isElem(s, t) {
			return true
		}
		if t.K == KFresh && strings.HasPrefix(t.S, "recv@") {
			return true
		}
		if _, f, ok := t.FieldOf(); ok && strings.HasSuffix(f, "client.Request.Sub") {
			if d := s.cells["d.Op"]; d != nil {
				k, _ := s.val(d).Int()
				return k == v.ops["SubscribeOp"]
			}
		}
		return false
	}
	owned := func(s *State, t *T, inProc bool) bool {
		if mine(s, t, inProc) {
			return true
		}
		for b, val := range s.bools {
			if val && b.IsApp("==") {
				if b.A[0] == t && mine(s, b.A[1], inProc) && !isGone(s, b.A[1]) || b.A[1] == t && mine(s, b.A[0], inProc) && !isGone(s, b.A[0]) {
					return true
				}
			}
		}
		return false
	}
	use := func(s *State, e *Event, t *T, what string, g string) {
		c.Obl("handed-over", what+" by "+g)
		if isGone(s, t) {
			s.ex.Bad(s, "handed-over", what+" by "+g, e.Instr, "the %s touches a %s that it has handed on: %s", g, what, t)
		}
	}
	subType := types.NewPointer(c.p.NamedType("server/client", "Subscription"))
	frameType := types.NewPointer(c.p.NamedType("frame", "Frame"))
	isT := func(t *T, ty types.Type) bool { return t != nil && t.Typ != nil && types.Identical(t.Typ, ty) }
	frameOfHdr := func(s *State, h *T) *T {
		if b, f, ok := h.FieldOf(); ok && f == "frame.Frame.Header" {
			return b
		}
		for _, x := range func() []*T {
			if g := s.cells["~gone"]; g != nil {
				return g.A
			}
			return nil
		}() {
			if isT(x, frameType) && s.hdrOf(x) == h {
				return x
			}
		}
		return nil
	}
	handle := func(g string) func(s *State, e *Event) {
		inProc := g == "connection's goroutine"
		return func(s *State, e *Event) {
			ex := s.ex
			r.observe(s, g, e)
			switch e.Kind {
			case "load", "store":
				if len(e.Args) < 2 || e.Name == "" {
					return
				}
				base := e.Args[0]
				if isT(base, frameType) || strings.HasPrefix(e.Name, "frame.Frame.") {
					use(s, e, base, "frame", g)
				}
				if !strings.HasPrefix(e.Name, "server/client.Subscription.") {
					return
				}
				if e.Kind == "store" && base.K == KAlloc && !isGone(s, base) {
					return
				}
				if e.Kind == "store" && !mutable[e.Name] {
					ex.Bad(s, "handed-over", e.Name, e.Instr, "%s, which other goroutines read, is changed after the subscription was made", e.Name)
				}
				if mutable[e.Name] {
					use(s, e, base, "subscription", g)
					if !owned(s, base, inProc) {
						ex.Bad(s, "handed-over", "foreign "+e.Name, e.Instr, "the %s touches %s of a subscription that another goroutine may be using", g, e.Name)
					}
				}
			case "hdrget", "hdrset", "hdradd", "hdrdel", "hdraddall":
				if len(e.Args) > 0 {
					if f := frameOfHdr(s, e.Args[0]); f != nil {
						use(s, e, f, "frame", g)
					}
				}
			case "clone", "write":
				for _, a := range e.Args {
					if isT(a, frameType) {
						use(s, e, a, "frame", g)
					}
				}
			case "pushback", "pushfront", "listremove", "listinit", "listlen", "listfront", "listback":
				if e.Name != v.listField || len(e.Args) == 0 {
					return
				}
				if b, _, ok := e.Args[0].FieldOf(); ok {
					_, f, _ := b.FieldOf()
					c.Obl("handed-over", "list "+f+" by "+g)
					switch {
					case f == v.subList:
						ex.Bad(s, "handed-over", "list", e.Instr, "the %s uses the list that a subscription happens to be in, which may be that of another goroutine", g)
					case inProc != strings.HasPrefix(f, "server/client.Conn.") && f != "":
						ex.Bad(s, "handed-over", "list "+f, e.Instr, "the %s uses a list of subscriptions (%s) that belongs to another goroutine", g, f)
					}
				}
			case "recv":
				back(s, e.Res)
			case "send":
				x := e.Args[1]
				switch {
				case e.Name == v.reqCh || isRequestChan(e.Args[0]):
					switch v.reqOp(s, x) {
					case "SubscribeOp":
						sub := c.p.structField(x, "Sub")
						use(s, e, sub, "subscription", g)
						gone(s, sub)
					case "EnqueueOp", "RequeueOp":
						f := c.p.structField(x, "Frame")
						use(s, e, f, "frame", g)
						gone(s, f)
					}
				case isT(x, subType):
					use(s, e, x, "subscription", g)
					gone(s, s.peek(x, v.subFrame))
					gone(s, x)
				case isT(x, frameType):
					use(s, e, x, "frame", g)
					gone(s, x)
				}
			case "go":
				s.cells["rc.go"] = ex.ts.Int(1)
			}
		}
	}
	loads := func(ex *Exec) { ex.Opts.Loads = true }

	// the constructor: nothing is changed that a started goroutine may use
	type late struct {
		field string
		in    ssa.Instruction
	}
	var lates []late
	ctor := func(s *State, e *Event) {
		switch e.Kind {
		case "go":
			s.cells["rc.go"] = s.ex.ts.Int(1)
		case "store":
			if s.cells["rc.go"] != nil && strings.HasPrefix(e.Name, "server/client.Conn.") {
				lates = append(lates, late{e.Name, e.Instr})
			}
		}
	}
	v.readNil = false
	rd := handle("read loop")
	v.c.Explore("server read loop", v.ctor, &funcRule{on: func(s *State, e *Event) {
		if len(s.frames) > 0 && s.frames[0].fn == v.read {
			s.cells["rc.go"] = s.ex.ts.Int(1)
			rd(s, e)
			if e.Kind == "send" && e.Name == v.readCh && s.isNil(e.Args[1]) != -1 {
				v.readNil = true
			}
			return
		}
		ctor(s, e)
	}}, func(ex *Exec) {
		ex.Opts.Loads = true
		ex.Opts.FollowGo = func(f *ssa.Function) bool { return f == v.read }
	}, nil, nil)
	pr := handle("connection's goroutine")
	y := &cycle{v: v}
	y.on = func(s *State, e *Event) {
		s.cells["rc.go"] = s.ex.ts.Int(1)
		pr(s, e)
	}
	y.explore("connection goroutine", loads)
	di := handle("dispatcher")
	d := &dcycle{v: v}
	v.dispatcher("dispatcher", &funcRule{on: func(s *State, e *Event) {
		d.On(s, e)
		if s.cells["rc.go"] == nil && e.Kind != "go" {
			return // nobody else is running
		}
		di(s, e)
	}}, func(ex *Exec) {
		v.opaqueStorage(ex)
		ex.Opts.Loads = true
	})
	for _, f := range c.entries("server") {
		al := handle("accept loop")
		c.Explore("accept loop", f, &funcRule{on: al}, func(ex *Exec) {
			ex.Opts.Loads = true
			ex.Opts.NoInline = func(g *ssa.Function) bool { return g.Package() != f.Package() }
		}, nil, nil)
	}
	// what connections ask the server for
	n := 0
	if it := c.p.NamedType("server/client", "Config"); it != nil {
		iface, _ := it.Underlying().(*types.Interface)
		sc := c.p.Pkgs["server"].Pkg.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || iface == nil || types.IsInterface(tn.Type()) || !types.Implements(types.NewPointer(tn.Type()), iface) {
				continue
			}
			ms := c.p.Prog.MethodSets.MethodSet(types.NewPointer(tn.Type()))
			for i := 0; i < iface.NumMethods(); i++ {
				sel := ms.Lookup(tn.Pkg(), iface.Method(i).Name())
				if sel == nil {
					continue
				}
				f := c.p.Prog.FuncValue(sel.Obj().(*types.Func))
				if f == nil || len(f.Blocks) == 0 {
					continue
				}
				n++
				cf := handle("connections' configuration")
				c.Explore("configuration "+f.Name(), f, &funcRule{on: func(s *State, e *Event) {
					s.cells["rc.go"] = s.ex.ts.Int(1)
					cf(s, e)
				}}, loads, nil, nil)
			}
		}
	}
	c.Need("methods by which connections ask the server", n, 3)
	for _, l := range lates {
		if len(r.acc[l.field]) > 0 {
			c.Fail("confined", l.field+" constructor", c.p.Pos(instrPos(l.in)), "%s is set after a goroutine that uses it has been started", l.field)
		}
	}
	r.judge(map[string]bool{"connections' configuration": true})
	globalWrites(c, func(rel string) bool { return rel == "frame" || strings.HasPrefix(rel, "server") })
	c.NeedObl("confined", 15)
	c.NeedObl("handed-over", 5)
}
