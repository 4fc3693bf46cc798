package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "Lockset, ownership and publication analysis of the client's state: the fields of the library's objects (and its package variables) that are touched on any path of any exported operation, of the I/O goroutine, the reading goroutine and the goroutines of subscriptions are collected with the mutexes held, the atomic operations and sync.Once used, and the channels whose closing orders them; what one goroutine changes after its construction is not touched by another without one of these in common; nothing is set after the goroutine that uses it has been started, and frames and messages are not touched after they were handed over", checkC14)
}

// craces collects which goroutine touches which field of the client's objects.
type craces struct {
	c     *Ctx
	acc   map[string]map[string][]craceAccess
	lates []clate
	sent  map[string]bool // channel fields (and types) with sends
}

type craceAccess struct {
	write bool
	in    ssa.Instruction
	sync  string // what orders it: locks, atomics, sync.Once, channels
}

// clate is an access to an object that its maker makes after having started goroutines.
type clate struct {
	field   string
	write   bool
	in      ssa.Instruction
	sync    string
	started string
}

const confinedTx = "stomp.Transaction." // a transaction belongs to one goroutine of the application

// orders lists what orders the accesses made now.
func (r *craces) orders(s *State, write bool) []string {
	var ls []string
	for _, l := range s.locks {
		n := ""
		switch {
		case l.K == KFldAddr:
			n = l.S
		case l.K == KGlobal:
			n = l.S
		default:
			if _, f, ok := l.FieldOf(); ok {
				n = f
			} else if l.K == KInit && l.A[0].K == KGlobal {
				n = l.A[0].S
			}
		}
		if n == "" || write && s.cells["cr.rlock."+l.String()] != nil {
			continue
		}
		ls = append(ls, "lock "+n)
	}
	for _, f := range s.frames {
		if ci, ok := f.call.(ssa.CallInstruction); ok {
			if cal := ci.Common().StaticCallee(); cal != nil && cal.String() == "(*sync.Once).Do" && len(ci.Common().Args) > 0 {
				if fa, ok := ci.Common().Args[0].(*ssa.FieldAddr); ok {
					ls = append(ls, "once "+r.c.p.fieldName(fa.X.Type(), fa.Field))
				}
			}
		}
	}
	return ls
}

func (r *craces) add(s *State, g, field string, base *T, write bool, in ssa.Instruction, more ...string) {
	if field == "" || !strings.HasPrefix(field, "stomp.") || strings.HasPrefix(field, confinedTx) || strings.HasPrefix(field, "stomp.Message.") {
		return
	}
	ls := append(r.orders(s, write), more...)
	for k, v := range s.cells {
		if base != nil && !write && strings.HasPrefix(k, "cr.after.") && v == base {
			ls = append(ls, strings.TrimPrefix(k, "cr.after."))
		}
	}
	sort.Strings(ls)
	sync := strings.Join(ls, ",")
	root := base
	for root != nil && (root.K == KFldAddr || root.K == KIdxAddr) {
		root = root.A[0]
	}
	if root != nil && root.K == KAlloc {
		st := s.cells["cr.started"]
		if st == nil {
			return // nobody else knows the object
		}
		started, _ := st.Str()
		for _, l := range r.lates {
			if l.field == field && l.write == write && l.sync == sync && l.started == started {
				return
			}
		}
		r.lates = append(r.lates, clate{field, write, in, sync, started})
		return
	}
	r.put(g, field, craceAccess{write, in, sync})
}

func (r *craces) put(g, field string, a craceAccess) {
	if r.acc[field] == nil {
		r.acc[field] = map[string][]craceAccess{}
	}
	for _, x := range r.acc[field][g] {
		if x.write == a.write && x.sync == a.sync {
			return
		}
	}
	r.acc[field][g] = append(r.acc[field][g], a)
	r.c.Obl("synchronised", field+" by "+g)
}

func (r *craces) observe(s *State, g string, e *Event) {
	ex := s.ex
	switch e.Kind {
	case "lock":
		if strings.HasSuffix(e.Name, "RLock") && len(e.Args) > 0 {
			s.cells["cr.rlock."+e.Args[0].String()] = ex.ts.Int(1)
		}
	case "unlock":
		if len(e.Args) > 0 {
			delete(s.cells, "cr.rlock."+e.Args[0].String())
		}
	case "go":
		name := "?"
		if e.Fn != nil {
			name = r.c.p.FuncName(e.Fn)
		}
		if st := s.cells["cr.started"]; st != nil {
			old, _ := st.Str()
			for _, x := range strings.Split(old, ",") {
				if x == name {
					name = ""
				}
			}
			if name != "" {
				name = old + "," + name
			} else {
				name = old
			}
		}
		s.cells["cr.started"] = ex.ts.Str(name)
	case "load":
		if len(e.Args) > 0 {
			r.add(s, g, e.Name, e.Args[0], false, e.Instr)
		}
	case "store":
		if len(e.Args) != 2 || e.Name == "" || len(e.X) == 0 {
			return
		}
		base := e.Args[0]
		if base.K == KAlloc || !strings.HasPrefix(e.Name, "stomp.") || strings.HasPrefix(e.Name, confinedTx) || strings.HasPrefix(e.Name, "stomp.Message.") {
			r.add(s, g, e.Name, base, true, e.Instr)
			return
		}
		// judged at the end: a channel that is closed later may order it
		k := "cr.store." + e.Name + "#" + strings.Join(r.orders(s, true), ",")
		if s.cells[k] == nil {
			s.cells[k] = base
			r.instr(k, e.Instr)
		}
	case "close":
		if b, f, ok := e.Args[0].FieldOf(); ok {
			for k, v := range s.cells {
				if strings.HasPrefix(k, "cr.store.") && v == b {
					s.cells["cr.pub."+strings.TrimPrefix(k, "cr.store.")+"#"+f] = b
				}
			}
		}
	case "recvclosed", "recv":
		if b, f, ok := e.Args[0].FieldOf(); ok && (e.Kind == "recvclosed" || r.neverSent(f, e.Args[0].Typ)) {
			s.cells["cr.after.closed "+f] = b
		}
	case "exit":
		if len(s.frames) > 1 {
			return
		}
		r.flush(s, g)
	case "mapset", "mapdel", "pushback", "pushfront", "listremove", "listinit":
		var b *T
		if len(e.Args) > 0 {
			b, _, _ = e.Args[0].FieldOf()
		}
		r.add(s, g, e.Name, b, true, e.Instr)
	case "atomic":
		if len(e.Args) > 0 {
			if a := e.Args[0]; a.K == KFldAddr {
				r.add(s, g, a.S, a.A[0], !strings.HasPrefix(e.Name, "Load"), e.Instr, "atomic")
			}
		}
	}
}

// neverSent tells whether nothing is ever sent on the channels of a field.
func (r *craces) neverSent(field string, t types.Type) bool {
	if r.sent == nil {
		r.sent = map[string]bool{}
		note := func(ch ssa.Value) {
			if f := r.c.p.loadedField(ch); f != "" {
				r.sent[f] = true
			} else if ct, ok := ch.Type().Underlying().(*types.Chan); ok {
				r.sent["type:"+ct.Elem().String()] = true
			}
		}
		for _, f := range r.c.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Send:
						note(in.Chan)
					case *ssa.Select:
						for _, st := range in.States {
							if st.Dir == types.SendOnly {
								note(st.Chan)
							}
						}
					}
				}
			}
		}
	}
	if t == nil {
		return false
	}
	ct, ok := t.Underlying().(*types.Chan)
	return ok && !r.sent[field] && !r.sent["type:"+ct.Elem().String()]
}

var craceInstr = map[string]ssa.Instruction{}

func (r *craces) instr(k string, in ssa.Instruction) {
	if craceInstr[k] == nil {
		craceInstr[k] = in
	}
}

// flush adds the pending changes.
func (r *craces) flush(s *State, g string) {
	for k := range s.cells {
		if !strings.HasPrefix(k, "cr.store.") {
			continue
		}
		id := strings.TrimPrefix(k, "cr.store.")
		i := strings.Index(id, "#")
		var ls []string
		if id[i+1:] != "" {
			ls = append(ls, strings.Split(id[i+1:], ",")...)
		}
		for p := range s.cells {
			if strings.HasPrefix(p, "cr.pub."+id+"#") {
				ls = append(ls, "closed "+p[strings.LastIndex(p, "#")+1:])
			}
		}
		sort.Strings(ls)
		r.put(g, id[:i], craceAccess{true, craceInstr[k], strings.Join(ls, ",")})
	}
}

func (r *craces) judge(many map[string]bool) {
	for _, f := range sortedKeys(r.acc) {
		gs := sortedKeys(r.acc[f])
		for _, g := range gs {
			for _, a := range r.acc[f][g] {
				if !a.write {
					continue
				}
				for _, h := range gs {
					if h == g && !many[g] {
						continue
					}
					if h == g && strings.HasPrefix(f, "stomp.Subscription.") && g != application {
						continue // each has its own
					}
					for _, b := range r.acc[f][h] {
						if lockedAlike(a.sync, b.sync) {
							continue
						}
						what := "read"
						if b.write {
							what = "changed"
						}
						r.c.Fail("synchronised", f+" "+g+" and "+h, r.c.p.Pos(instrPos(a.in)), "%s is changed by the %s and %s by the %s (%s) without synchronisation", f, g, what, h, r.c.p.Pos(instrPos(b.in)))
					}
				}
			}
		}
	}
	for _, l := range r.lates {
		for _, n := range strings.Split(l.started, ",") {
			r.c.Obl("published", l.field+" "+n)
			for _, b := range r.acc[l.field][n] {
				if (l.write || b.write) && !lockedAlike(l.sync, b.sync) {
					r.c.Fail("published", l.field+" "+n, r.c.p.Pos(instrPos(l.in)), "%s is used by the maker of the object after %s, which uses it as well (%s), has been started", l.field, n, r.c.p.Pos(instrPos(b.in)))
				}
			}
		}
	}
}

const application = "application"

// capturedRaces looks for variables that a goroutine shares with the function that starts it.
func capturedRaces(c *Ctx, rel string) {
	for _, g := range c.p.info.goSites {
		f := g.Parent()
		mc, ok := g.Call.Value.(*ssa.MakeClosure)
		if !ok || f.Package() == nil || c.p.Rel(f.Package().Pkg) != relName(rel) {
			continue
		}
		fn := mc.Fn.(*ssa.Function)
		for i, b := range mc.Bindings {
			al, ok := b.(*ssa.Alloc)
			if !ok || i >= len(fn.FreeVars) {
				continue
			}
			fv := fn.FreeVars[i]
			c.Obl("captured", c.p.FuncName(f)+" "+fv.Name())
			inner := false
			for _, r := range *fv.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == fv {
					inner = true
				}
			}
			for _, r := range *al.Referrers() {
				st, isStore := r.(*ssa.Store)
				isStore = isStore && st.Addr == al
				_, isLoad := r.(*ssa.UnOp)
				if (isStore || isLoad && inner) && unorderedAfter(g, r) {
					c.Fail("captured", c.p.FuncName(f)+" "+fv.Name(), c.p.Pos(instrPos(r)), "the variable %s is used by a goroutine and changed while it runs, without synchronisation", fv.Name())
				}
			}
		}
	}
}

// mixedGlobals looks for package variables that are changed atomically and read otherwise.
func mixedGlobals(c *Ctx, inScope func(rel string) bool) {
	atomics := map[*ssa.Global]bool{}
	each := func(do func(f *ssa.Function, in ssa.Instruction)) {
		for _, f := range c.p.Funcs {
			if f.Package() == nil || !inScope(c.p.Rel(f.Package().Pkg)) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					do(f, in)
				}
			}
		}
	}
	each(func(f *ssa.Function, in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			if cal := ci.Common().StaticCallee(); cal != nil && strings.HasPrefix(cal.String(), "sync/atomic.") && len(ci.Common().Args) > 0 {
				if g, ok := ci.Common().Args[0].(*ssa.Global); ok {
					atomics[g] = true
					c.Obl("globals", g.Name()+" atomic")
				}
			}
		}
	})
	each(func(f *ssa.Function, in ssa.Instruction) {
		if l, ok := in.(*ssa.UnOp); ok {
			if g, ok := l.X.(*ssa.Global); ok && atomics[g] && f.Name() != "init" {
				c.Fail("globals", g.Name()+" atomic", c.p.Pos(instrPos(in)), "the package variable %s is changed atomically, but read otherwise by %s", g.Name(), c.p.FuncName(f))
			}
		}
	})
}

// unorderedAfter tells whether b can run after a without anything in between that may order them.
func unorderedAfter(a, b ssa.Instruction) bool {
	orders := func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.UnOp:
			return in.Op.String() == "<-"
		case *ssa.Select:
			return true
		case ssa.CallInstruction:
			if cal := in.Common().StaticCallee(); cal != nil {
				n := cal.String()
				return strings.HasPrefix(n, "(*sync.") && (strings.HasSuffix(n, "Wait") || strings.HasSuffix(n, "Lock"))
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(bl *ssa.BasicBlock, from int) bool
	walk = func(bl *ssa.BasicBlock, from int) bool {
		for _, in := range bl.Instrs[from:] {
			if in == b {
				return true
			}
			if orders(in) {
				return false
			}
		}
		for _, n := range bl.Succs {
			if !seen[n] {
				seen[n] = true
				if walk(n, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range a.Block().Instrs {
		if in == a {
			return walk(a.Block(), i+1)
		}
	}
	return false
}

func checkC14(c *Ctx) {
	a := newAPI(c)
	if !a.ok() {
		return
	}
	craceInstr = map[string]ssa.Instruction{}
	r := &craces{c: c, acc: map[string]map[string][]craceAccess{}}
	isGone := func(s *State, t *T) bool {
		if g := s.cells["~gone"]; g != nil && t != nil {
			for _, x := range g.A {
				if x == t && !x.HasSum() {
					return true
				}
			}
		}
		return false
	}
	gone := func(s *State, t *T) {
		if t == nil || t.HasSum() || t.IsNil() || isGone(s, t) {
			return
		}
		var l []*T
		if g := s.cells["~gone"]; g != nil {
			for _, x := range g.A {
				if !x.HasSum() {
					l = append(l, x)
				}
			}
		}
		s.cells["~gone"] = s.ex.ts.Tuple(append(l, t)...)
	}
	frameType := types.NewPointer(c.p.NamedType("frame", "Frame"))
	msgType := types.NewPointer(c.p.NamedType("", "Message"))
	isT := func(t *T, ty types.Type) bool { return t != nil && t.Typ != nil && types.Identical(t.Typ, ty) }
	use := func(s *State, e *Event, t *T, what, g string) {
		c.Obl("handed-over", what+" by "+g)
		if isGone(s, t) {
			s.ex.Bad(s, "handed-over", what+" by "+g, e.Instr, "the %s touches a %s that it has handed on", g, what)
		}
	}
	handle := func(g string) func(s *State, e *Event) {
		return func(s *State, e *Event) {
			r.observe(s, g, e)
			switch e.Kind {
			case "store":
				if len(e.Args) < 2 || e.Name == "" {
					return
				}
				if strings.HasPrefix(e.Name, "frame.Frame.") {
					use(s, e, e.Args[0], "frame", g)
				}
				if strings.HasPrefix(e.Name, "stomp.Message.") {
					use(s, e, e.Args[0], "message", g)
				}
			case "hdrget", "hdrset", "hdradd", "hdrdel", "hdraddall":
				if len(e.Args) == 0 {
					return
				}
				if b, f, ok := e.Args[0].FieldOf(); ok && f == "frame.Frame.Header" {
					use(s, e, b, "frame", g)
				} else if l := s.cells["~gone"]; l != nil {
					for _, x := range l.A {
						if (x.K == KAlloc || isT(x, frameType)) && s.hdrOf(x) == e.Args[0] {
							use(s, e, x, "frame", g)
						}
					}
				}
			case "clone", "write":
				for _, x := range e.Args {
					if isT(x, frameType) {
						use(s, e, x, "frame", g)
					}
				}
			case "send":
				x := e.Args[1]
				for _, fr := range a.sent(s, e) {
					use(s, e, fr, "frame", g)
					gone(s, fr)
				}
				if e.Args[0].Typ == nil {
					return
				}
				switch ct, ok := e.Args[0].Typ.Underlying().(*types.Chan); {
				case !ok:
				case types.Identical(ct.Elem(), frameType) && g != application, types.Identical(ct.Elem(), msgType):
					gone(s, x)
				}
			}
		}
	}
	loads := func(ex *Exec) { ex.Opts.Loads = true }
	many := map[string]bool{application: true}
	n := 0
	apps := c.exportedMethods("Conn", "Subscription", "Transaction", "Message")
	for _, f := range c.p.Funcs {
		if f.Package() == nil || c.p.Rel(f.Package().Pkg) != "stomp" || f.Parent() != nil || f.Signature.Recv() != nil || !isExportedName(f.Name()) || len(f.Blocks) == 0 {
			continue
		}
		apps = append(apps, f)
	}
	for _, f := range apps {
		n++
		c.Explore(c.p.FuncName(f), f, &funcRule{on: handle(application)}, loads, nil, nil)
	}
	c.Need("exported operations", n, 25)
	es := c.entries("")
	for _, f := range es {
		g := c.p.FuncName(f)
		if f == c.subscriptionLoop() {
			many[g] = true
		}
		c.Explore(g, f, &funcRule{on: handle(g)}, loads, nil, nil)
	}
	c.Need("goroutines of the client", len(es), 3)
	r.judge(many)
	capturedRaces(c, "")
	mixedGlobals(c, func(rel string) bool { return rel == "stomp" || rel == "frame" })
	globalWrites(c, func(rel string) bool { return rel == "stomp" || rel == "frame" })
	c.NeedObl("synchronised", 30)
	c.NeedObl("handed-over", 3)
}

func isExportedName(n string) bool { return n != "" && n[0] >= 'A' && n[0] <= 'Z' }
