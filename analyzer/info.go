package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modInfo holds whole-module facts computed once from the SSA.
type modInfo struct {
	p           *Program
	goEntries   []*ssa.Function                         // functions started as goroutines
	goSites     []*ssa.Go                               //
	callers     map[*ssa.Function][]ssa.CallInstruction // static call sites (incl. go and defer)
	addrTaken   map[*ssa.Function]bool                  // used as a value
	fieldFuncs  map[string][]*ssa.Function              // functions stored in a func-typed field
	fieldSeeds  map[string]bool                         // field also stores unknown functions
	closedField map[string]bool                         // channel fields passed to close (directly)
	edges       map[*ssa.Function][]*ssa.Function
	accesses    map[string][]fieldAccess
	fieldType   map[string]types.Type
	immutable   map[string]bool
	confined    map[string]*ssa.Function // field -> the only goroutine entry accessing it
	liveCache   map[*ssa.Function]*liveInfo
	nonnilGlob  map[*ssa.Global]bool
	globInit    map[*ssa.Global]ssa.Value
	counters    map[string]bool // fields that are counted up or down
	reachCache  map[*ssa.Function]map[*ssa.Function]bool
}

type fieldAccess struct {
	fn    *ssa.Function
	instr ssa.Instruction
	fa    *ssa.FieldAddr
	write bool
	atom  bool // via sync/atomic
	ctor  bool // on an object that is not published yet
}

// fieldName names a struct field: "rel.Type.field".
func (p *Program) fieldName(st types.Type, i int) string {
	s := deref(st)
	if n, ok := s.(*types.Named); ok {
		if u, ok := n.Underlying().(*types.Struct); ok {
			return p.Rel(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + u.Field(i).Name()
		}
	}
	if u, ok := s.Underlying().(*types.Struct); ok {
		if o, ok := p.fieldOwner[u.Field(i)]; ok {
			return o
		}
		return "anon." + u.Field(i).Name()
	}
	return "?"
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (p *Program) analyseModule() *modInfo {
	m := &modInfo{p: p, callers: map[*ssa.Function][]ssa.CallInstruction{}, addrTaken: map[*ssa.Function]bool{},
		fieldFuncs: map[string][]*ssa.Function{}, fieldSeeds: map[string]bool{}, closedField: map[string]bool{},
		edges: map[*ssa.Function][]*ssa.Function{}, accesses: map[string][]fieldAccess{}, fieldType: map[string]types.Type{},
		immutable: map[string]bool{}, confined: map[string]*ssa.Function{}, liveCache: map[*ssa.Function]*liveInfo{},
		nonnilGlob: map[*ssa.Global]bool{}, globInit: map[*ssa.Global]ssa.Value{}, reachCache: map[*ssa.Function]map[*ssa.Function]bool{}, counters: map[string]bool{}}
	addEdge := func(a, b *ssa.Function) {
		if b != nil && p.Own(b) && len(b.Blocks) > 0 {
			m.edges[a] = append(m.edges[a], b)
		}
	}
	globStores := map[*ssa.Global]int{}
	tables := p.funcTables()
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callVal ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					c := ci.Common()
					_, isGo := in.(*ssa.Go)
					if !c.IsInvoke() {
						callVal = c.Value
					}
					if cal := c.StaticCallee(); cal != nil {
						m.callers[cal] = append(m.callers[cal], ci)
						if isGo {
							m.goSites = append(m.goSites, in.(*ssa.Go))
							m.addEntry(cal)
						} else {
							addEdge(f, cal)
						}
					} else if c.IsInvoke() {
						for _, impl := range m.implementations(c) {
							addEdge(f, impl)
						}
					} else {
						if isGo {
							m.goSites = append(m.goSites, in.(*ssa.Go))
						}
					}
					if bi, ok := c.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						if fn := p.loadedField(c.Args[0]); fn != "" {
							m.closedField[fn] = true
						} else {
							m.closedField["type:"+c.Args[0].Type().Underlying().String()] = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok && *op != callVal {
						m.addrTaken[fn] = true
						addEdge(f, fn)
					}
					if g, ok := (*op).(*ssa.Global); ok {
						for _, fn := range tables[g] {
							addEdge(f, fn)
						}
					}
				}
				switch in := in.(type) {
				case *ssa.MakeClosure:
					fn := in.Fn.(*ssa.Function)
					onlyGo := true
					for _, r := range *in.Referrers() {
						if g, ok := r.(*ssa.Go); !ok || g.Call.Value != in {
							onlyGo = false
						}
					}
					if !onlyGo {
						addEdge(f, fn)
					}
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						name := p.fieldName(fa.X.Type(), fa.Field)
						if bo, ok := in.Val.(*ssa.BinOp); ok && (p.loadedField(bo.X) == name || p.loadedField(bo.Y) == name) {
							m.counters[name] = true
						}
						if _, isFn := in.Val.Type().Underlying().(*types.Signature); isFn {
							switch v := in.Val.(type) {
							case *ssa.Function:
								m.fieldFuncs[name] = appendFn(m.fieldFuncs[name], v)
							case *ssa.MakeClosure:
								m.fieldFuncs[name] = appendFn(m.fieldFuncs[name], v.Fn.(*ssa.Function))
							default:
								m.fieldSeeds[name] = true
							}
						}
					}
					if g, ok := in.Addr.(*ssa.Global); ok {
						globStores[g]++
						m.globInit[g] = in.Val
						if f.Name() != "init" || f.Synthetic == "" && f.Parent() == nil && !strings.HasPrefix(f.Name(), "init") {
							globStores[g] += 100
						}
					}
				case *ssa.FieldAddr:
					m.recordAccess(f, in)
				}
			}
		}
	}
	for g, n := range globStores {
		if n != 1 {
			delete(m.globInit, g)
			continue
		}
		v := m.globInit[g]
		switch v := v.(type) {
		case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.Slice, *ssa.Function, *ssa.MakeClosure:
			m.nonnilGlob[g] = true
		case *ssa.Call:
			if c := v.Call.StaticCallee(); c != nil {
				switch c.String() {
				case "errors.New", "fmt.Errorf", "regexp.MustCompile", "strings.NewReplacer":
					m.nonnilGlob[g] = true
				}
			}
		}
	}
	sort.Slice(m.goEntries, func(i, j int) bool { return m.goEntries[i].Pos() < m.goEntries[j].Pos() })
	// field classes
	for name, acc := range m.accesses {
		writes := 0
		roots := map[*ssa.Function]bool{}
		api := false
		for i := range acc {
			a := &acc[i]
			a.ctor = m.isCtorAccess(a)
			if a.ctor {
				continue
			}
			if a.write {
				writes++
			}
			rs, ap := m.rootsOf(a.fn)
			for r := range rs {
				roots[r] = true
			}
			api = api || ap
		}
		if writes == 0 {
			m.immutable[name] = true
		} else if !api && len(roots) == 1 {
			for r := range roots {
				m.confined[name] = r
			}
		}
	}
	return m
}

func appendFn(a []*ssa.Function, f *ssa.Function) []*ssa.Function {
	for _, x := range a {
		if x == f {
			return a
		}
	}
	return append(a, f)
}

func (m *modInfo) addEntry(f *ssa.Function) { m.goEntries = appendFn(m.goEntries, f) }

// loadedField returns the field a value was loaded from, if that is syntactically evident.
func (p *Program) loadedField(v ssa.Value) string {
	for i := 0; i < 5; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return ""
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return p.fieldName(fa.X.Type(), fa.Field)
			}
			return ""
		case *ssa.Field:
			return p.fieldName(x.X.Type(), x.Field)
		case *ssa.ChangeType:
			v = x.X
		default:
			return ""
		}
	}
	return ""
}

// implementations resolves an interface call to the methods of the module's own types.
func (m *modInfo) implementations(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	var rels []string
	for rel := range m.p.Pkgs {
		rels = append(rels, rel)
	}
	sort.Strings(rels)
	for _, rel := range rels {
		sc := m.p.Pkgs[rel].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(t, it) {
					sel := m.p.Prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name())
					if sel != nil {
						if f := m.p.Prog.FuncValue(sel.Obj().(*types.Func)); f != nil {
							out = appendFn(out, f)
						}
					}
					break
				}
			}
		}
	}
	return out
}

func (m *modInfo) recordAccess(f *ssa.Function, fa *ssa.FieldAddr) {
	name := m.p.fieldName(fa.X.Type(), fa.Field)
	m.fieldType[name] = deref(fa.Type())
	for _, r := range *fa.Referrers() {
		a := fieldAccess{fn: f, instr: r, fa: fa}
		switch r := r.(type) {
		case *ssa.Store:
			a.write = r.Addr == fa
		case *ssa.UnOp:
		case ssa.CallInstruction:
			if cal := r.Common().StaticCallee(); cal != nil && cal.Pkg != nil && cal.Pkg.Pkg.Path() == "sync/atomic" {
				a.atom = true
				a.write = !strings.HasPrefix(cal.Name(), "Load")
			} else {
				// address passed to a method of the field's type (for example sync.Once.Do)
				a.atom = true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			// nested: recorded for the inner field; the container is only read
		case *ssa.DebugRef:
			continue
		default:
			a.write = true
		}
		m.accesses[name] = append(m.accesses[name], a)
	}
}

// isCtorAccess reports whether the access is on an object that was allocated
// by the current constructor and is not yet visible to other goroutines.
func (m *modInfo) isCtorAccess(a *fieldAccess) bool {
	return m.ctorBase(a.fa.X, a.instr, 0)
}

func (m *modInfo) ctorBase(x ssa.Value, at ssa.Instruction, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := x.(type) {
	case *ssa.Alloc:
		return !goBefore(at, x)
	case *ssa.Parameter:
		f := x.Parent()
		if m.addrTaken[f] || m.p.isAPI(f) || f.Parent() != nil {
			return false
		}
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		cs := m.callers[f]
		if len(cs) == 0 || goBefore(at, x) {
			return false
		}
		for _, c := range cs {
			if _, isGo := c.(*ssa.Go); isGo {
				return false
			}
			if c.Parent() == f || idx >= len(c.Common().Args) || !m.ctorBase(c.Common().Args[idx], c, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		// result of a constructor function that returns its allocation
		if cal := x.Call.StaticCallee(); cal != nil && m.p.Own(cal) && strings.HasPrefix(strings.ToLower(cal.Name()), "new") {
			return !goBefore(at, x) && !hasGo(cal)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != x && !m.ctorBase(e, at, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func hasGo(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				return true
			}
		}
	}
	return false
}

// goBefore reports whether, in the function of at, a go statement, a channel
// send or a store of the object into another object can execute before at.
func goBefore(at ssa.Instruction, obj ssa.Value) bool {
	f := at.Parent()
	publishes := func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Go:
			return true
		case *ssa.Send:
			return in.X == obj
		}
		return false
	}
	// walk backwards from at
	blk := at.Block()
	for _, in := range blk.Instrs {
		if in == at {
			break
		}
		if publishes(in) {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if publishes(in) {
				return true
			}
		}
		for _, p := range b.Preds {
			if walk(p) {
				return true
			}
		}
		return false
	}
	for _, p := range blk.Preds {
		if walk(p) {
			return true
		}
	}
	_ = f
	return false
}

// isAPI reports whether the function can be called by users of the module.
func (p *Program) isAPI(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		n, ok := deref(r.Type()).(*types.Named)
		return ok && n.Obj().Exported()
	}
	return true
}

// Reach is the set of functions reachable from f in the same goroutine.
func (m *modInfo) Reach(f *ssa.Function) map[*ssa.Function]bool {
	if r, ok := m.reachCache[f]; ok {
		return r
	}
	r := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if r[g] {
			return
		}
		r[g] = true
		for _, h := range m.edges[g] {
			walk(h)
		}
	}
	walk(f)
	m.reachCache[f] = r
	return r
}

// rootsOf lists the goroutine entries that reach f, and whether user code can reach it.
func (m *modInfo) rootsOf(f *ssa.Function) (map[*ssa.Function]bool, bool) {
	out := map[*ssa.Function]bool{}
	for _, e := range m.goEntries {
		if m.Reach(e)[f] {
			out[e] = true
		}
	}
	api := false
	for _, g := range m.p.Funcs {
		if (m.p.isAPI(g) || g.Name() == "init" || g.Name() == "main") && m.Reach(g)[f] {
			api = true
			break
		}
	}
	return out, api
}

// liveInfo: SSA values live at the entry of each block, and the last use inside blocks.
type liveInfo struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
	// loop headers and the phis that grow arithmetically around their loop
	header map[*ssa.BasicBlock]bool
	grows  map[*ssa.Phi]bool
	back   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> predecessors via back edges
	few    map[*ssa.BasicBlock]bool                     // headers of loops that run a small constant number of times
}

func (m *modInfo) live(f *ssa.Function) *liveInfo {
	if l, ok := m.liveCache[f]; ok {
		return l
	}
	l := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, header: map[*ssa.BasicBlock]bool{}, grows: map[*ssa.Phi]bool{}, back: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, few: map[*ssa.BasicBlock]bool{}}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for _, b := range f.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s] {
					cur[v] = true
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, phi)
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b && track(phi.Edges[k]) {
							cur[phi.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if phi, ok := in.(*ssa.Phi); ok {
					_ = phi
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && track(*op) {
						cur[*op] = true
					}
				}
			}
			// phis are defined at the entry: they stay live-in if used
			for v := range cur {
				if !l.in[b][v] {
					l.in[b][v] = true
					changed = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l.header[s] = true
				if l.back[s] == nil {
					l.back[s] = map[*ssa.BasicBlock]bool{}
				}
				l.back[s][b] = true
			}
		}
	}
	for h := range l.header {
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if growsAround(phi) {
				if m.boundedBy(phi, h, 8) {
					l.few[h] = true
				} else {
					l.grows[phi] = true
				}
			}
		}
	}
	m.liveCache[f] = l
	return l
}

// boundedBy reports whether phi is the counter of a loop that runs a small constant number of times.
func (m *modInfo) boundedBy(phi *ssa.Phi, b *ssa.BasicBlock, max int64) bool {
	step := func(v ssa.Value) bool {
		if v == phi {
			return true
		}
		o, ok := v.(*ssa.BinOp)
		if !ok || o.Op != token.ADD || o.X != phi {
			return false
		}
		k, ok := o.Y.(*ssa.Const)
		return ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == 1
	}
	for i, e := range phi.Edges {
		if b.Dominates(b.Preds[i]) {
			if e == phi || !step(e) {
				return false
			}
		} else if k, ok := e.(*ssa.Const); !ok || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() < -1 {
			return false
		}
	}
	in, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := in.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS || !step(c.X) {
		return false
	}
	switch n := c.Y.(type) {
	case *ssa.Const:
		return n.Value != nil && n.Value.Kind() == constant.Int && n.Int64() <= max
	case *ssa.Call:
		if f, ok := n.Call.Value.(*ssa.Builtin); ok && f.Name() == "len" {
			if ld, ok := n.Call.Args[0].(*ssa.UnOp); ok {
				if g, ok := ld.X.(*ssa.Global); ok {
					l, _ := sliceConsts(m.globInit[g])
					return l != nil && len(l) <= 32
				}
			}
			if sl, ok := n.Call.Args[0].(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					arr, ok := deref(al.Type()).Underlying().(*types.Array)
					return ok && arr.Len() <= max
				}
			}
		}
	}
	return false
}

// growsAround reports whether phi depends on itself through an operation that
// builds ever new values (arithmetic, append, list stepping).
func growsAround(phi *ssa.Phi) bool {
	seen := map[ssa.Value]int{}
	var dep func(v ssa.Value, op bool) bool
	dep = func(v ssa.Value, op bool) bool {
		if v == phi && op {
			return true
		}
		key := 1
		if op {
			key = 2
		}
		if seen[v]&key != 0 {
			return false
		}
		seen[v] |= key
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if dep(e, op) {
					return true
				}
			}
		case *ssa.BinOp:
			return dep(x.X, true) || dep(x.Y, true)
		case *ssa.UnOp:
			return dep(x.X, true)
		case *ssa.Convert:
			return dep(x.X, op)
		case *ssa.ChangeType:
			return dep(x.X, op)
		case *ssa.Extract:
			return dep(x.Tuple, true)
		case *ssa.Slice:
			return dep(x.X, true)
		case *ssa.FieldAddr:
			return dep(x.X, true)
		case *ssa.IndexAddr:
			return dep(x.X, true)
		case *ssa.TypeAssert:
			return dep(x.X, op)
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if dep(a, true) {
					return true
				}
			}
		}
		return false
	}
	for _, e := range phi.Edges {
		if e == phi {
			continue
		}
		seen = map[ssa.Value]int{}
		if dep(e, false) {
			return true
		}
	}
	return false
}
