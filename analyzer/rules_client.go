package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "Layout computation: for every operation on a 64-bit number with the functions of sync/atomic, the address is traced to the struct field or variable it denotes, and its offset, through all enclosing structs and arrays, is computed with the sizes of the 32-bit architectures; it is a multiple of eight", checkC15)
	register("C07", "Value-flow analysis of every identifier that the client library puts into a frame or an object: it comes from the application, or is the injective rendering of the result of a single atomic (or locked) increment of one common 64-bit counter, which nothing else changes", checkC07)
}

// exportedMethods lists the exported methods of types of the client package.
func (c *Ctx) exportedMethods(typs ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, t := range typs {
		n := c.p.NamedType("", t)
		if n == nil {
			c.Undecided("type %s not found", t)
			continue
		}
		for i := 0; i < n.NumMethods(); i++ {
			if m := n.Method(i); m.Exported() {
				if f := c.p.Method("", t, m.Name()); f != nil && len(f.Blocks) > 0 {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// options lists the functions that are applied to a frame as options, with the functions that make them.
func (c *Ctx) options() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.p.Funcs {
		if f.Package() == nil || c.p.Rel(f.Package().Pkg) != "stomp" || len(f.Blocks) == 0 {
			continue
		}
		sig := f.Signature
		if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 || sig.Results().At(0).Type().String() != "error" {
			continue
		}
		if p, ok := sig.Params().At(0).Type().(*types.Pointer); ok && isNamed(p.Elem(), "frame", "Frame") {
			out = append(out, f)
		}
	}
	return out
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == pkg
}

// ---- C15 ----

func checkC15(c *Ctx) {
	sizes := map[string]types.Sizes{}
	for _, a := range []string{"386", "arm", "mips", "mipsle"} {
		sizes[a] = types.SizesFor("gc", a)
	}
	ops := 0
	// all struct types that hold a type by value, with the offset
	type place struct {
		in  *types.Named
		off int64
		how string
	}
	named := map[*types.Named]bool{}
	for _, sp := range c.p.Pkgs {
		for _, n := range sp.Pkg.Scope().Names() {
			if tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
				if nt, ok := tn.Type().(*types.Named); ok {
					named[nt] = true
				}
			}
		}
	}
	var contains func(sz types.Sizes, t types.Type, want types.Type, off int64, f func(off int64, how string), how string)
	contains = func(sz types.Sizes, t types.Type, want types.Type, off int64, f func(off int64, how string), how string) {
		if types.Identical(t, want) {
			f(off, how)
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			offs := sz.Offsetsof(fs)
			for i := range fs {
				contains(sz, fs[i].Type(), want, off+offs[i], f, how+"."+fs[i].Name())
			}
		case *types.Array:
			n := u.Len()
			if n > 2 {
				n = 2
			}
			for i := int64(0); i < n; i++ {
				contains(sz, u.Elem(), want, off+i*sz.Sizeof(u.Elem()), f, how+"[]")
			}
		}
	}
	var trace func(sz types.Sizes, arch string, v ssa.Value, off int64, what string, at ssa.Instruction, depth int)
	bad := func(arch, what string, off int64, at ssa.Instruction) {
		c.Fail("aligned", what, c.p.Pos(instrPos(at)), "%s is accessed atomically with 64 bits, but lies at offset %d on %s, which is no multiple of 8", what, off, arch)
	}
	judge := func(sz types.Sizes, arch string, t types.Type, off int64, what string, at ssa.Instruction) {
		c.Obl("aligned", what+" on "+arch)
		if off%8 != 0 {
			bad(arch, what, off, at)
			return
		}
		if _, ok := t.(*types.Named); !ok {
			return
		}
		// the type may be part of another one
		for n := range named {
			if _, ok := n.Underlying().(*types.Struct); !ok || types.Identical(n, t) {
				continue
			}
			contains(sz, n, t, 0, func(o int64, how string) {
				c.Obl("aligned", what+" in "+n.Obj().Name()+how+" on "+arch)
				if (o+off)%8 != 0 {
					bad(arch, what+" in "+n.Obj().Name()+how, o+off, at)
				}
			}, "")
		}
	}
	trace = func(sz types.Sizes, arch string, v ssa.Value, off int64, what string, at ssa.Instruction, depth int) {
		if depth > 12 {
			c.Undecided("the address of an atomic operation at %s is not understood", c.p.Pos(instrPos(at)))
			return
		}
		switch v := v.(type) {
		case *ssa.FieldAddr:
			pt := v.X.Type().Underlying().(*types.Pointer).Elem()
			st := pt.Underlying().(*types.Struct)
			var fs []*types.Var
			for i := 0; i < st.NumFields(); i++ {
				fs = append(fs, st.Field(i))
			}
			o := sz.Offsetsof(fs)[v.Field]
			name := types.TypeString(pt, func(p *types.Package) string { return p.Name() }) + "." + st.Field(v.Field).Name()
			if what != "" {
				name = name + "." + what[strings.LastIndex(what, ".")+1:]
			}
			trace(sz, arch, v.X, off+o, name, at, depth+1)
		case *ssa.IndexAddr:
			et := v.Type().Underlying().(*types.Pointer).Elem()
			if sz.Sizeof(et)%8 != 0 {
				off += sz.Sizeof(et) // the second element
			}
			if what == "" {
				what = "element of " + v.X.Type().String()
			}
			if _, isSlice := v.X.Type().Underlying().(*types.Slice); isSlice {
				judge(sz, arch, et, off, what, at)
				return
			}
			trace(sz, arch, v.X, off, what, at, depth+1)
		case *ssa.Global:
			if what == "" {
				what = v.Name()
			}
			judge(sz, arch, v.Type().Underlying().(*types.Pointer).Elem(), off, what, at)
		case *ssa.Alloc:
			if what == "" {
				what = v.Comment
			}
			judge(sz, arch, v.Type().Underlying().(*types.Pointer).Elem(), off, what, at)
		case *ssa.Parameter, *ssa.FreeVar, *ssa.UnOp, *ssa.Phi, *ssa.Call, *ssa.Extract, *ssa.TypeAssert, *ssa.Lookup:
			pt, ok := v.Type().Underlying().(*types.Pointer)
			if !ok {
				c.Undecided("the address of an atomic operation at %s is not understood", c.p.Pos(instrPos(at)))
				return
			}
			if b, basic := pt.Elem().Underlying().(*types.Basic); basic && what == "" && b.Info()&types.IsInteger != 0 {
				// a pointer to the number itself: where does it come from?
				p, isParam := v.(*ssa.Parameter)
				if !isParam {
					// an object of its own, if nobody takes the address of a field
					c.addressTaken(sz, arch, pt.Elem(), at, trace, depth)
					return
				}
				idx := -1
				for i, q := range p.Parent().Params {
					if q == p {
						idx = i
					}
				}
				n := 0
				for _, f := range c.p.Funcs {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							ci, ok := in.(ssa.CallInstruction)
							if ok && ci.Common().StaticCallee() == p.Parent() {
								n++
								trace(sz, arch, ci.Common().Args[idx], off, what, in, depth+1)
							}
						}
					}
				}
				if n == 0 {
					c.addressTaken(sz, arch, pt.Elem(), at, trace, depth)
				}
				return
			}
			judge(sz, arch, pt.Elem(), off, what, at)
		default:
			c.Undecided("the address of an atomic operation at %s is not understood", c.p.Pos(instrPos(at)))
		}
	}
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := ci.Common().StaticCallee()
				if cal == nil || cal.Pkg == nil || cal.Pkg.Pkg.Path() != "sync/atomic" || cal.Signature.Recv() != nil || !strings.HasSuffix(cal.Name(), "64") {
					continue
				}
				ops++
				for a, sz := range sizes {
					trace(sz, a, ci.Common().Args[0], 0, "", in, 0)
				}
			}
		}
	}
	// (fewer than on the pinned tree where counters have been given atomic types, which are aligned by themselves)
	typed := 0
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil && cal.Pkg != nil && cal.Pkg.Pkg.Path() == "sync/atomic" {
						typed++
					}
				}
			}
		}
	}
	c.Obl("aligned", "operations")
	c.Need("atomic operations", typed, 3)
}

// addressTaken judges all places where the address of a number of a type is taken.
func (c *Ctx) addressTaken(sz types.Sizes, arch string, t types.Type, at ssa.Instruction, trace func(types.Sizes, string, ssa.Value, int64, string, ssa.Instruction, int), depth int) {
	if depth > 6 {
		return
	}
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.Type().Underlying().(*types.Pointer).Elem(), t) {
					continue
				}
				escapes := false
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						escapes = escapes || r.Val == ssa.Value(fa)
					case ssa.CallInstruction:
						cal := r.Common().StaticCallee()
						escapes = escapes || cal == nil || cal.Pkg == nil || cal.Pkg.Pkg.Path() != "sync/atomic"
					default:
						escapes = true
					}
				}
				if escapes {
					trace(sz, arch, fa, 0, "", at, depth+6)
				}
			}
		}
	}
}

// ---- C07 ----

type idCheck struct {
	c       *Ctx
	counter map[string]string // counters seen, with an example
	made    map[*T]string     // results of increments
	wide    map[*T]types.Type
	n       int
}

// source tells where an identifier comes from: "counter", "app", or "" with an explanation.
func (k *idCheck) source(s *State, v *T) (string, string) {
	v = s.val(v)
	if v.IsConst() {
		return "", "it is always the same"
	}
	if a, why, ok := k.rendered(s, v); a != "" || why != "" {
		if why != "" {
			return "", why
		}
		if !ok {
			return "", "its rendering may make different numbers equal"
		}
		return a, ""
	}
	return k.app(s, v)
}

// rendered finds the increment that an identifier renders.
func (k *idCheck) rendered(s *State, v *T) (counter, why string, injective bool) {
	if c, ok := k.made[v]; ok {
		return c, "", true
	}
	if v.K != KApp {
		return "", "", false
	}
	switch {
	case v.S == "strconv.FormatUint" || v.S == "strconv.FormatInt" || v.S == "strconv.Itoa":
		c, why, ok := k.rendered(s, v.A[0])
		if c == "" {
			return c, why, ok
		}
		if v.S != "strconv.Itoa" && !v.A[1].IsConst() {
			return c, why, false
		}
		return c, why, ok
	case strings.HasPrefix(v.S, "conv:"):
		c, why, ok := k.rendered(s, v.A[0])
		if c != "" {
			if b, isB := v.Typ.Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
				switch b.Kind() {
				case types.Int64, types.Uint64, types.Int, types.Uint, types.Uintptr:
				default:
					return c, why, false
				}
			} else if !isB || b.Info()&types.IsString == 0 {
				return c, why, false
			}
		}
		return c, why, ok
	case (v.S == "+" || v.S == "^" || v.S == "-" || v.S == "%" || v.S == "&" || v.S == "*" || v.S == ">>" || v.S == "<<") && len(v.A) == 2:
		c, why, ok := k.rendered(s, v.A[0])
		d, why2, ok2 := k.rendered(s, v.A[1])
		if b, isB := v.Typ.Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 {
			if c == "" && d == "" {
				return "", why + why2, false
			}
			if c != "" && d != "" {
				return c, why, ok && ok2
			}
			// constant text around a number must not look like part of it
			other := v.A[1]
			if d != "" {
				other, c, why, ok = v.A[0], d, why2, ok2
			}
			if t, isC := s.val(other).Str(); !isC || strings.ContainsAny(t, "0123456789abcdef") && strings.ContainsAny(t, "0123456789") {
				if isC {
					ok = false
				}
			}
			return c, why, ok
		}
		if c == "" {
			c, why = d, why2
		}
		if c != "" {
			if _, isK := s.val(v.A[1]).Int(); (v.S == "+" || v.S == "-" || v.S == "^") && isK {
				return c, why, ok
			}
			return c, why, false
		}
		return "", why, false
	case v.IsApp("string") || v.IsApp("bytes") || v.IsApp("strings.ToUpper") || v.IsApp("strings.ToLower"):
		return k.rendered(s, v.A[0])
	}
	for _, a := range v.A {
		if c, _, _ := k.rendered(s, a); c != "" {
			return c, "", false
		}
	}
	return "", "", false
}

// app tells whether an identifier was chosen by the application, or earlier.
func (k *idCheck) app(s *State, v *T) (string, string) {
	switch v.K {
	case KParam:
		if strings.HasPrefix(v.S, "free:") {
			return "", "it was made before"
		}
		return "app", ""
	case KInit:
		a := v.A[0]
		switch a.K {
		case KFldAddr:
			return "stored", a.S
		case KParam:
			if strings.HasPrefix(a.S, "free:") {
				return "free", strings.TrimPrefix(a.S, "free:")
			}
		case KGlobal:
			return "", "it is kept in a package variable"
		}
	case KApp:
		if v.S == "hdr" {
			return "app", "" // an option has set it
		}
	}
	return "", "it is not made from the counter: " + v.String()
}

func (k *idCheck) observe(s *State, e *Event) {
	ex := s.ex
	add := func(v, addr *T, t types.Type) {
		if b, ok := t.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint64 && b.Kind() != types.Int64 {
			if ok && (b.Kind() == types.Uint || b.Kind() == types.Int || b.Kind() == types.Uintptr) {
				k.made[v] = counterName(addr)
				return
			}
			k.c.Fail("counter", counterName(addr), k.c.p.Pos(instrPos(e.Instr)), "the counter %s has fewer than 64 bits and starts again", counterName(addr))
		}
		k.made[v] = counterName(addr)
	}
	switch e.Kind {
	case "atomic":
		switch {
		case strings.HasPrefix(e.Name, "Add") && e.Res != nil && len(e.Args) > 1:
			if d, ok := s.val(e.Args[1]).Int(); ok && d != 0 {
				add(e.Res, e.Args[0], e.Res.Typ)
			}
		case strings.HasPrefix(e.Name, "CompareAndSwap") && e.Res != nil && e.Res.IsTrue() && len(e.Args) > 2:
			if x := e.Args[2]; x.IsApp("+") && x.A[0] == e.Args[1] && x.A[1].IsConst() && !x.A[1].IsInt(0) {
				add(x, e.Args[0], e.Args[2].Typ)
			}
		}
	case "store":
		if len(e.Args) == 2 && e.Name != "" && len(s.locks) > 0 {
			x := e.Args[1]
			if !x.IsApp("+") || !x.A[1].IsConst() || x.A[1].IsInt(0) {
				return
			}
			addr := e.Args[0]
			if addr.K != KGlobal {
				addr = ex.ts.FldAddr(addr, e.Name, nil)
			}
			if old := x.A[0]; old.K == KInit && old.A[0] == addr || old.K == KFresh && len(e.X) > 0 && e.X[0] == old {
				add(x, addr, x.Typ)
			}
		}
	}
}

func counterName(addr *T) string {
	switch addr.K {
	case KGlobal:
		return addr.V.(*ssa.Global).Name()
	case KFldAddr:
		if addr.A[0].K == KGlobal {
			return addr.A[0].V.(*ssa.Global).Name() + "." + addr.S
		}
		return addr.S
	}
	return addr.String()
}

func (k *idCheck) judge(s *State, e *Event, what string, v *T) {
	if v == nil {
		return
	}
	ex := s.ex
	src, why := k.source(s, v)
	ex.Obl("identifier", what)
	switch {
	case src == "free":
		k.freeVar(ex, e, what, why)
	case src == "stored":
		ex.Bad(s, "identifier", what, e.Instr, "the %s is kept in %s and may be used again", what, why)
	case src == "":
		ex.Bad(s, "identifier", what, e.Instr, "the %s may repeat: %s", what, why)
	case src != "app":
		k.n++
		k.counter[src] = what
	}
}

// freeVar judges a captured variable: it must be what the application gave to the function that made the option.
func (k *idCheck) freeVar(ex *Exec, e *Event, what, name string) {
	f := e.Instr.Parent()
	for f != nil {
		for i, fv := range f.FreeVars {
			if fv.Name() != name || f.Parent() == nil {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					mc, ok := in.(*ssa.MakeClosure)
					if !ok || mc.Fn != ssa.Value(f) {
						continue
					}
					al, ok := mc.Bindings[i].(*ssa.Alloc)
					if !ok {
						continue
					}
					for _, r := range *al.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
							if _, isParam := st.Val.(*ssa.Parameter); !isParam {
								k.c.Fail("identifier", what, k.c.p.Pos(instrPos(st)), "the %s is made once and used each time the option is applied", what)
							}
						}
					}
				}
			}
			return
		}
		f = f.Parent()
	}
}

func checkC07(c *Ctx) {
	k := &idCheck{c: c, counter: map[string]string{}, made: map[*T]string{}}
	writeCh := c.field("", "Conn", "writeCh", "chan stomp.writeRequest")
	isID := map[string]string{"receipt": "receipt id", "id": "subscription id", "transaction": "transaction id"}
	conf := func(ex *Exec) {
		k.made = map[*T]string{}
		ex.Opts.Loads = true
	}
	frames := 0
	rule := func() *funcRule {
		return &funcRule{wants: func(s *State, e *Event) bool { return e.Kind == "store" }, on: func(s *State, e *Event) {
			k.observe(s, e)
			switch e.Kind {
			case "send":
				if e.Name != writeCh {
					return
				}
				for _, f := range framesIn(s.ex, e) {
					frames++
					cmd, _ := s.val(s.peek(f, "frame.Frame.Command")).Str()
					for _, h := range sortedKeys(isID) {
						if h == "id" && cmd != "SUBSCRIBE" {
							continue // refers to something
						}
						if h == "transaction" && cmd != "BEGIN" {
							continue
						}
						if has, v := s.hdrOfFrame(f, h); has == 1 {
							k.judge(s, e, isID[h], v)
						}
					}
				}
			case "store":
				if len(e.Args) == 2 && (e.Name == "stomp.Transaction.id" || e.Name == "stomp.Subscription.id") {
					k.judge(s, e, e.Name, e.Args[1])
				}
			}
		}}
	}
	roots := c.exportedMethods("Conn", "Transaction", "Subscription")
	for _, f := range roots {
		if c.sends(f) {
			c.Explore(c.p.FuncName(f), f, rule(), conf, nil, nil)
		}
	}
	opt := &funcRule{on: func(s *State, e *Event) {
		k.observe(s, e)
		switch e.Kind {
		case "hdrset", "hdradd":
			if len(e.Args) < 3 {
				return
			}
			if h, ok := s.val(e.Args[1]).Str(); ok && isID[h] != "" {
				k.judge(s, e, isID[h]+" of an option", e.Args[2])
			}
		}
	}}
	for _, f := range c.options() {
		c.Explore(c.p.FuncName(f), f, opt, conf, nil, nil)
	}
	c.Obl("counter", "common")
	if len(k.counter) > 1 {
		cs := sortedKeys(k.counter)
		c.Fail("counter", "common", "", "the library numbers its requests with several counters (%s), so that a %s and a %s may be equal", strings.Join(cs, ", "), k.counter[cs[0]], k.counter[cs[1]])
	}
	c.Need("identifiers made from the counter", k.n, 4)
	c.Need("frames sent by API functions", frames, 8)
	for n := range k.counter {
		k.writes(n)
	}
}

// sends tells whether a function reaches the channel to the process loop.
func (c *Ctx) sends(f *ssa.Function) bool {
	for g := range c.p.info.Reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Send:
					return true
				case *ssa.Select:
					for _, st := range in.States {
						if st.Dir == types.SendOnly {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// writes reports operations on a counter that may make it repeat.
func (k *idCheck) writes(name string) {
	c := k.c
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				st, isStore := in.(*ssa.Store)
				is := func(v ssa.Value) bool {
					switch v := v.(type) {
					case *ssa.Global:
						return v.Name() == name && v.Pkg != nil && c.p.Rel(v.Pkg.Pkg) == "stomp"
					case *ssa.FieldAddr:
						st := v.X.Type().Underlying().(*types.Pointer).Elem()
						u := st.Underlying().(*types.Struct)
						fn := types.TypeString(st, func(p *types.Package) string { return p.Name() }) + "." + u.Field(v.Field).Name()
						return strings.HasSuffix(name, fn)
					}
					return false
				}
				switch {
				case isStore && is(st.Addr):
					if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
						continue
					}
					c.Obl("counter", "written in "+c.p.FuncName(f))
					if bo, ok := st.Val.(*ssa.BinOp); ok && bo.Op == token.ADD {
						if _, isK := bo.Y.(*ssa.Const); isK {
							continue // judged where it is used
						}
					}
					c.Fail("counter", name+" set", c.p.Pos(instrPos(in)), "the counter %s is set, so that numbers may repeat", name)
				case isCall && len(ci.Common().Args) > 0 && is(ci.Common().Args[0]):
					cal := ci.Common().StaticCallee()
					if cal == nil {
						continue
					}
					op := atomicOp(c.p.canonName(cal))
					c.Obl("counter", op+" in "+c.p.FuncName(f))
					switch {
					case strings.HasPrefix(op, "Load"), strings.HasPrefix(op, "CompareAndSwap"):
					case strings.HasPrefix(op, "Add"):
						d, ok := ci.Common().Args[1].(*ssa.Const)
						if ok && d.Value != nil && d.Int64() > 0 {
							continue
						}
						c.Fail("counter", name+" added", c.p.Pos(instrPos(in)), "the counter %s is not always increased", name)
					default:
						c.Fail("counter", name+" "+op, c.p.Pos(instrPos(in)), "the counter %s is changed by %s, so that numbers may repeat", name, op)
					}
				}
			}
		}
	}
}

// ---- C16 ----

func init() {
	register("C16", "Call-graph confinement of the write operations: every call that writes to a connection (of the frame writer, or directly) is reached from one goroutine entry per connection only, which is started once, and from the functions that set up a connection only before they start it; connections are written to through the frame writer only", checkC16)
}

func checkC16(c *Ctx) {
	isConn := func(t types.Type) bool {
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			return isNamed(derefType(t), "net", "TCPConn") || isNamed(derefType(t), "tls", "Conn") || isNamed(derefType(t), "net", "UnixConn")
		}
		r, w := false, false
		for i := 0; i < it.NumMethods(); i++ {
			switch it.Method(i).Name() {
			case "Read":
				r = true
			case "Write":
				w = true
			}
		}
		return r && w
	}
	strip := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.ChangeInterface:
				v = x.X
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			default:
				return v
			}
		}
	}
	scope := map[string]bool{"stomp": true, "server": true, "server/client": true}
	// functions that write
	type site struct {
		f  *ssa.Function
		in ssa.Instruction
	}
	var sites []site
	calls := 0
	for _, f := range c.p.Funcs {
		if f.Package() == nil || !scope[c.p.Rel(f.Package().Pkg)] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				calls++
				cc := ci.Common()
				if cal := cc.StaticCallee(); cal != nil {
					n := c.p.canonName(cal)
					if n == "frame.Writer.Write" {
						sites = append(sites, site{f, in})
						continue
					}
					if strings.HasPrefix(n, "frame.") {
						continue
					}
					if cal.Pkg != nil && c.p.Own(cal) {
						continue
					}
					for _, a := range cc.Args {
						a = strip(a)
						if !isConn(a.Type()) {
							continue
						}
						if cal.Signature.Recv() != nil && a == strip(cc.Args[0]) && !writesName(cal.Name()) {
							continue
						}
						if readsOnly[n] {
							continue
						}
						c.Fail("through the frame writer", c.p.FuncName(f)+" "+n, c.p.Pos(instrPos(in)), "%s hands the network connection to %s, which may write to it besides the frame writer", c.p.FuncName(f), n)
					}
					continue
				}
				if cc.IsInvoke() && isConn(cc.Value.Type()) && writesName(cc.Method.Name()) {
					c.Fail("through the frame writer", c.p.FuncName(f)+" "+cc.Method.Name(), c.p.Pos(instrPos(in)), "%s writes to the network connection without the frame writer", c.p.FuncName(f))
				}
			}
		}
	}
	c.Obl("through the frame writer", "calls")
	c.Need("calls examined", calls, 150)
	c.Need("write sites", len(sites), 4)
	procs := map[*ssa.Function]string{}
	for _, rel := range []string{"", "server/client", "server"} {
		var found []*ssa.Function
		for _, e := range c.entries(rel) {
			for _, s := range sites {
				if c.p.info.Reach(e)[s.f] {
					found = append(found, e)
					break
				}
			}
		}
		for _, e := range found {
			procs[e] = relName(rel)
			c.Obl("one goroutine", c.p.FuncName(e))
		}
		if len(found) > 1 {
			var ns []string
			for _, e := range found {
				ns = append(ns, c.p.FuncName(e))
			}
			c.Fail("one goroutine", relName(rel), c.p.Pos(found[len(found)-1].Pos()), "several goroutines write to a connection: %s", strings.Join(ns, ", "))
		}
		if len(found) == 0 && rel != "server" {
			c.Undecided("no goroutine of %s writes frames", relName(rel))
		}
	}
	starts := func(f *ssa.Function) int {
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if t := goTarget(g); t != nil && procs[t] != "" {
						n++
					}
				}
			}
		}
		return n
	}
	var roots []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range c.p.Funcs {
		if f.Package() == nil || !scope[c.p.Rel(f.Package().Pkg)] || procs[f] != "" {
			continue
		}
		// what starts the goroutine
		if starts(f) > 0 && !seen[f] {
			seen[f] = true
			roots = append(roots, f)
		}
	}
	for _, s := range sites {
		c.Obl("write", c.p.FuncName(s.f))
		for _, g := range c.p.Funcs {
			if g.Package() == nil || !scope[c.p.Rel(g.Package().Pkg)] || !c.p.isAPI(g) || !c.p.info.Reach(g)[s.f] || seen[g] {
				continue
			}
			inProc := false
			for p := range procs {
				if c.p.info.Reach(p)[g] {
					inProc = true // exported for the goroutine itself, e.g. a method of an unexported type
				}
			}
			up := false
			for r := range seen {
				if c.p.info.Reach(g)[r] {
					up = true
				}
			}
			if !up && !inProc {
				c.Fail("write", c.p.FuncName(g), c.p.Pos(instrPos(s.in)), "%s, which any goroutine may call, writes to the connection in %s", c.p.FuncName(g), c.p.FuncName(s.f))
			}
		}
	}
	c.Need("functions that start the writing goroutine", len(roots), 2)
	// which of those that start it write before or after?
	for _, f := range roots {
		c.Explore(c.p.FuncName(f), f, &funcRule{on: func(s *State, e *Event) {
			ex := s.ex
			switch e.Kind {
			case "go":
				if e.Fn == nil || procs[e.Fn] == "" {
					return
				}
				ex.Obl("write", "goroutine started in "+c.p.FuncName(f))
				if s.cells["cw.go"] != nil {
					ex.Bad(s, "one goroutine", "started again in "+c.p.FuncName(f), e.Instr, "the goroutine that writes to the connection is started twice")
				}
				s.cells["cw.go"] = ex.ts.Int(1)
			case "write":
				ex.Obl("write", "in "+c.p.FuncName(f))
				if s.cells["cw.go"] != nil {
					ex.Bad(s, "write", "after the start in "+c.p.FuncName(f), e.Instr, "a frame is written while the goroutine that writes to the connection is already running")
				}
			}
		}}, nil, nil, nil)
	}
}

var readsOnly = map[string]bool{"bufio.NewReader": true, "bufio.NewReaderSize": true}

func writesName(n string) bool {
	switch n {
	case "Write", "WriteString", "ReadFrom", "WriteByte", "WriteTo", "WriteRune":
		return true
	}
	return false
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// goTarget is the function that a go statement starts.
func goTarget(g *ssa.Go) *ssa.Function {
	if f := g.Call.StaticCallee(); f != nil {
		return f
	}
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		return mc.Fn.(*ssa.Function)
	}
	return nil
}
