package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// gconst is the contents of a package variable that is set when the program starts and never changed.
type gconst struct {
	kind string // "bytes", "list", "map", "replacer", "const"
	str  string
	list []*ssa.Const
	vals []*ssa.Const // of a map: values (list: keys); nil where unknown
	fns  []*ssa.Function
	c    *ssa.Const
}

// funcOf is the function that a value is, if it is one without bindings.
func funcOf(v ssa.Value) *ssa.Function {
	for {
		switch x := v.(type) {
		case *ssa.Function:
			return x
		case *ssa.MakeClosure:
			if len(x.Bindings) > 0 {
				return nil
			}
			return x.Fn.(*ssa.Function)
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
}

// onlyRead reports whether a map that was loaded from a variable is only looked at.
func onlyRead(ld *ssa.UnOp) bool {
	if _, ok := ld.Type().Underlying().(*types.Map); !ok {
		return true
	}
	for _, r := range *ld.Referrers() {
		switch x := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.BinOp:
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// funcTables lists the functions in the maps that package variables hold.
func (p *Program) funcTables() map[*ssa.Global][]*ssa.Function {
	out := map[*ssa.Global][]*ssa.Function{}
	for _, pk := range p.Pkgs {
		f := pk.Func("init")
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				m, okm := st.Val.(*ssa.MakeMap)
				if !ok || !okm {
					continue
				}
				for _, r := range *m.Referrers() {
					if u, ok := r.(*ssa.MapUpdate); ok {
						if fn := funcOf(u.Value); fn != nil {
							out[g] = append(out[g], fn)
						}
					}
				}
			}
		}
	}
	return out
}

func constOf(v ssa.Value) *ssa.Const {
	for {
		switch x := v.(type) {
		case *ssa.Const:
			return x
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			if _, ok := x.Type().Underlying().(*types.Basic); !ok {
				return nil
			}
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return nil
		}
	}
}

// elements returns the constants with which an array is filled.
func elements(refs []ssa.Instruction, n int64, zero *ssa.Const) []*ssa.Const {
	l := make([]*ssa.Const, n)
	for i := range l {
		l[i] = zero
	}
	for _, r := range refs {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k := constOf(ia.Index)
		if k == nil || k.Value == nil || k.Int64() < 0 || k.Int64() >= n {
			return nil
		}
		for _, u := range *ia.Referrers() {
			st, ok := u.(*ssa.Store)
			if !ok || st.Addr != ia || constOf(st.Val) == nil {
				return nil
			}
			l[k.Int64()] = constOf(st.Val)
		}
	}
	return l
}

func sliceConsts(v ssa.Value) ([]*ssa.Const, types.Type) {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, nil
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok || arr.Len() > 256 {
		return nil, nil
	}
	if _, ok := arr.Elem().Underlying().(*types.Basic); !ok {
		if _, ok := arr.Elem().Underlying().(*types.Interface); !ok {
			return nil, nil
		}
	}
	var zero *ssa.Const
	if b, ok := arr.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
		zero = ssa.NewConst(constant.MakeInt64(0), arr.Elem())
	}
	return elements(*al.Referrers(), arr.Len(), zero), arr.Elem()
}

// globalConst returns what is known about a package variable.
func (p *Program) globalConst(g *ssa.Global) *gconst {
	if p.gconsts == nil {
		p.gconsts = map[*ssa.Global]*gconst{}
		sets := map[*ssa.Global][]ssa.Value{}
		spoilt := map[*ssa.Global]bool{}
		see := func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch x := in.(type) {
						case *ssa.Store:
							if x.Addr != g {
								spoilt[g] = true
								continue
							}
							sets[g] = append(sets[g], x.Val)
							if f.Name() != "init" {
								spoilt[g] = true
							}
						case *ssa.UnOp:
							if !onlyRead(x) {
								spoilt[g] = true
							}
						case *ssa.DebugRef:
						default:
							if _, isPtr := deref(g.Type()).Underlying().(*types.Array); !isPtr || f.Name() != "init" {
								if _, ok := in.(*ssa.IndexAddr); !ok {
									spoilt[g] = true
								}
							}
						}
					}
				}
			}
		}
		seen := map[*ssa.Function]bool{}
		for _, f := range p.Funcs {
			seen[f] = true
			see(f)
		}
		for _, pk := range p.Pkgs {
			if f := pk.Func("init"); f != nil && !seen[f] {
				see(f)
			}
		}
		for g, vs := range sets {
			if len(vs) != 1 || spoilt[g] {
				continue
			}
			v := vs[0]
			if k, ok := v.(*ssa.Const); ok {
				p.gconsts[g] = &gconst{kind: "const", c: k}
				continue
			}
			if l, elem := sliceConsts(v); l != nil {
				if b, ok := elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					var bs []byte
					for _, k := range l {
						if k == nil || k.Value == nil {
							bs = nil
							break
						}
						bs = append(bs, byte(k.Int64()))
					}
					if bs != nil || len(l) == 0 {
						p.gconsts[g] = &gconst{kind: "bytes", str: string(bs)}
					}
					continue
				}
				p.gconsts[g] = &gconst{kind: "list", list: l}
				continue
			}
			switch x := v.(type) {
			case *ssa.Convert:
				if k, ok := x.X.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					p.gconsts[g] = &gconst{kind: "bytes", str: constant.StringVal(k.Value)}
				}
			case *ssa.MakeMap:
				gc := &gconst{kind: "map"}
				good := true
				for _, r := range *x.Referrers() {
					switch u := r.(type) {
					case *ssa.MapUpdate:
						k := constOf(u.Key)
						if k == nil {
							good = false
							break
						}
						gc.list = append(gc.list, k)
						gc.vals = append(gc.vals, constOf(u.Value))
						gc.fns = append(gc.fns, funcOf(u.Value))
					case *ssa.Store, *ssa.DebugRef:
					default:
						good = false
					}
				}
				if good {
					p.gconsts[g] = gc
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && f.String() == "strings.NewReplacer" {
					if l, _ := sliceConsts(x.Call.Args[0]); l != nil {
						p.gconsts[g] = &gconst{kind: "replacer", list: l}
					}
				}
			}
		}
	}
	return p.gconsts[g]
}

// globalTerm returns the value of a package variable that never changes.
func (s *State) globalTerm(g *ssa.Global, typ types.Type) *T {
	ts := s.ex.ts
	gc := s.ex.p.globalConst(g)
	if gc == nil {
		return nil
	}
	switch gc.kind {
	case "const":
		return ts.Const(gc.c.Value, gc.c.Type())
	case "bytes":
		return ts.App("bytes", typ, ts.Str(gc.str))
	case "list":
		var l []*T
		for _, k := range gc.list {
			if k == nil || k.Value == nil {
				return nil
			}
			l = append(l, ts.Const(k.Value, k.Type()))
		}
		return ts.List(l...)
	}
	return nil
}

// constMap returns the entries of a package variable that holds a map.
func (s *State) constMap(m *T) *gconst {
	if m.K == KInit && m.A[0].K == KGlobal {
		if gc := s.ex.p.globalConst(m.A[0].V.(*ssa.Global)); gc != nil && gc.kind == "map" {
			return gc
		}
	}
	return nil
}

// bytesOf returns the contents of a byte slice or string that is known.
func bytesOf(t *T) (string, bool) {
	if t != nil && t.IsApp("bytes") {
		return t.A[0].Str()
	}
	return t.Str()
}

// constLookup looks a key up in a map that never changes.
func (ex *Exec) constLookup(s *State, in *ssa.Lookup, gc *gconst, m, k *T, mt *types.Map) []*State {
	ts := ex.ts
	var out []*State
	fin := func(n *State, present bool, v *T) {
		tag := "absent"
		if present {
			tag = "present"
		} else {
			v = n.zero(mt.Elem())
		}
		if in.CommaOk {
			n.set(in, ts.Tuple(v, ts.Bool(present)))
		} else {
			n.set(in, v)
		}
		ex.emit(n, &Event{Kind: "maplookup", Name: ex.chanName(m), Args: []*T{m, k}, Res: v, Tag: tag, Instr: in})
		n.top().idx++
		out = append(out, n)
	}
	rest := s
	for i, c := range gc.list {
		eq := ts.Bin(token.EQL, k, ts.Const(c.Value, c.Type()), nil)
		n := rest.clone()
		if n.assume(eq, true) {
			var v *T
			if gc.vals[i] != nil && gc.vals[i].Value != nil {
				v = ts.Const(gc.vals[i].Value, mt.Elem())
			} else if i < len(gc.fns) && gc.fns[i] != nil {
				v = ts.Func(gc.fns[i])
			} else {
				v = n.fresh("mapv", in, "."+strconv.Itoa(i), mt.Elem())
			}
			fin(n, true, v)
		}
		if !rest.assume(eq, false) {
			return out
		}
	}
	fin(rest, false, nil)
	return out
}
