package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F04", "Points-to analysis (inclusion-based, field- and context-sensitive) of every exported function of the frame package that returns a frame, a header or a slice: once it has returned, what can be reached from its result and what can be reached from its parameters and from global variables, including a reader's buffer, have no memory in common", checkF04)
}

// A memory object: an allocation in a context, or an unknown object that exists before the call.
type mobj struct {
	name string
	pos  token.Pos
	old  bool
}

// mloc is a place in an object.
type mloc struct {
	o    *mobj
	path string
}

type mset map[mloc]bool

type mctx struct {
	fn     *ssa.Function
	parent *mctx
	site   ssa.Instruction
	depth  int
	name   string
}

type mval struct {
	c *mctx
	v ssa.Value
}

type points struct {
	p       *Program
	objs    map[string]*mobj
	vals    map[mval]mset
	mem     map[mloc]mset
	where   map[mloc]token.Pos // last store that added something
	ctxs    map[string]*mctx
	order   []*mctx
	changed bool
	returns map[*mctx][]mset
	globals map[*mobj]bool
	insts   int
}

func pointerful(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerful(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointerful(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerful(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (g *points) obj(name string, pos token.Pos, old bool) *mobj {
	o := g.objs[name]
	if o == nil {
		o = &mobj{name: name, pos: pos, old: old}
		g.objs[name] = o
		g.changed = true
	}
	return o
}

func (g *points) add(c *mctx, v ssa.Value, s mset) {
	if len(s) == 0 {
		return
	}
	k := mval{c, v}
	d := g.vals[k]
	if d == nil {
		d = mset{}
		g.vals[k] = d
	}
	for l := range s {
		if !d[l] {
			d[l] = true
			g.changed = true
		}
	}
}

func (g *points) put(l mloc, s mset, pos token.Pos) {
	if len(s) == 0 {
		return
	}
	d := g.mem[l]
	if d == nil {
		d = mset{}
		g.mem[l] = d
	}
	for x := range s {
		if !d[x] {
			d[x] = true
			g.changed = true
			g.where[l] = pos
		}
	}
}

// get returns what a place holds. Objects that existed before hold objects that existed before.
func (g *points) get(l mloc, t types.Type) mset {
	if l.o.old && t != nil && pointerful(t) {
		if _, isStruct := t.Underlying().(*types.Struct); !isStruct {
			if strings.Count(l.o.name, ".")+strings.Count(l.path, ".") < 12 {
				n := g.obj(l.o.name+l.path, l.o.pos, true)
				g.put(l, mset{mloc{n, ""}: true}, l.o.pos)
			}
		}
	}
	return g.mem[l]
}

// of returns what a value may refer to.
func (g *points) of(c *mctx, v ssa.Value) mset {
	switch v := v.(type) {
	case *ssa.Global:
		o := g.obj("global "+v.Name(), v.Pos(), true)
		g.globals[o] = true
		return mset{mloc{o, ""}: true}
	case *ssa.Function:
		return nil
	}
	return g.vals[mval{c, v}]
}

// copyStruct copies what is held by the places below a place.
func (g *points) copyStruct(to, from mloc, t types.Type, pos token.Pos) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := "." + u.Field(i).Name()
			g.copyStruct(mloc{to.o, to.path + f}, mloc{from.o, from.path + f}, u.Field(i).Type(), pos)
		}
	case *types.Array:
		g.copyStruct(mloc{to.o, to.path + "[]"}, mloc{from.o, from.path + "[]"}, u.Elem(), pos)
	default:
		g.put(to, g.get(from, t), pos)
	}
}

func composite(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (g *points) at(c *mctx, in ssa.Instruction, suffix string) *mobj {
	n := fmt.Sprintf("new %s%s", c.name, suffix)
	if v, ok := in.(ssa.Value); ok {
		n += " " + v.Name()
	} else {
		n += fmt.Sprintf(" @%d", in.Pos())
	}
	return g.obj(n, in.Pos(), false)
}

func (g *points) enter(parent *mctx, site ssa.Instruction, fn *ssa.Function) *mctx {
	n := fn.Name()
	if parent != nil {
		for x := parent; x != nil; x = x.parent {
			if x.fn == fn {
				return x // recursion
			}
		}
		n = fmt.Sprintf("%s>%d>%s", parent.name, site.Pos(), fn.Name())
		if v, ok := site.(ssa.Value); ok {
			n = fmt.Sprintf("%s>%s>%s", parent.name, v.Name(), fn.Name())
		}
	}
	x := g.ctxs[n]
	if x == nil {
		x = &mctx{fn: fn, parent: parent, site: site, name: n}
		if parent != nil {
			x.depth = parent.depth + 1
		}
		g.ctxs[n] = x
		g.order = append(g.order, x)
		g.changed = true
	}
	return x
}

// results that the caller gets memory of its own in
var ownMemory = map[string]bool{
	"(*bufio.Reader).ReadBytes": true, "io.ReadAll": true, "io/ioutil.ReadAll": true, "os.ReadFile": true, "io/ioutil.ReadFile": true,
	"bytes.Clone": true, "bytes.Join": true, "bytes.Repeat": true, "bytes.Replace": true, "bytes.ReplaceAll": true,
	"bytes.ToLower": true, "bytes.ToUpper": true, "bytes.Title": true, "bytes.ToTitle": true, "bytes.Map": true, "bytes.ToValidUTF8": true,
	"strings.Split": true, "strings.SplitN": true, "strings.SplitAfter": true, "strings.SplitAfterN": true, "strings.Fields": true, "strings.FieldsFunc": true,
	"errors.New": true, "fmt.Errorf": true, "strconv.AppendInt": false,
}

func (g *points) call(c *mctx, in ssa.Instruction, call *ssa.CallCommon, res ssa.Value) {
	if b, ok := call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			base := call.Args[0]
			out := mset{}
			if !emptyBase(base) {
				for l := range g.of(c, base) {
					out[l] = true
				}
			}
			n := g.at(c, in, "")
			out[mloc{n, ""}] = true
			// the elements
			el := mset{}
			for _, a := range call.Args {
				for l := range g.of(c, a) {
					var et types.Type
					if st, ok := a.Type().Underlying().(*types.Slice); ok {
						et = st.Elem()
					}
					for x := range g.get(mloc{l.o, l.path + "[]"}, et) {
						el[x] = true
					}
				}
			}
			for l := range out {
				g.put(mloc{l.o, l.path + "[]"}, el, in.Pos())
			}
			if res != nil {
				g.add(c, res, out)
			}
		case "copy":
			for d := range g.of(c, call.Args[0]) {
				for s := range g.of(c, call.Args[1]) {
					var et types.Type
					if st, ok := call.Args[1].Type().Underlying().(*types.Slice); ok {
						et = st.Elem()
					}
					g.put(mloc{d.o, d.path + "[]"}, g.get(mloc{s.o, s.path + "[]"}, et), in.Pos())
				}
			}
		default: // unsafe.String and the like pass on the memory
			if res != nil && len(call.Args) > 0 {
				g.add(c, res, g.of(c, call.Args[0]))
			}
		}
		return
	}
	var targets []*ssa.Function
	var recvFree []ssa.Value
	if f := call.StaticCallee(); f != nil {
		targets = append(targets, f)
		if mc, ok := call.Value.(*ssa.MakeClosure); ok {
			recvFree = mc.Bindings
		}
	}
	if len(targets) == 1 && len(targets[0].Blocks) > 0 && g.p.Own(targets[0]) && c.depth < 10 {
		f := targets[0]
		n := g.enter(c, in, f)
		for i, pr := range f.Params {
			if i < len(call.Args) {
				g.add(n, pr, g.of(c, call.Args[i]))
			}
		}
		for i, fv := range f.FreeVars {
			if i < len(recvFree) {
				g.add(n, fv, g.of(c, recvFree[i]))
			}
		}
		rs := g.returns[n]
		if res != nil {
			switch len(rs) {
			case 0:
			case 1:
				g.add(c, res, rs[0])
			default:
				for i, r := range rs {
					// a tuple: the parts are kept apart by path
					for l := range r {
						g.put(mloc{g.at(c, in, " tuple"), fmt.Sprintf("#%d", i)}, mset{l: true}, in.Pos())
					}
				}
			}
		}
		return
	}
	// a function of another package, or an unknown one
	name := ""
	args := call.Args
	if len(targets) == 1 {
		name = targets[0].String()
	} else if call.IsInvoke() {
		name = ifaceName(call)
		args = append([]ssa.Value{call.Value}, args...)
	} else {
		name = "function value"
		args = append([]ssa.Value{call.Value}, args...)
	}
	if res == nil || !pointerful(res.Type()) {
		return
	}
	out := map[int]mset{}
	tup, isTuple := res.Type().(*types.Tuple)
	one := func(i int, t types.Type) {
		if !pointerful(t) || types.Identical(t, errorType) {
			return
		}
		n := mloc{g.at(c, in, fmt.Sprintf(" result %d", i)), ""}
		s := mset{n: true}
		fresh, known := ownMemory[name]
		switch {
		case known && fresh, call.IsInvoke() && strings.HasSuffix(name, ".ReadBytes"):
		case strings.HasPrefix(name, "(*sync.Pool).Get"):
			// whoever used it before may use it still
			for a := range g.of(c, args[0]) {
				s = g.get(mloc{a.o, a.path + ".pooled"}, t)
				if !a.o.old {
					s[n] = true
				}
			}
		case strings.HasPrefix(name, "bufio.New"), strings.HasPrefix(name, "bytes.NewBuffer"), strings.HasPrefix(name, "bytes.NewReader"), strings.HasPrefix(name, "io.TeeReader"), strings.HasPrefix(name, "io.LimitReader"):
			// holds what it was given
			for _, a := range args {
				g.put(mloc{n.o, ".buf"}, g.of(c, a), in.Pos())
			}
		case strings.HasPrefix(name, "bytes.Split"), strings.HasPrefix(name, "bytes.Fields"):
			g.put(mloc{n.o, "[]"}, g.of(c, args[0]), in.Pos())
		default:
			_, isSlice := t.Underlying().(*types.Slice)
			// part of an argument, or of what it holds
			for _, a := range args {
				for l := range g.of(c, a) {
					at := a.Type()
					if pt, ok := at.Underlying().(*types.Pointer); ok {
						at = pt.Elem()
						if isSlice {
							// memory of the object, such as a buffer
							for x := range g.get(mloc{l.o, l.path + ".buf"}, t) {
								s[x] = true
							}
							if !l.o.old {
								b := mloc{g.obj(l.o.name+" memory", l.o.pos, false), ""}
								g.put(mloc{l.o, l.path + ".buf"}, mset{b: true}, in.Pos())
								s[b] = true
							}
							continue
						}
					}
					s[l] = true
				}
			}
		}
		out[i] = s
	}
	if isTuple {
		for i := 0; i < tup.Len(); i++ {
			one(i, tup.At(i).Type())
			g.put(mloc{g.at(c, in, " tuple"), fmt.Sprintf("#%d", i)}, out[i], in.Pos())
		}
		return
	}
	one(0, res.Type())
	g.add(c, res, out[0])
}

// emptyBase recognises what append cannot write to: nil, and slices without capacity.
func emptyBase(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.ChangeType:
		return emptyBase(v.X)
	case *ssa.Slice:
		if k, ok := v.Max.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
			return true
		}
	}
	return false
}

func (g *points) step(c *mctx, in ssa.Instruction) {
	g.insts++
	switch in := in.(type) {
	case *ssa.Alloc:
		g.add(c, in, mset{mloc{g.at(c, in, ""), ""}: true})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		g.add(c, in.(ssa.Value), mset{mloc{g.at(c, in, ""), ""}: true})
	case *ssa.FieldAddr:
		st := deref(in.X.Type()).Underlying().(*types.Struct)
		s := mset{}
		for l := range g.of(c, in.X) {
			s[mloc{l.o, l.path + "." + st.Field(in.Field).Name()}] = true
		}
		g.add(c, in, s)
	case *ssa.IndexAddr:
		s := mset{}
		for l := range g.of(c, in.X) {
			s[mloc{l.o, l.path + "[]"}] = true
		}
		g.add(c, in, s)
	case *ssa.Field:
		st := in.X.Type().Underlying().(*types.Struct)
		for l := range g.of(c, in.X) {
			g.add(c, in, g.valueAt(mloc{l.o, l.path + "." + st.Field(in.Field).Name()}, in.Type()))
		}
	case *ssa.Index:
		for l := range g.of(c, in.X) {
			g.add(c, in, g.valueAt(mloc{l.o, l.path + "[]"}, in.Type()))
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			for l := range g.of(c, in.X) {
				g.add(c, in, g.valueAt(l, in.Type()))
			}
		case token.ARROW:
			for l := range g.of(c, in.X) {
				if in.CommaOk {
					g.put(mloc{g.at(c, in, " tuple"), "#0"}, g.get(mloc{l.o, l.path + "[]"}, nil), in.Pos())
				} else {
					g.add(c, in, g.valueAt(mloc{l.o, l.path + "[]"}, in.Type()))
				}
			}
		}
	case *ssa.Store:
		for l := range g.of(c, in.Addr) {
			if composite(in.Val.Type()) {
				for x := range g.of(c, in.Val) {
					g.copyStruct(l, x, in.Val.Type(), in.Pos())
				}
			} else {
				g.put(l, g.of(c, in.Val), in.Pos())
			}
		}
	case *ssa.Send:
		for l := range g.of(c, in.Chan) {
			g.put(mloc{l.o, l.path + "[]"}, g.of(c, in.X), in.Pos())
		}
	case *ssa.MapUpdate:
		for l := range g.of(c, in.Map) {
			g.put(mloc{l.o, l.path + "[]"}, g.of(c, in.Value), in.Pos())
		}
	case *ssa.Lookup:
		for l := range g.of(c, in.X) {
			if in.CommaOk {
				g.put(mloc{g.at(c, in, " tuple"), "#0"}, g.get(mloc{l.o, l.path + "[]"}, nil), in.Pos())
			} else {
				g.add(c, in, g.valueAt(mloc{l.o, l.path + "[]"}, in.Type()))
			}
		}
	case *ssa.Phi:
		for _, e := range in.Edges {
			g.add(c, in, g.of(c, e))
		}
	case *ssa.Slice:
		g.add(c, in, g.of(c, in.X))
	case *ssa.ChangeType:
		g.add(c, in, g.of(c, in.X))
	case *ssa.ChangeInterface:
		g.add(c, in, g.of(c, in.X))
	case *ssa.MakeInterface:
		g.add(c, in, g.of(c, in.X))
	case *ssa.SliceToArrayPointer:
		g.add(c, in, g.of(c, in.X))
	case *ssa.Convert:
		from, to := in.X.Type().Underlying(), in.Type().Underlying()
		_, fs := from.(*types.Slice)
		_, ts := to.(*types.Slice)
		switch {
		case fs && !ts: // text of bytes: a copy
		case ts && !fs:
			g.add(c, in, mset{mloc{g.at(c, in, ""), ""}: true})
		default:
			g.add(c, in, g.of(c, in.X))
		}
	case *ssa.TypeAssert:
		if in.CommaOk {
			g.put(mloc{g.at(c, in, " tuple"), "#0"}, g.of(c, in.X), in.Pos())
		} else {
			g.add(c, in, g.of(c, in.X))
		}
	case *ssa.Extract:
		if t, ok := in.Tuple.(ssa.Instruction); ok {
			g.add(c, in, g.mem[mloc{g.at(c, t, " tuple"), fmt.Sprintf("#%d", in.Index)}])
		}
	case *ssa.MakeClosure:
		for i, fv := range in.Fn.(*ssa.Function).FreeVars {
			_ = fv
			g.put(mloc{g.at(c, in, ""), fmt.Sprintf(".free%d", i)}, g.of(c, in.Bindings[i]), in.Pos())
		}
		g.add(c, in, mset{mloc{g.at(c, in, ""), ""}: true})
	case *ssa.Call:
		g.call(c, in, &in.Call, in)
	case *ssa.Defer:
		g.call(c, in, &in.Call, nil)
	case *ssa.Go:
		g.call(c, in, &in.Call, nil)
	case *ssa.Return:
		rs := g.returns[c]
		if rs == nil {
			rs = make([]mset, len(in.Results))
			for i := range rs {
				rs[i] = mset{}
			}
			g.returns[c] = rs
		}
		for i, r := range in.Results {
			for l := range g.of(c, r) {
				if !rs[i][l] {
					rs[i][l] = true
					g.changed = true
				}
			}
		}
	}
}

// valueAt is what loading from a place gives: for a struct, the place itself.
func (g *points) valueAt(l mloc, t types.Type) mset {
	if composite(t) {
		return mset{l: true}
	}
	return g.get(l, t)
}

func (g *points) run() {
	for n := 0; n < 200; n++ {
		g.changed = false
		for i := 0; i < len(g.order); i++ {
			c := g.order[i]
			for _, b := range c.fn.Blocks {
				for _, in := range b.Instrs {
					g.step(c, in)
				}
			}
		}
		if !g.changed {
			return
		}
	}
}

// reach lists the objects that can be reached, with the way there.
func (g *points) reach(from mset, name string) map[*mobj]string {
	by := map[*mobj][]mloc{}
	for l := range g.mem {
		by[l.o] = append(by[l.o], l)
	}
	for _, ls := range by {
		sort.Slice(ls, func(i, j int) bool { return ls[i].path < ls[j].path })
	}
	out := map[*mobj]string{}
	type item struct {
		o *mobj
		n string
	}
	var todo []item
	for l := range from {
		if _, ok := out[l.o]; !ok {
			out[l.o] = name
			todo = append(todo, item{l.o, name})
		}
	}
	sort.Slice(todo, func(i, j int) bool { return todo[i].o.name < todo[j].o.name })
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		for _, l := range by[x.o] {
			var next []mloc
			for y := range g.mem[l] {
				next = append(next, y)
			}
			sort.Slice(next, func(i, j int) bool { return next[i].o.name+next[i].path < next[j].o.name+next[j].path })
			for _, y := range next {
				if _, ok := out[y.o]; !ok {
					out[y.o] = x.n + l.path
					todo = append(todo, item{y.o, x.n + l.path})
				}
			}
		}
	}
	return out
}

func checkF04(c *Ctx) {
	roots := 0
	var fs []*ssa.Function
	for _, f := range c.p.Funcs {
		if f.Package() == nil || c.p.Rel(f.Package().Pkg) != "frame" || f.Parent() != nil || !isExportedName(f.Name()) || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		fs = append(fs, f)
	}
	owns := func(t types.Type) bool {
		switch u := t.(type) {
		case *types.Pointer:
			n, ok := u.Elem().(*types.Named)
			return ok && (n.Obj().Name() == "Frame" || n.Obj().Name() == "Header")
		case *types.Slice:
			return true
		case *types.Named:
			return u.Obj().Name() == "Frame" || u.Obj().Name() == "Header"
		}
		return false
	}
	for _, f := range fs {
		res := f.Signature.Results()
		any := false
		for i := 0; i < res.Len(); i++ {
			any = any || owns(res.At(i).Type())
		}
		if !any {
			continue
		}
		roots++
		name := c.p.FuncName(f)
		g := &points{p: c.p, objs: map[string]*mobj{}, vals: map[mval]mset{}, mem: map[mloc]mset{}, where: map[mloc]token.Pos{}, ctxs: map[string]*mctx{}, returns: map[*mctx][]mset{}, globals: map[*mobj]bool{}}
		root := g.enter(nil, nil, f)
		params := mset{}
		for _, pr := range f.Params {
			if pointerful(pr.Type()) {
				l := mloc{g.obj(pr.Name(), pr.Pos(), true), ""}
				params[l] = true
				g.add(root, pr, mset{l: true})
			}
		}
		g.run()
		for _, x := range g.order {
			c.funcs[c.p.FuncName(x.fn)] = true
		}
		c.expl = append(c.expl, exploration{"points-to " + name, g.insts, len(g.objs), len(g.order), len(g.order)})
		old := map[*mobj]string{}
		for l := range params {
			for o, n := range g.reach(mset{l: true}, l.o.name) {
				old[o] = n
			}
		}
		for o := range g.globals {
			for x, n := range g.reach(mset{mloc{o, ""}: true}, o.name) {
				old[x] = n
			}
		}
		for i, r := range g.returns[root] {
			if !owns(res.At(i).Type()) {
				continue
			}
			c.Obl("shares nothing", fmt.Sprintf("%s result %d", name, i))
			if len(r) == 0 {
				continue
			}
			mine := g.reach(r, "the result")
			var shared []*mobj
			for o := range mine {
				if _, ok := old[o]; ok {
					shared = append(shared, o)
				}
			}
			sort.Slice(shared, func(i, j int) bool {
				return len(mine[shared[i]])+len(old[shared[i]]) < len(mine[shared[j]])+len(old[shared[j]]) || len(mine[shared[i]])+len(old[shared[i]]) == len(mine[shared[j]])+len(old[shared[j]]) && shared[i].name < shared[j].name
			})
			for _, o := range shared {
				if c.onlyNil(f, i, strings.TrimPrefix(mine[o], "the result")) {
					continue
				}
				pos := f.Pos()
				// where it became part of the result
				for l, s := range g.mem {
					if s[mloc{o, ""}] && g.where[l] != token.NoPos {
						if _, ok := mine[l.o]; ok && !l.o.old {
							pos = g.where[l]
						}
					}
				}
				c.Fail("shares nothing", name+" "+mine[o], c.p.Pos(pos), "%s (what can be reached by %s) is memory that is also reached by %s", mine[o], f.Name(), old[o])
				break
			}
		}
	}
	c.Need("functions that make frames, headers or lists", roots, 5)
}

// onlyNil tells whether what a points-to set says to be shared is, path by path, memory of its own or nil.
func (c *Ctx) onlyNil(f *ssa.Function, result int, path string) bool {
	good, exits := true, 0
	ex := NewExec(c.p, "paths of "+c.p.FuncName(f), &funcRule{on: func(s *State, e *Event) {
		if e.Kind != "exit" || len(s.frames) > 1 || result >= len(e.Args) {
			return
		}
		exits++
		t := s.val(e.Args[result])
		var own func(t *T) bool
		own = func(t *T) bool {
			t = s.val(t)
			switch {
			case s.isNil(t) == 1, t.K == KAlloc, t.K == KFresh && strings.HasPrefix(t.S, "make@"):
				return true
			case t.IsApp("slice"):
				return own(t.A[0])
			case t.IsApp("append"):
				b := s.val(t.A[0])
				return own(b) || b.IsApp("slice") && len(b.A) > 3 && b.A[3].IsInt(0)
			case t.IsApp("bytes.Clone"), t.IsApp("bytes"), t.K == KList:
				return true
			}
			b := s.bounds(s.ex.ts.App("len", types.Typ[types.Int], t))
			return t.K == KApp && strings.HasPrefix(t.S, "conv:") && b.hasHi && b.hi == 0
		}
		switch path {
		case "":
		case ".Body", ".Header", ".Header.slice":
			if s.isNil(t) == 1 {
				return
			}
			if path == ".Body" {
				t = s.peek(t, "frame.Frame.Body")
				break
			}
			t = s.peek(t, "frame.Frame.Header")
			if path != ".Header" && s.isNil(t) != 1 {
				t = s.peek(t, "frame.Header.slice")
			}
		case ".slice":
			if s.isNil(t) == 1 {
				return
			}
			t = s.peek(t, "frame.Header.slice")
		default:
			good = false
		}
		if !own(t) {
			good = false
		}
	}})
	ex.ctx = c
	ex.MaxSteps = 200000
	ex.Opts.NoModel = func(n string) bool {
		return strings.HasPrefix(n, "frame.Frame.") || strings.HasPrefix(n, "frame.Header.") || strings.HasPrefix(n, "frame.New")
	}
	ex.Run(f, nil, nil)
	return good && exits > 0 && len(ex.Undecided) == 0
}
