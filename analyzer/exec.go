package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rule observes an exploration.
type Rule interface {
	// Wants tells whether the event is kept in the trace.
	Wants(s *State, e *Event) bool
	// On is called for every event, after it has been added to the trace.
	On(s *State, e *Event)
}

// Violation is a report.
type Violation struct {
	Key   string
	Pos   string
	Msg   string
	Trace []string
}

// Exec explores the paths of a root function over abstract states.
type Exec struct {
	p         *Program
	ts        *Terms
	rule      Rule
	name      string
	ctx       *Ctx
	ctxIDs    map[string]int
	ctxCall   []ssa.Instruction
	ctxParent []int
	sites     map[siteKey]string
	work      []*State
	visited   map[string]bool
	Steps     int
	States    int
	MaxSteps  int
	Paths     int
	Inlined   map[*ssa.Function]bool
	Events    map[string]int
	Viol      []*Violation
	violSeen  map[string]bool
	Undecided []string
	undecSeen map[string]bool
	Opaque    map[string]int
	Opts      Options
	obl       map[string]int
	hot       map[string]int
	loaded    map[*T]string   // fields that unknown values were loaded from first
	loopPhi   map[*T]*ssa.Phi // unknown values that stand for loop variables
	names     map[*T]string   // field a created value was first stored in
}

// Options configure the boundary of an exploration.
type Options struct {
	ModelFrame bool                                                      // treat the frame package's API as primitive
	NoInline   func(f *ssa.Function) bool                                // treat as opaque call event
	Model      func(s *State, c *CallInfo) ([]*State, bool)              // extra call models
	Assume     func(s *State, t *T, field string)                        // invoked on values received
	Recv       func(s *State, ch, val *T, in ssa.Instruction) []*State   // protocol assumptions on received values (nil: none)
	Init       func(s *State)                                            //
	Devirt     map[string]*types.Named                                   // interfaces with a single possible dynamic type (pointer to it)
	FollowGo   func(f *ssa.Function) bool                                // explore the started goroutine from the state at the go statement
	Loads      bool                                                      // emit an event for every load of a field
	NoModel    func(name string) bool                                    // functions of the frame package that are inlined all the same
	Pre        bool                                                      // emit an event before the effects of an unknown function
	Once       func(s *State, addr *T) bool                              // nobody else calls Do: the first call on a path runs the function
	Lows       bool                                                      // keep track of counters that are never negative
	Recursion  int                                                       // how many nested activations of a function are followed
	Forget     func(cond *T) bool                                        // both ways are possible, and it does not matter which one was taken
	Given      func(field string) bool                                   // options that function values may set although they are zero; nil: all
	Callback   func(s *State, fn *T, typ types.Type) (*T, bool)          // what an unknown function value is; nil: paths on which it is called do not matter
	Unroll     func(s *State) bool                                       // follow the first rounds of loops one by one
	Steady     bool                                                      // what does not change in a round of a loop stays what it is
	LoadHook   func(s *State, addr, val *T, in ssa.Instruction) []*State // forks on loads
}

type siteKey struct {
	ctx int
	in  ssa.Instruction
}

// CallInfo describes a call being modelled.
type CallInfo struct {
	Fn    *ssa.Function
	Name  string
	Args  []*T
	Call  *ssa.CallCommon
	Instr ssa.Instruction
	Typ   types.Type
}

func NewExec(p *Program, name string, rule Rule) *Exec {
	return &Exec{p: p, ts: NewTerms(), rule: rule, name: name, ctxIDs: map[string]int{}, ctxCall: []ssa.Instruction{nil}, ctxParent: []int{-1},
		sites: map[siteKey]string{}, visited: map[string]bool{}, MaxSteps: 16000000, Inlined: map[*ssa.Function]bool{}, Events: map[string]int{},
		violSeen: map[string]bool{}, undecSeen: map[string]bool{}, Opaque: map[string]int{}, Opts: Options{ModelFrame: true}, obl: map[string]int{}, hot: map[string]int{}, names: map[*T]string{}, loopPhi: map[*T]*ssa.Phi{}, loaded: map[*T]string{}}
}

func (ex *Exec) ctxOf(parent int, call ssa.Instruction) int {
	k := strconv.Itoa(parent) + "/" + ex.site(parent, call)
	if id, ok := ex.ctxIDs[k]; ok {
		return id
	}
	id := len(ex.ctxCall)
	ex.ctxIDs[k] = id
	ex.ctxCall = append(ex.ctxCall, call)
	ex.ctxParent = append(ex.ctxParent, parent)
	return id
}

func (ex *Exec) site(ctx int, in ssa.Instruction) string {
	k := siteKey{ctx, in}
	if s, ok := ex.sites[k]; ok {
		return s
	}
	idx := 0
	for i, x := range in.Block().Instrs {
		if x == in {
			idx = i
		}
	}
	s := fmt.Sprintf("%s.%d.%d#%d", in.Parent().Name(), in.Block().Index, idx, ctx)
	ex.sites[k] = s
	return s
}

// Obl counts an obligation that was evaluated.
func (ex *Exec) Obl(rule, construct string) { ex.obl[rule+" | "+construct]++ }

// where names a construct: the function and the position independent kind of an instruction.
func (ex *Exec) where(in ssa.Instruction) string { return ex.p.FuncName(in.Parent()) }

// Bad reports a violation of a rule at a construct.
func (ex *Exec) Bad(s *State, rule, construct string, at ssa.Instruction, format string, args ...interface{}) {
	ex.Report(s, rule+" | "+construct, at, format, args...)
}

// Report records a violation, keyed by rule and construct.
func (ex *Exec) Report(s *State, key string, at ssa.Instruction, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	pos := "?"
	fn := ""
	if at != nil {
		pos = ex.p.Pos(instrPos(at))
		fn = ex.p.FuncName(at.Parent())
	}
	k := key + "|" + pos
	if ex.violSeen[k] {
		return
	}
	ex.violSeen[k] = true
	v := &Violation{Key: key, Pos: pos, Msg: msg + " (in " + fn + ", analysing " + ex.name + ")"}
	if s != nil {
		if os.Getenv("STOMPVERIF_STATE") != "" {
			fmt.Println("STATE at", key)
			s.dump()
		}
		v.Trace = ex.pathOf(s)
	}
	ex.Viol = append(ex.Viol, v)
}

func (ex *Exec) pathOf(s *State) []string {
	var out []string
	for n := s.path; n != nil; n = n.prev {
		out = append(out, ex.p.Pos(n.pos)+": "+n.note)
		if len(out) > 60 {
			out = append(out, "...")
			break
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (ex *Exec) undecided(format string, args ...interface{}) {
	m := fmt.Sprintf(format, args...)
	if !ex.undecSeen[m] {
		ex.undecSeen[m] = true
		ex.Undecided = append(ex.Undecided, m)
	}
}

// Run explores root with the given arguments (nil: unknown parameters).
func (ex *Exec) Run(root *ssa.Function, args []*T, init func(s *State)) {
	s := newState(ex)
	if args == nil {
		for _, p := range root.Params {
			args = append(args, ex.ts.Param(p.Name(), p.Type()))
		}
	}
	f := &Frame{fn: root, block: root.Blocks[0], env: map[ssa.Value]*T{}, marks: map[*ssa.BasicBlock]*loopMark{}}
	for i, p := range root.Params {
		f.env[p] = args[i]
	}
	for _, fv := range root.FreeVars {
		f.env[fv] = ex.ts.Param("free:"+fv.Name(), fv.Type())
	}
	s.frames = []*Frame{f}
	s.path = nil
	ex.Inlined[root] = true
	if init != nil {
		init(s)
	}
	if ex.Opts.Init != nil {
		ex.Opts.Init(s)
	}
	ex.work = append(ex.work, s)
	for len(ex.work) > 0 {
		s := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		ex.runState(s)
		if ex.Steps > ex.MaxSteps {
			ex.undecided("step budget exhausted while exploring %s", ex.name)
			ex.work = nil
			return
		}
	}
}

func (ex *Exec) runState(s *State) {
	for {
		if s.dead {
			return
		}
		if len(s.frames) == 0 {
			ex.Paths++
			return
		}
		ex.Steps++
		if ex.Steps > ex.MaxSteps {
			return
		}
		f := s.top()
		if f.idx >= len(f.block.Instrs) {
			return
		}
		in := f.block.Instrs[f.idx]
		next := ex.step(s, in)
		if len(next) == 0 {
			return
		}
		for _, n := range next[1:] {
			if !n.dead {
				ex.work = append(ex.work, n)
			}
		}
		s = next[0]
	}
}

func one(s *State) []*State { return []*State{s} }

// emit delivers an event to the rule.
func (ex *Exec) emit(s *State, e *Event) {
	if len(s.frames) > 0 {
		e.Ctx = s.top().ctx
		e.Depth = len(s.frames)
	}
	ex.Events[e.Kind]++
	if ex.rule == nil {
		return
	}
	if ex.rule.Wants(s, e) {
		s.trace = append(s.trace, e)
	}
	ex.rule.On(s, e)
}

func (s *State) get(v ssa.Value) *T {
	ts := s.ex.ts
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return s.zero(v.Type())
		}
		return ts.Const(v.Value, v.Type())
	case *ssa.Function:
		return ts.Func(v)
	case *ssa.Global:
		return ts.Global(v)
	case *ssa.Builtin:
		return ts.Nil()
	}
	if t, ok := s.top().env[v]; ok {
		return t
	}
	// not available: unknown value
	return ts.Param("undef:"+v.Parent().Name()+"."+v.Name(), v.Type())
}

func (s *State) set(v ssa.Value, t *T) { s.top().env[v] = t }

// jump transfers control to a successor block.
func (ex *Exec) jump(s *State, to *ssa.BasicBlock) []*State {
	if s.dead {
		return nil
	}
	f := s.top()
	from := f.block
	li := ex.p.info.live(f.fn)
	// phis
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	var vals []*T
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		x := s.get(phi.Edges[pi])
		if ex.Opts.Steady {
			if c, b, k := affine(x); c == 1 && k == 0 && b != nil {
				x = b
			}
		}
		if !x.IsConst() {
			if b, ok := phi.Type().Underlying().(*types.Basic); ok {
				if b.Info()&types.IsBoolean != 0 {
					// decided on this path
					switch s.eval(x) {
					case 1:
						x = ex.ts.Bool(true)
					case -1:
						x = ex.ts.Bool(false)
					}
				} else if li.header[to] && li.back[to][from] {
					x = s.val(x)
				}
			}
		}
		vals = append(vals, x)
	}
	same := map[*ssa.Phi]bool{}
	for i, phi := range phis {
		same[phi] = ex.Opts.Steady && f.marks[to] != nil && f.marks[to].vals[phi] == vals[i]
		f.env[phi] = vals[i]
	}
	f.prev = from
	f.block = to
	f.idx = len(phis)
	live := li.in[to]
	for v := range f.env {
		if !live[v] {
			delete(f.env, v)
		}
	}
	if li.header[to] {
		back := li.back[to][from]
		m := f.marks[to]
		if !back || m == nil || m.gen != s.gen {
			m = &loopMark{base: len(s.trace), start: len(s.trace), gen: s.gen}
			f.marks[to] = m
		}
		unroll := false
		if back && ex.Opts.Unroll != nil && m.turns < 6 && ex.Opts.Unroll(s) {
			m.turns++
			unroll = true
		}
		if back && li.few[to] {
			unroll = true // a loop that comes to its end by itself
		}
		if back && unroll {
			s.iteration(m)
		}
		if back && !unroll {
			kept := map[*T]bool{} // what has not changed in this round
			for k, v := range s.heap {
				if m.last != nil && m.last[k] == v {
					kept[k] = true
				}
			}
			// widen values that grow around the loop
			for _, phi := range phis {
				if li.grows[phi] && !same[phi] {
					t := f.env[phi]
					if t != nil && !t.IsConst() && t.K != KParam && (t.K != KFresh || ex.Opts.Lows && !strings.HasPrefix(t.S, "loop@")) {
						b := s.bounds(t)
						w := ex.ts.Fresh("loop@"+ex.site(f.ctx, phi), phi.Type())
						if s.live[w] {
							s.age(w)
							t = f.env[phi]
						}
						s.widen(t, w)
						s.live[w] = true
						f.env[phi] = w
						ex.loopPhi[w] = phi
						if b.hasLo && b.lo >= 0 && ex.Opts.Lows {
							s.atLeast(w, 0)
						}
					} else if t != nil && t.IsConst() {
						if k, num := t.Int(); num {
							w := ex.ts.Fresh("loop@"+ex.site(f.ctx, phi), phi.Type())
							if s.live[w] {
								s.age(w)
							}
							s.live[w] = true
							f.env[phi] = w
							ex.loopPhi[w] = phi
							if k >= 0 && ex.Opts.Lows {
								s.atLeast(w, 0)
							}
						}
					}
				}
			}
			for k, v := range s.heap {
				if kept[k] {
					continue // as it was in the last round
				}
				if v.size > 1 && growing(v) || k.K == KFldAddr && v.K == KConst && ex.p.info.counters[k.S] {
					w := ex.ts.Fresh("cell@"+strconv.Itoa(k.ID), v.Typ)
					if s.live[w] {
						s.rename(w, ex.ts.Aged(w))
						if ex.Opts.Steady {
							v = ex.ts.Subst(v, w, ex.ts.Aged(w), map[*T]*T{})
						}
					}
					s.live[w] = true
					if ex.Opts.Steady && growing(v) {
						s.widen(v, w) // wherever it is
					}
					if _, ok := s.heap[k]; ok {
						s.heap[k] = w
					}
				}
			}
			s.iteration(m)
		}
		if ex.Opts.Unroll != nil || ex.Opts.Steady {
			m.last = cp(s.heap)
		}
		if ex.Opts.Steady {
			m.vals = map[*ssa.Phi]*T{}
			for _, phi := range phis {
				m.vals[phi] = f.env[phi]
			}
		}
	}
	if len(to.Preds) > 1 || li.header[to] {
		s.collect()
		k := s.key()
		if ex.visited[k] {
			return nil
		}
		ex.visited[k] = true
		ex.States++
		if debugEnv != "" {
			ex.hot[f.fn.Name()+"."+strconv.Itoa(to.Index)]++
			if strings.HasPrefix(debugEnv, f.fn.Name()+"."+strconv.Itoa(to.Index)) {
				fmt.Println("=== STATE", ex.States)
				s.dump()
			}
		}
	}
	return one(s)
}

// byteLiteral gives the contents of a byte slice literal that is only passed to calls.
func (ex *Exec) byteLiteral(s *State, in *ssa.Slice, x *T) (string, bool) {
	al, ok := in.X.(*ssa.Alloc)
	if !ok || al.Comment != "slicelit" {
		return "", false
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok || arr.Len() > 64 || !types.Identical(arr.Elem().Underlying(), types.Typ[types.Uint8]) {
		return "", false
	}
	for _, r := range *in.Referrers() {
		switch r.(type) {
		case *ssa.Call, *ssa.DebugRef:
		default:
			return "", false
		}
	}
	var b []byte
	for i := int64(0); i < arr.Len(); i++ {
		k, ok := s.val(s.load(ex.ts.IdxAddr(x, ex.ts.Int(i), arr.Elem()), arr.Elem(), in)).Int()
		if !ok {
			return "", false
		}
		b = append(b, byte(k))
	}
	return string(b), true
}

// element gives an element of an array whose elements are known.
func element(x, i *T) *T {
	if n, ok := i.Int(); ok && x.IsApp("array") && n >= 0 && n < int64(len(x.A)) {
		return x.A[n]
	}
	return nil
}

// age makes room for the next value of a loop variable.
func (s *State) age(w *T) {
	a := s.ex.ts.Aged(w)
	b := s.bounds(w)
	keep := s.ex.Opts.Steady && b.hasLo && b.lo >= 0
	if keep && s.live[a] {
		b = s.bounds(a)
		keep = b.hasLo && b.lo >= 0
	}
	s.rename(w, a)
	if keep {
		s.atLeast(a, 0)
	}
}

// atLeast raises the lower bound of a number.
func (s *State) atLeast(t *T, k int64) {
	if b := s.bounds(t); b.hasLo && b.lo >= k {
		return
	}
	iv := s.ivals[t]
	iv.lo, iv.hasLo = k, true
	s.ivals[t] = iv
}

func growing(t *T) bool {
	if t.K == KApp {
		switch t.S {
		case "+", "-", "*", "append", "slice", "/":
			return true
		}
	}
	return false
}

// widen replaces a growing term (not its parts) by an unknown value.
func (s *State) widen(from, to *T) {
	if from.K == KConst || from.K == KParam || from.K == KGlobal {
		return
	}
	if from.K == KAlloc {
		return
	}
	s.rename(from, to)
}

func (ex *Exec) branch(s *State, cond *T, in *ssa.If) []*State {
	f := s.top()
	tb, fb := f.block.Succs[0], f.block.Succs[1]
	pos := instrPos(in)
	ev := func(n *State) {
		ex.emit(n, &Event{Kind: "branch", Args: []*T{cond}, Instr: in})
	}
	switch s.eval(cond) {
	case 1:
		ev(s)
		return ex.jump(s, tb)
	case -1:
		ev(s)
		return ex.jump(s, fb)
	}
	o := s.clone()
	var out []*State
	if ex.Opts.Forget != nil && ex.Opts.Forget(cond) {
		s.note(pos, "condition holds: "+cond.String())
		ev(s)
		out = append(out, ex.jump(s, tb)...)
		o.note(pos, "condition does not hold: "+cond.String())
		ev(o)
		return append(out, ex.jump(o, fb)...)
	}
	if s.assume(cond, true) {
		s.note(pos, "condition holds: "+cond.String())
		ev(s)
		out = append(out, ex.jump(s, tb)...)
	}
	if o.assume(cond, false) {
		o.note(pos, "condition does not hold: "+cond.String())
		ev(o)
		out = append(out, ex.jump(o, fb)...)
	}
	return out
}

func (ex *Exec) step(s *State, in ssa.Instruction) []*State {
	ts := ex.ts
	f := s.top()
	next := func() []*State { f.idx++; return one(s) }
	switch in := in.(type) {
	case *ssa.DebugRef:
		return next()
	case *ssa.Phi:
		return next()
	case *ssa.Alloc:
		a := s.alloc(in, "", deref(in.Type()))
		s.set(in, a)
		// a new object has zero contents
		for k := range s.heap {
			if k.Contains(a) && rootAlloc(k) == a {
				delete(s.heap, k)
			}
		}
		return next()
	case *ssa.FieldAddr:
		b := s.get(in.X)
		if s.isNil(b) == 1 {
			return ex.crash(s, in, "nilderef", b)
		}
		s.set(in, ts.FldAddr(b, ex.p.fieldName(in.X.Type(), in.Field), deref(in.Type())))
		return next()
	case *ssa.Field:
		s.set(in, s.field(s.get(in.X), in.X.Type(), in.Field))
		return next()
	case *ssa.IndexAddr:
		b := s.get(in.X)
		i := s.val(s.get(in.Index))
		if b.IsApp("slice") && b.A[0].K == KAlloc && b.A[1].IsInt(0) {
			b = b.A[0]
		}
		s.set(in, ts.IdxAddr(b, i, deref(in.Type())))
		ex.emit(s, &Event{Kind: "index", Name: "addr", Args: []*T{b, i}, Instr: in})
		return next()
	case *ssa.Index:
		if v := element(s.get(in.X), s.val(s.get(in.Index))); v != nil {
			s.set(in, v)
			return next()
		}
		s.set(in, ts.App("index", in.Type(), s.get(in.X), s.val(s.get(in.Index))))
		return next()
	case *ssa.UnOp:
		return ex.unop(s, in)
	case *ssa.BinOp:
		x, y := s.get(in.X), s.get(in.Y)
		vx, vy := s.val(x), s.val(y)
		if in.Op == token.EQL || in.Op == token.NEQ || in.Op == token.LSS || in.Op == token.GTR || in.Op == token.LEQ || in.Op == token.GEQ {
			c := ts.Bin(in.Op, x, y, in.Type())
			if !c.IsConst() && (vx != x || vy != y) {
				c2 := ts.Bin(in.Op, vx, vy, in.Type())
				if c2.IsConst() {
					c = c2
				}
			}
			s.set(in, c)
		} else {
			r := ts.Bin(in.Op, vx, vy, in.Type())
			if r.size > 40 {
				r = s.fresh("big", in, "", in.Type())
			}
			s.set(in, r)
		}
		return next()
	case *ssa.ChangeType:
		s.set(in, s.get(in.X))
		return next()
	case *ssa.ChangeInterface:
		s.set(in, s.get(in.X))
		return next()
	case *ssa.Convert:
		s.set(in, s.convert(s.get(in.X), in.X.Type(), in.Type()))
		return next()
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		s.set(in.(ssa.Value), s.fresh("cv", in, "", in.(ssa.Value).Type()))
		return next()
	case *ssa.MakeInterface:
		x := s.get(in.X)
		s.set(in, ts.Iface(in.X.Type(), x))
		return next()
	case *ssa.MakeClosure:
		var b []*T
		for _, x := range in.Bindings {
			b = append(b, s.get(x))
		}
		s.set(in, ts.Closure(in.Fn.(*ssa.Function), b))
		return next()
	case *ssa.MakeChan:
		t := s.fresh("make", in, "", in.Type())
		s.set(in, t)
		ex.emit(s, &Event{Kind: "makechan", Args: []*T{s.get(in.Size)}, Res: t, Instr: in})
		return next()
	case *ssa.MakeMap:
		t := s.fresh("make", in, "", in.Type())
		s.maps[t] = map[*T]hdrEntry{}
		delete(s.mapOpen, t)
		delete(s.mapDirt, t)
		s.set(in, t)
		return next()
	case *ssa.MakeSlice:
		t := s.fresh("make", in, "", in.Type())
		l := s.get(in.Len)
		s.set(in, t)
		ex.emit(s, &Event{Kind: "makeslice", Args: []*T{l}, Res: t, Instr: in})
		return next()
	case *ssa.Slice:
		x := s.get(in.X)
		z := ts.Int(0)
		lo, hi := z, ts.Nil()
		if in.Low != nil {
			lo = s.val(s.get(in.Low))
		}
		if in.High != nil {
			hi = s.val(s.get(in.High))
		}
		if x.K == KAlloc && in.Low == nil && in.High == nil {
			if al, ok := in.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
				if arr, ok := deref(al.Type()).Underlying().(*types.Array); ok && arr.Len() < 64 {
					var el []*T
					for i := int64(0); i < arr.Len(); i++ {
						el = append(el, s.load(ts.IdxAddr(x, ts.Int(i), arr.Elem()), arr.Elem(), in))
					}
					s.set(in, ts.List(el...))
					return next()
				}
			}
		}
		if x.K == KAlloc && in.Low == nil && in.High == nil {
			if v, ok := ex.byteLiteral(s, in, x); ok {
				s.set(in, ts.App("bytes", in.Type(), ts.Str(v)))
				return next()
			}
		}
		if v, ok := bytesOf(x); ok && lo.IsConst() && hi.IsConst() {
			l, _ := lo.Int()
			h, ok := hi.Int()
			if !ok {
				h = int64(len(v))
			}
			if l < 0 || l > h || h > int64(len(v)) {
				return ex.crash(s, in, "bounds", x)
			}
			r := ts.Str(v[l:h])
			if x.IsApp("bytes") {
				r = ts.App("bytes", in.Type(), r)
			}
			s.set(in, r)
			return next()
		}
		s.set(in, ts.App("slice", in.Type(), x, lo, hi))
		ex.emit(s, &Event{Kind: "slice", Args: []*T{x, lo, hi}, Res: s.get(in), Instr: in})
		return next()
	case *ssa.TypeAssert:
		return ex.typeAssert(s, in)
	case *ssa.Extract:
		t := s.get(in.Tuple)
		if t.K == KTuple && in.Index < len(t.A) {
			s.set(in, t.A[in.Index])
		} else {
			s.set(in, ts.App("extract"+strconv.Itoa(in.Index), in.Type(), t))
		}
		return next()
	case *ssa.Store:
		a, v := s.get(in.Addr), s.get(in.Val)
		if s.isNil(a) == 1 {
			return ex.crash(s, in, "nilderef", a)
		}
		var old *T
		if a.K == KFldAddr && !a.HasSum() {
			old = s.peek(a.A[0], a.S)
		}
		s.store(a, v, in.Val.Type())
		if a.K == KFldAddr && ex.names[v] == "" && !v.IsConst() && !v.HasSum() {
			ex.names[v] = a.S
		}
		e := &Event{Kind: "store", Args: []*T{a, v}, Instr: in}
		if a.K == KFldAddr {
			e.Name = a.S
			e.Args = []*T{a.A[0], v}
			e.X = []*T{old}
		} else if a.K == KGlobal {
			e.Name = a.S
		}
		ex.emit(s, e)
		return next()
	case *ssa.MapUpdate:
		return ex.mapUpdate(s, in)
	case *ssa.Lookup:
		return ex.lookup(s, in)
	case *ssa.Range:
		s.set(in, ts.App("range", in.Type(), s.get(in.X)))
		return next()
	case *ssa.Next:
		return ex.rangeNext(s, in)
	case *ssa.Send:
		ch, v := s.get(in.Chan), s.get(in.X)
		if s.closedC[ch] {
			return ex.crash(s, in, "sendclosed", ch)
		}
		ex.emit(s, &Event{Kind: "send", Name: ex.chanName(ch), Args: []*T{ch, v}, Instr: in, Tag: "blocking"})
		return next()
	case *ssa.Select:
		return ex.selectStmt(s, in)
	case *ssa.Go:
		ci := ex.callee(s, &in.Call, in)
		e := &Event{Kind: "go", Fn: ci.Fn, Args: ci.Args, Instr: in}
		if ci.Fn != nil {
			e.Name = ex.p.FuncName(ci.Fn)
		}
		ex.emit(s, e)
		if ci.Fn != nil && len(ci.Fn.Blocks) > 0 && ex.Opts.FollowGo != nil && ex.Opts.FollowGo(ci.Fn) {
			n := s.clone()
			nf := &Frame{fn: ci.Fn, ctx: ex.ctxOf(f.ctx, in), block: ci.Fn.Blocks[0], env: map[ssa.Value]*T{}, marks: map[*ssa.BasicBlock]*loopMark{}}
			for i, p := range ci.Fn.Params {
				nf.env[p] = ci.Args[i]
			}
			if fv := s.get(in.Call.Value); fv.K == KClosure {
				for i, b := range ci.Fn.FreeVars {
					nf.env[b] = fv.A[i]
				}
			}
			n.frames = []*Frame{nf}
			n.locks = nil
			n.path = nil
			n.resetTrace()
			ex.Inlined[ci.Fn] = true
			ex.work = append(ex.work, n)
		}
		return next()
	case *ssa.Defer:
		ci := ex.callee(s, &in.Call, in)
		var fn *T
		if !in.Call.IsInvoke() {
			fn = s.get(in.Call.Value)
		}
		f.defers = append(f.defers, deferred{call: &in.Call, fn: fn, args: ci.Args, instr: in})
		return next()
	case *ssa.RunDefers:
		if len(s.frames) == 1 {
			ex.emit(s, &Event{Kind: "rundefers", Instr: in, Fn: f.fn})
		}
		if len(f.defers) == 0 {
			return next()
		}
		// only what is used after the deferred calls stays alive
		keep := map[ssa.Value]bool{}
		for _, l := range f.block.Instrs[f.idx:] {
			for _, op := range l.Operands(nil) {
				if *op != nil {
					keep[*op] = true
				}
			}
		}
		if len(f.block.Succs) == 0 {
			for v := range f.env {
				if !keep[v] {
					delete(f.env, v)
				}
			}
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		// run the deferred call, then this instruction again
		return ex.invoke(s, d.instr, d.call, d.fn, d.args, 1)
	case *ssa.Call:
		var fn *T
		if !in.Call.IsInvoke() {
			fn = s.get(in.Call.Value)
		}
		return ex.invoke(s, in, &in.Call, fn, nil, 0)
	case *ssa.If:
		return ex.branch(s, s.get(in.Cond), in)
	case *ssa.Jump:
		return ex.jump(s, f.block.Succs[0])
	case *ssa.Return:
		return ex.ret(s, in)
	case *ssa.Panic:
		return ex.crash(s, in, "panic", s.get(in.X))
	}
	ex.undecided("unhandled instruction %T at %s", in, ex.p.Pos(instrPos(in)))
	return next()
}

func (ex *Exec) chanName(ch *T) string {
	if _, f, ok := ch.FieldOf(); ok {
		return f
	}
	if ch.Sum {
		return ex.names[ex.ts.unaged(ch)]
	}
	return ex.names[ch]
}

func (ex *Exec) crash(s *State, in ssa.Instruction, kind string, x *T) []*State {
	ex.emit(s, &Event{Kind: "crash", Name: kind, Args: []*T{x}, Instr: in})
	s.dead = true
	return nil
}

func (s *State) convert(x *T, from, to types.Type) *T {
	ts := s.ex.ts
	if x.IsConst() && x.C != nil {
		if b, ok := to.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0 && x.C.Kind() == constant.Int:
				return ts.Const(x.C, to)
			case b.Info()&types.IsFloat != 0 && (x.C.Kind() == constant.Int || x.C.Kind() == constant.Float):
				return ts.Const(constant.ToFloat(x.C), to)
			case b.Info()&types.IsString != 0 && x.C.Kind() == constant.String:
				return ts.Const(x.C, to)
			}
		}
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if x.IsApp("strconv.ParseUint#0") && ok2 && tb.Info()&types.IsInteger != 0 && rank(tb) >= 4 {
		if k, ok := x.A[2].Int(); ok && k > 0 && k <= 32 {
			return x // the number fits
		}
	}
	if ok1 && ok2 && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
		return x
	}
	if pt, ok := to.Underlying().(*types.Pointer); ok && ok1 && fb.Kind() == types.UnsafePointer && x.IsApp("conv:unsafe.Pointer") {
		// the same memory, seen as another type
		y := x.A[0]
		if y.Typ != nil && types.Identical(y.Typ, to) {
			return y
		}
		if _, ok := pt.Elem().Underlying().(*types.Basic); ok && y.K == KAlloc {
			return ts.App("reinterpret", to, y)
		}
	}
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		// widening conversions keep the value
		if rank(fb) <= rank(tb) && (fb.Info()&types.IsUnsigned == tb.Info()&types.IsUnsigned) {
			return x
		}
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		if _, ok := to.Underlying().(*types.Slice); ok {
			return ts.App("bytes", to, x)
		}
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		if x.IsApp("bytes") {
			return x.A[0]
		}
		return ts.App("string", to, x)
	}
	return ts.App("conv:"+typKey(to), to, x)
}

func rank(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 3
	case types.Int, types.Uint:
		return 4
	}
	return 5
}

func (ex *Exec) unop(s *State, in *ssa.UnOp) []*State {
	ts := ex.ts
	f := s.top()
	switch in.Op {
	case token.MUL:
		a := s.get(in.X)
		if s.isNil(a) == 1 {
			return ex.crash(s, in, "nilderef", a)
		}
		var v *T
		if a.IsApp("reinterpret") {
			// a string that shares its bytes with a slice
			v = ts.App("alias", in.Type(), s.load(a.A[0], deref(a.A[0].Typ), in))
		} else {
			v = s.load(a, in.Type(), in)
		}
		s.set(in, v)
		f.idx++
		if a.K == KFldAddr && v.K == KFresh && ex.loaded[v] == "" {
			ex.loaded[v] = a.S
		}
		if ex.Opts.Loads && a.K == KFldAddr {
			ex.emit(s, &Event{Kind: "load", Name: a.S, Args: []*T{a.A[0], v}, Instr: in})
		}
		if ex.Opts.LoadHook != nil {
			if r := ex.Opts.LoadHook(s, a, v, in); r != nil {
				return r
			}
		}
		return one(s)
	case token.NOT:
		s.set(in, ts.Not(s.get(in.X)))
	case token.ARROW:
		ch := s.get(in.X)
		ex.emit(s, &Event{Kind: "recvwait", Name: ex.chanName(ch), Args: []*T{ch}, Instr: in})
		out := ex.recv(s, ch, in.X.Type(), in, "", func(n *State, v, ok *T) {
			if in.CommaOk {
				n.set(in, ts.Tuple(v, ok))
			} else {
				n.set(in, v)
			}
			n.top().idx++
		})
		return out
	case token.SUB:
		s.set(in, ts.Bin(token.SUB, ts.Int(0), s.get(in.X), in.Type()))
	default:
		s.set(in, ts.App("un"+in.Op.String(), in.Type(), s.get(in.X)))
	}
	f.idx++
	return one(s)
}

// mayBeClosed reports whether anything closes the channel.
func (ex *Exec) mayBeClosed(ch *T, typ types.Type) bool {
	m := ex.p.info
	u := typ.Underlying().(*types.Chan)
	if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
		return false
	}
	if name := ex.chanName(ch); name != "" {
		return m.closedField[name]
	}
	for k := range m.closedField {
		if strings.HasPrefix(k, "type:") && strings.TrimPrefix(k, "type:") == typ.Underlying().String() {
			return true
		}
		if t := m.fieldType[k]; t != nil {
			if c, ok := t.Underlying().(*types.Chan); ok && types.Identical(c.Elem(), u.Elem()) {
				return true
			}
		}
	}
	return false
}

// recv produces the outcomes of a receive operation.
func (ex *Exec) recv(s *State, ch *T, typ types.Type, in ssa.Instruction, suffix string, done func(n *State, v, ok *T)) []*State {
	ts := ex.ts
	elem := typ.Underlying().(*types.Chan).Elem()
	if s.isNil(ch) == 1 {
		ex.emit(s, &Event{Kind: "blocked", Args: []*T{ch}, Instr: in})
		s.dead = true
		return nil
	}
	var out []*State
	var c *State
	if s.closedC[ch] || ex.mayBeClosed(ch, typ) {
		c = s.clone()
		c.note(instrPos(in), "channel closed: "+ch.String())
		e := &Event{Kind: "recvclosed", Name: ex.chanName(ch), Args: []*T{ch}, Instr: in}
		ex.emit(c, e)
		done(c, c.zero(elem), ts.Bool(false))
	}
	if !s.closedC[ch] {
		v := s.fresh("recv", in, suffix, elem)
		s.note(instrPos(in), "received from "+ch.String())
		alts := one(s)
		if ex.Opts.Recv != nil {
			if a := ex.Opts.Recv(s, ch, v, in); a != nil {
				alts = a
			}
		}
		for _, n := range alts {
			ex.emit(n, &Event{Kind: "recv", Name: ex.chanName(ch), Args: []*T{ch}, Res: v, Instr: in})
			done(n, v, ts.Bool(true))
			out = append(out, n)
		}
	}
	if c != nil {
		out = append(out, c)
	}
	return out
}

func (ex *Exec) selectStmt(s *State, in *ssa.Select) []*State {
	ts := ex.ts
	f := s.top()
	e := &Event{Kind: "select", Instr: in}
	if in.Blocking {
		e.Tag = "blocking"
	}
	for _, st := range in.States {
		e.Args = append(e.Args, s.get(st.Chan))
		if st.Dir == types.SendOnly {
			e.X = append(e.X, ts.Bool(true))
		} else {
			e.X = append(e.X, ts.Bool(false))
		}
	}
	ex.emit(s, e)
	_ = f
	// result tuple: index, recvOk, recv values in order of receive states
	mk := func(n *State, idx int, ok *T, ri int, v *T) {
		res := []*T{ts.Int(int64(idx)), ok}
		k := 0
		for _, st := range in.States {
			if st.Dir == types.RecvOnly {
				elem := st.Chan.Type().Underlying().(*types.Chan).Elem()
				if k == ri && v != nil {
					res = append(res, v)
				} else {
					res = append(res, n.zero(elem))
				}
				k++
			}
		}
		n.set(in, ts.Tuple(res...))
		n.top().idx++
	}
	var out []*State
	ri := 0
	enabled := 0
	for i, st := range in.States {
		ch := s.get(st.Chan)
		r := ri
		if st.Dir == types.RecvOnly {
			ri++
		}
		if s.isNil(ch) == 1 {
			continue
		}
		enabled++
		n := s.clone()
		idx := i
		if st.Dir == types.SendOnly {
			if n.closedC[ch] {
				ex.crash(n, in, "sendclosed", ch)
				continue
			}
			n.note(in.Pos(), "select: send on "+ch.String())
			ex.emit(n, &Event{Kind: "send", Name: ex.chanName(ch), Args: []*T{ch, n.get(st.Send)}, Instr: in, Tag: "select"})
			mk(n, idx, ts.Bool(false), -1, nil)
			out = append(out, n)
			continue
		}
		out = append(out, ex.recv(n, ch, st.Chan.Type(), in, "."+strconv.Itoa(i), func(m *State, v, ok *T) {
			mk(m, idx, ok, r, v)
		})...)
	}
	if !in.Blocking {
		n := s
		n.note(in.Pos(), "select: default")
		ex.emit(n, &Event{Kind: "default", Instr: in, Args: e.Args})
		mk(n, -1, ts.Bool(false), -1, nil)
		out = append(out, n)
	} else if enabled == 0 {
		ex.emit(s, &Event{Kind: "blocked", Instr: in})
	}
	// the fresh values of alternatives are independent
	return out
}

func (ex *Exec) typeAssert(s *State, in *ssa.TypeAssert) []*State {
	ts := ex.ts
	x := s.get(in.X)
	f := s.top()
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	fin := func(n *State, ok bool) {
		v := x
		if !toIface {
			v = x.Un()
		}
		if in.CommaOk {
			if !ok {
				v = n.zero(in.AssertedType)
			}
			n.set(in, ts.Tuple(v, ts.Bool(ok)))
		} else {
			n.set(in, v)
		}
		n.top().idx++
	}
	_ = f
	if x.K == KIface && !toIface {
		same := types.Identical(x.Typ, in.AssertedType)
		if !same && !in.CommaOk {
			return ex.crash(s, in, "typeassert", x)
		}
		fin(s, same)
		return one(s)
	}
	if x.K == KIface && toIface {
		if types.Implements(x.Typ, in.AssertedType.Underlying().(*types.Interface)) {
			fin(s, true)
			return one(s)
		}
	}
	if !in.CommaOk {
		ex.emit(s, &Event{Kind: "assert", Name: typKey(in.AssertedType), Args: []*T{x}, Instr: in})
		fin(s, true)
		return one(s)
	}
	c := ts.App("is:"+typKey(in.AssertedType), types.Typ[types.Bool], x)
	switch s.eval(c) {
	case 1:
		fin(s, true)
		return one(s)
	case -1:
		fin(s, false)
		return one(s)
	}
	n := s.clone()
	s.assume(c, true)
	s.assume(ts.Bin(token.EQL, x, ts.Nil(), nil), false)
	fin(s, true)
	n.assume(c, false)
	fin(n, false)
	return []*State{s, n}
}

// ---- maps ----

func (s *State) mapEntries(m *T) map[*T]hdrEntry {
	e, ok := s.maps[m]
	if !ok {
		e = map[*T]hdrEntry{}
		s.maps[m] = e
		s.mapOpen[m] = true
	}
	return e
}

func mayEqual(a, b *T) bool {
	if a == b {
		return true
	}
	return !(a.IsConst() && b.IsConst())
}

func (ex *Exec) mapUpdate(s *State, in *ssa.MapUpdate) []*State {
	m, k, v := s.get(in.Map), s.val(s.get(in.Key)), s.get(in.Value)
	if s.isNil(m) == 1 {
		return ex.crash(s, in, "nilmap", m)
	}
	had := s.mapKnown(m, k)
	e := &Event{Kind: "mapset", Name: ex.chanName(m), Args: []*T{m, k, v}, Instr: in}
	switch had {
	case 1:
		e.Tag = "replace"
	case -1:
		e.Tag = "new"
	}
	s.mapPut(m, k, hdrEntry{true, v})
	ex.emit(s, e)
	s.top().idx++
	return one(s)
}

func (s *State) mapPut(m, k *T, e hdrEntry) {
	if m.HasSum() {
		return
	}
	es := s.mapEntries(m)
	for o := range es {
		if o != k && mayEqual(o, k) && s.equals(o, k) != -1 {
			delete(es, o)
			s.mapOpen[m] = true
		}
	}
	s.mapDirt[m] = true
	if !k.HasSum() {
		es[k] = e
	} else {
		s.mapOpen[m] = true
	}
}

// mapKnown: 1 present, -1 absent, 0 unknown.
func (s *State) mapKnown(m, k *T) int {
	if m.IsNil() {
		return -1
	}
	if e, ok := s.maps[m][k]; ok {
		if e.present {
			return 1
		}
		return -1
	}
	if es, ok := s.maps[m]; ok && !s.mapOpen[m] {
		for o := range es {
			if mayEqual(o, k) {
				return 0
			}
		}
		return -1
	}
	return 0
}

func (ex *Exec) lookup(s *State, in *ssa.Lookup) []*State {
	ts := ex.ts
	mt, isMap := in.X.Type().Underlying().(*types.Map)
	if !isMap {
		s.set(in, ts.App("index", in.Type(), s.get(in.X), s.val(s.get(in.Index))))
		s.top().idx++
		return one(s)
	}
	m, k := s.get(in.X), s.val(s.get(in.Index))
	if gc := s.constMap(m); gc != nil && len(gc.list) <= 40 {
		return ex.constLookup(s, in, gc, m, k, mt)
	}
	fin := func(n *State, present bool, v *T) {
		tag := "absent"
		if present {
			tag = "present"
		}
		if !present {
			v = n.zero(mt.Elem())
		}
		if in.CommaOk {
			n.set(in, ts.Tuple(v, ts.Bool(present)))
		} else {
			n.set(in, v)
		}
		name := ex.chanName(m)
		if ld, ok := in.X.(*ssa.UnOp); ok && name == "" {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok {
				if a := n.get(fa); a.K == KFldAddr {
					name = a.S
				}
			}
		}
		ex.emit(n, &Event{Kind: "maplookup", Name: name, Args: []*T{m, k}, Res: v, Tag: tag, Instr: in})
		n.top().idx++
	}
	if s.isNil(m) == 1 {
		fin(s, false, nil)
		return one(s)
	}
	switch s.mapKnown(m, k) {
	case 1:
		fin(s, true, s.maps[m][k].val)
		return one(s)
	case -1:
		fin(s, false, nil)
		return one(s)
	}
	if keys := s.table(m); keys != nil && !k.HasSum() {
		// one of a few known entries
		var out []*State
		for _, o := range keys {
			eq := ts.Bin(token.EQL, k, o, nil)
			n := s.clone()
			if n.assume(eq, true) {
				e := n.maps[m][o]
				n.note(instrPos(in), "present in map: "+o.String())
				fin(n, e.present, e.val)
				out = append(out, n)
			}
			if !s.assume(eq, false) {
				return out
			}
		}
		s.note(instrPos(in), "absent from map: "+k.String())
		fin(s, false, nil)
		return append(out, s)
	}
	n := s.clone()
	var v *T
	if s.mapDirt[m] || m.HasSum() || k.HasSum() {
		v = s.fresh("mapv", in, "", mt.Elem())
	} else {
		v = ts.App("lookup", mt.Elem(), m, k)
	}
	if !m.HasSum() && !k.HasSum() {
		s.mapEntries(m)[k] = hdrEntry{true, v}
		n.mapEntries(m)[k] = hdrEntry{}
	}
	if _, isPtr := mt.Elem().Underlying().(*types.Pointer); isPtr {
		s.assume(ts.Bin(token.EQL, v, ts.Nil(), nil), false)
	}
	s.note(instrPos(in), "present in map: "+k.String())
	n.note(instrPos(in), "absent from map: "+k.String())
	fin(s, true, v)
	fin(n, false, nil)
	return []*State{s, n}
}

// table gives the keys of a map of functions all of whose entries are known.
func (s *State) table(m *T) []*T {
	es := s.maps[m]
	if len(es) == 0 || len(es) > 40 || s.mapOpen[m] {
		return nil
	}
	var keys []*T
	for k, e := range es {
		if !k.IsConst() || e.present && (e.val.K != KFunc && e.val.K != KClosure) {
			return nil
		}
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
	return keys
}

func (ex *Exec) rangeNext(s *State, in *ssa.Next) []*State {
	ts := ex.ts
	it := s.get(in.Iter)
	tup := in.Type().(*types.Tuple)
	x := it
	if it.IsApp("range") {
		x = it.A[0]
	}
	f := s.top()
	fin := func(n *State, ok bool, k, v *T) {
		if !ok {
			k, v = ts.Nil(), ts.Nil()
		}
		n.set(in, ts.Tuple(ts.Bool(ok), k, v))
		tag := "end"
		if ok {
			tag = "next"
		}
		ex.emit(n, &Event{Kind: "range", Name: ex.chanName(x), Args: []*T{x, k, v}, Tag: tag, Instr: in})
		n.top().idx++
	}
	if s.isNil(x) == 1 {
		fin(s, false, nil, nil)
		return one(s)
	}
	if es, ok := s.maps[x]; ok && !s.mapOpen[x] && len(es) == 0 {
		fin(s, false, nil, nil)
		return one(s)
	}
	n := s.clone()
	_ = f
	k := s.fresh("rk", in, "", tup.At(1).Type())
	v := s.fresh("rv", in, "", tup.At(2).Type())
	if pt := tup.At(2).Type(); pt != nil {
		if _, isPtr := pt.Underlying().(*types.Pointer); isPtr {
			s.assume(ts.Bin(token.EQL, v, ts.Nil(), nil), false)
		}
	}
	if !in.IsString {
		s.mapEntries(x)[k] = hdrEntry{true, v}
	}
	s.note(instrPos(in), "next element of "+x.String())
	n.note(instrPos(in), "no more elements of "+x.String())
	fin(s, true, k, v)
	fin(n, false, nil, nil)
	return []*State{s, n}
}

// ---- calls ----

func (ex *Exec) callee(s *State, c *ssa.CallCommon, in ssa.Instruction) *CallInfo {
	ci := &CallInfo{Call: c, Instr: in}
	for _, a := range c.Args {
		ci.Args = append(ci.Args, s.get(a))
	}
	if c.IsInvoke() {
		ci.Args = append([]*T{s.get(c.Value)}, ci.Args...)
		return ci
	}
	if f := c.StaticCallee(); f != nil {
		ci.Fn = f
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			_ = mc
		}
	} else {
		t := s.get(c.Value)
		if t.K == KFunc || t.K == KClosure {
			ci.Fn = t.V.(*ssa.Function)
		}
	}
	return ci
}

// finish assigns the result of a call and continues.
func (ex *Exec) finish(s *State, in ssa.Instruction, kind int, res *T) {
	if v, ok := in.(ssa.Value); ok && kind == 0 {
		if res == nil {
			res = ex.ts.Nil()
		}
		s.set(v, res)
	}
	if kind == 0 {
		s.top().idx++
	}
	// deferred calls: RunDefers is executed again
}

func resultType(c *ssa.CallCommon) types.Type {
	r := c.Signature().Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return r.At(0).Type()
	}
	return r
}

// freshResult makes unknown results.
func (s *State) freshResult(prefix string, in ssa.Instruction, c *ssa.CallCommon) *T {
	r := c.Signature().Results()
	switch r.Len() {
	case 0:
		return s.ex.ts.Nil()
	case 1:
		return s.fresh(prefix, in, "", r.At(0).Type())
	}
	var a []*T
	for i := 0; i < r.Len(); i++ {
		a = append(a, s.fresh(prefix, in, "."+strconv.Itoa(i), r.At(i).Type()))
	}
	return s.ex.ts.Tuple(a...)
}

func (ex *Exec) invoke(s *State, in ssa.Instruction, c *ssa.CallCommon, fn *T, args []*T, kind int) []*State {
	ts := ex.ts
	if args == nil {
		ci := ex.callee(s, c, in)
		args = ci.Args
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return ex.builtin(s, in, c, b, args, kind)
	}
	if c.IsInvoke() {
		recv := args[0]
		if recv.K == KIface {
			if m := ex.p.Prog.LookupMethod(recv.Typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				na := append([]*T{recv.A[0]}, args[1:]...)
				return ex.callFn(s, in, c, m, nil, na, kind)
			}
		}
		if s.isNil(recv) == 1 {
			return ex.crash(s, in, "nilcall", recv)
		}
		name := ifaceName(c)
		if dt := ex.Opts.Devirt[strings.TrimSuffix(name, "."+c.Method.Name())]; dt != nil && recv.K != KIface {
			pt := types.NewPointer(dt)
			if m := ex.p.Prog.LookupMethod(pt, c.Method.Pkg(), c.Method.Name()); m != nil {
				return ex.callFn(s, in, c, m, nil, args, kind)
			}
		}
		if c.Method.Name() == "Error" && c.Signature().Params().Len() == 0 {
			ex.finish(s, in, kind, ts.App("Error", types.Typ[types.String], recv))
			return one(s)
		}
		ci := &CallInfo{Name: name, Args: args, Call: c, Instr: in, Typ: resultType(c)}
		if ex.Opts.Model != nil {
			if r, ok := ex.Opts.Model(s, ci); ok {
				return r
			}
		}
		e := &Event{Kind: "invoke", Name: name, Args: args, Instr: in}
		res := s.freshResult("inv", in, c)
		e.Res = res
		s.note(instrPos(in), "call "+name)
		ex.emit(s, e)
		if ex.Opts.Assume != nil {
			ex.Opts.Assume(s, res, name)
		}
		ex.finish(s, in, kind, res)
		return one(s)
	}
	var target *ssa.Function
	var binds []*T
	switch {
	case fn != nil && fn.K == KFunc:
		target = fn.V.(*ssa.Function)
	case fn != nil && fn.K == KClosure:
		target = fn.V.(*ssa.Function)
		binds = fn.A
	}
	if target != nil {
		return ex.callFn(s, in, c, target, binds, args, kind)
	}
	// a function value that is not known on this path
	if fn != nil && ex.Opts.Callback != nil {
		if f, ok := ex.Opts.Callback(s, fn, c.Value.Type()); ok {
			if f == nil {
				return nil // none that is looked at
			}
			if f.K == KFunc {
				return ex.callFn(s, in, c, f.V.(*ssa.Function), nil, args, kind)
			}
			return ex.callFn(s, in, c, f.V.(*ssa.Function), f.A, args, kind)
		}
	}
	if fn != nil {
		if s.isNil(fn) == 1 {
			return ex.crash(s, in, "nilcall", fn)
		}
		if base, field, ok := fn.FieldOf(); ok {
			cands := ex.p.info.fieldFuncs[field]
			if len(cands) > 0 && !ex.p.info.fieldSeeds[field] {
				var out []*State
				for i, cf := range cands {
					n := s
					if i < len(cands)-1 {
						n = s.clone()
					}
					n.note(instrPos(in), "calling "+cf.Name())
					// remember which one it is
					if !base.HasSum() {
						n.heap[ts.FldAddr(base, field, fn.Typ)] = ts.Func(cf)
					}
					var b []*T
					for _, fv := range cf.FreeVars {
						b = append(b, ts.Param("free:"+cf.Name()+"."+fv.Name(), fv.Type()))
					}
					out = append(out, ex.callFn(n, in, c, cf, b, args, kind)...)
				}
				return out
			}
		}
	}
	e := &Event{Kind: "callback", Args: append([]*T{fn}, args...), Instr: in}
	s.note(instrPos(in), "call of a function value")
	if ex.Opts.Pre {
		ex.emit(s, &Event{Kind: "callbackpre", Args: e.Args, Instr: in})
	}
	ex.effects(s, c, args, in)
	res := s.freshResult("cb", in, c)
	e.Res = res
	ex.emit(s, e)
	ex.finish(s, in, kind, res)
	return one(s)
}

func ifaceName(c *ssa.CallCommon) string {
	t := typKey(c.Value.Type())
	if i := strings.LastIndex(t, "/"); i >= 0 {
		t = t[i+1:]
	}
	return t + "." + c.Method.Name()
}

// effects applies what an unknown function of this signature may do to its arguments.
func (ex *Exec) effects(s *State, c *ssa.CallCommon, args []*T, in ssa.Instruction) {
	sig := c.Signature()
	for f := range ex.p.info.addrTaken {
		if types.Identical(f.Signature, sig) || f.Signature.Recv() == nil && types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
			for name := range ex.p.info.writes(f) {
				// fields that still have their zero value
				if j := strings.LastIndexByte(name, '.'); j > 0 && (ex.Opts.Given == nil || ex.Opts.Given(name)) {
					var bases []*T
					for k := range s.heap {
						if k.K == KFldAddr && k.A[0].K == KAlloc && strings.HasPrefix(k.S, name[:j+1]) && !strings.Contains(k.S[j+1:], ".") {
							if a := ts(s).FldAddr(k.A[0], name, ex.p.info.fieldType[name]); s.heap[a] == nil {
								bases = append(bases, a)
							}
						}
					}
					for _, a := range bases {
						s.heap[a] = ts(s).Nil() // replaced below
					}
				}
				for k := range s.heap {
					if k.K == KFldAddr && k.S == name {
						delete(s.heap, k)
						w := s.fresh("cbw:"+name, in, "", ex.p.info.fieldType[name])
						s.heap[k] = w
					}
				}
				s.dirty[name] = true
			}
		}
	}
	ep := s.fresh("cbe", in, "", nil)
	for _, a := range args {
		if a.Typ == nil {
			continue
		}
		tk := typKey(a.Typ)
		_ = tk
		if ex.isFrame(a) {
			ha := ts(s).FldAddr(a, ex.frameField("Header"), nil)
			h := s.load(ha, ex.headerPtr(), in)
			s.hdrHavoc(h, ep)
			for _, fl := range []string{"Command", "Body"} {
				a := ts(s).FldAddr(a, ex.frameField(fl), nil)
				if _, ok := s.heap[a]; ok {
					s.heap[a] = s.fresh("cbf"+fl, in, "", ex.p.info.fieldType[ex.frameField(fl)])
				}
			}
		}
	}
}

func ts(s *State) *Terms { return s.ex.ts }

func (ex *Exec) frameField(n string) string { return "frame.Frame." + n }
func (ex *Exec) headerPtr() types.Type {
	if n := ex.p.NamedType("frame", "Header"); n != nil {
		return types.NewPointer(n)
	}
	return nil
}

func (ex *Exec) isFrame(t *T) bool {
	if t.Typ == nil {
		return false
	}
	n, ok := deref(t.Typ).(*types.Named)
	return ok && n.Obj().Name() == "Frame" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/frame")
}

// writes: fields stored to by a function or what it calls.
func (m *modInfo) writes(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for g := range m.Reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if _, isAlloc := fa.X.(*ssa.Alloc); !isAlloc {
							out[m.p.fieldName(fa.X.Type(), fa.Field)] = true
						}
					}
				}
			}
		}
	}
	return out
}

func (ex *Exec) callFn(s *State, in ssa.Instruction, c *ssa.CallCommon, target *ssa.Function, binds, args []*T, kind int) []*State {
	name := ex.p.canonName(target)
	ci := &CallInfo{Fn: target, Name: name, Args: args, Call: c, Instr: in, Typ: resultType(c)}
	fin := func(n *State, res *T) []*State {
		ex.finish(n, in, kind, res)
		return one(n)
	}
	if ex.Opts.Model != nil {
		if r, ok := ex.Opts.Model(s, ci); ok {
			return r
		}
	}
	if r, ok := ex.model(s, ci, kind); ok {
		return r
	}
	own := ex.p.Own(target) && len(target.Blocks) > 0
	if target.Synthetic != "" && len(target.Blocks) > 0 && (target.Pkg == nil || own) {
		own = true
	}
	if own && (ex.Opts.NoInline == nil || !ex.Opts.NoInline(target)) {
		depth := 0
		for _, fr := range s.frames {
			if fr.fn == target {
				depth++
			}
		}
		if depth <= ex.Opts.Recursion && len(s.frames) < 40 {
			ex.Inlined[target] = true
			ex.emit(s, &Event{Kind: "call", Name: name, Fn: target, Args: args, Instr: in})
			nf := &Frame{fn: target, ctx: ex.ctxOf(s.top().ctx, in), block: target.Blocks[0], env: map[ssa.Value]*T{}, call: in, kind: kind, marks: map[*ssa.BasicBlock]*loopMark{}}
			for i, p := range target.Params {
				if i < len(args) {
					nf.env[p] = args[i]
				}
			}
			for i, fv := range target.FreeVars {
				if i < len(binds) {
					nf.env[fv] = binds[i]
				} else {
					nf.env[fv] = ex.ts.Param("free:"+target.Name()+"."+fv.Name(), fv.Type())
				}
			}
			s.frames = append(s.frames, nf)
			return one(s)
		}
		// recursive call: its effects on fields are forgotten
		e := &Event{Kind: "recursive", Name: name, Fn: target, Args: args, Instr: in}
		res := s.freshResult("rec", in, c)
		e.Res = res
		ex.emit(s, e)
		for w := range ex.p.info.writes(target) {
			for k := range s.heap {
				if k.K == KFldAddr && k.S == w && !ex.p.info.immutable[w] && rootAlloc(k).K != KAlloc {
					// keep: the same values are explored by the outer activation
					_ = k
				}
			}
		}
		return fin(s, res)
	}
	if !own || own {
		e := &Event{Kind: "call", Name: name, Fn: target, Args: args, Instr: in, Tag: "opaque"}
		ex.Opaque[name]++
		res := s.freshResult("ret", in, c)
		e.Res = res
		s.note(instrPos(in), "call "+name)
		ex.emit(s, e)
		return fin(s, res)
	}
	return fin(s, nil)
}

// canonName names a function: "pkg.Func" or "pkg.Type.Method" (package path relative for own packages).
func (p *Program) canonName(f *ssa.Function) string {
	if f.Object() == nil {
		return p.FuncName(f)
	}
	pk := ""
	if f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Path()
		if pk == p.Module || strings.HasPrefix(pk, p.Module+"/") {
			pk = p.Rel(f.Object().Pkg())
		}
	}
	if r := f.Signature.Recv(); r != nil {
		if n, ok := deref(r.Type()).(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pk + "." + f.Name()
}

func (ex *Exec) ret(s *State, in *ssa.Return) []*State {
	f := s.top()
	var vals []*T
	for _, r := range in.Results {
		vals = append(vals, s.get(r))
	}
	if len(s.frames) == 1 {
		ex.emit(s, &Event{Kind: "exit", Args: vals, Instr: in, Fn: f.fn})
		s.frames = nil
		ex.Paths++
		s.dead = true
		return nil
	}
	ex.emit(s, &Event{Kind: "return", Name: ex.p.canonName(f.fn), Fn: f.fn, Args: vals, Instr: in})
	var res *T
	switch len(vals) {
	case 0:
		res = ex.ts.Nil()
	case 1:
		res = vals[0]
	default:
		res = ex.ts.Tuple(vals...)
	}
	s.frames = s.frames[:len(s.frames)-1]
	ex.finish(s, f.call, f.kind, res)
	return one(s)
}

func (ex *Exec) builtin(s *State, in ssa.Instruction, c *ssa.CallCommon, b *ssa.Builtin, args []*T, kind int) []*State {
	ts := ex.ts
	var res *T
	switch b.Name() {
	case "len", "cap":
		x := args[0]
		res = ts.App(b.Name(), types.Typ[types.Int], x)
		if x.K == KList && b.Name() == "len" {
			res = ts.Int(int64(len(x.A)))
		}
		if x.IsApp("append") && b.Name() == "len" && ex.Opts.Unroll != nil {
			if l, ok := listItems(x); ok {
				res = ts.Int(int64(len(l)))
				break
			}
		}
		if v, ok := bytesOf(x); ok && b.Name() == "len" {
			res = ts.Int(int64(len(v)))
		}
		if x.IsNil() {
			res = ts.Int(0)
		}
		if x.IsApp("slice") && x.A[0].K == KAlloc && x.A[1].IsInt(0) && x.A[2].IsNil() {
			if arr, ok := deref(x.A[0].Typ).Underlying().(*types.Array); ok {
				res = ts.Int(arr.Len())
			}
		}
		if _, isMap := c.Args[0].Type().Underlying().(*types.Map); isMap || isChan(c.Args[0].Type()) {
			if es, ok := s.maps[x]; ok && !s.mapOpen[x] && len(es) == 0 {
				res = ts.Int(0)
			} else if !x.IsNil() {
				res = s.fresh("len", in, "", types.Typ[types.Int])
				s.assume(ts.Bin(token.LSS, res, ts.Int(0), nil), false)
			}
		}
	case "append":
		if ex.Opts.Steady && len(args) == 2 && args[1].IsNil() {
			res = args[0] // nothing is added
			break
		}
		res = ts.App("append", c.Signature().Results().At(0).Type(), args...)
		if res.size > 60 {
			res = s.fresh("append", in, "", c.Signature().Results().At(0).Type())
		}
		ex.emit(s, &Event{Kind: "append", Args: args, Res: res, Instr: in})
	case "copy":
		ex.emit(s, &Event{Kind: "copy", Args: args, Instr: in})
		res = s.fresh("copy", in, "", types.Typ[types.Int])
	case "close":
		ch := args[0]
		if s.closedC[ch] {
			return ex.crash(s, in, "closeclosed", ch)
		}
		if s.isNil(ch) == 1 {
			return ex.crash(s, in, "closenil", ch)
		}
		if !ch.HasSum() {
			s.closedC[ch] = true
		}
		s.note(instrPos(in), "close "+ch.String())
		ex.emit(s, &Event{Kind: "close", Name: ex.chanName(ch), Args: []*T{ch}, Instr: in})
	case "delete":
		m, k := args[0], s.val(args[1])
		e := &Event{Kind: "mapdel", Name: ex.chanName(m), Args: []*T{m, k}, Instr: in}
		if !m.IsNil() {
			s.mapPut(m, k, hdrEntry{})
		}
		ex.emit(s, e)
	case "panic":
		return ex.crash(s, in, "panic", args[0])
	case "print", "println", "recover":
		res = ts.Nil()
	case "min", "max":
		res = ts.App(b.Name(), c.Signature().Results().At(0).Type(), args...)
	default:
		res = s.freshResult("bi", in, c)
	}
	ex.finish(s, in, kind, res)
	return one(s)
}

func isChan(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }

// dump prints the explored behaviour, for development.
func (e *Event) String() string {
	var a []string
	for _, x := range e.Args {
		a = append(a, x.String())
	}
	r := ""
	if e.Res != nil {
		r = " -> " + e.Res.String()
	}
	x := ""
	if len(e.X) > 0 {
		var b []string
		for _, y := range e.X {
			b = append(b, y.String())
		}
		x = " {" + strings.Join(b, ", ") + "}"
	}
	return e.Kind + " " + e.Name + " " + e.Tag + "(" + strings.Join(a, ", ") + ")" + r + x
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

var debugEnv = os.Getenv("STOMPVERIF_DEBUG")
