package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is an observable action on a path.
type Event struct {
	Kind  string // call invoke callback store send recv recvclosed select default close go panic lock unlock mapset mapdel return exit blocked ...
	Name  string // canonical name of the callee, the stored field, the channel field
	Fn    *ssa.Function
	Args  []*T
	Res   *T
	X     []*T // values snapshotted by the rule
	Tag   string
	Instr ssa.Instruction
	Ctx   int
	Depth int // depth of the frame stack
}

type hdrEntry struct {
	present bool
	val     *T
}

type hdrState struct {
	closed bool // keys without an entry are absent
	epoch  *T
	e      map[*T]hdrEntry
}

type ival struct {
	lo, hi       int64
	hasLo, hasHi bool
}

type listState struct {
	known bool
	empty bool
	front *T
	back  *T
}

type deferred struct {
	call  *ssa.CallCommon
	fn    *T
	args  []*T
	instr ssa.Instruction
}

type loopMark struct {
	last        map[*T]*T       // memory at the start of the last round
	vals        map[*ssa.Phi]*T // and the variables
	turns       int             // rounds followed one by one
	base, start int
	segs        []loopSeg
	gen         int
}

// loopSeg is a distinct iteration kept in the trace.
type loopSeg struct {
	key string
	n   int
}

// Frame is an activation of a function.
type Frame struct {
	fn     *ssa.Function
	ctx    int
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]*T
	defers []deferred
	call   ssa.Instruction // call site in the caller (nil for roots)
	kind   int             // 0 ordinary call, 1 deferred call
	marks  map[*ssa.BasicBlock]*loopMark
}

type pathNode struct {
	prev *pathNode
	pos  token.Pos
	note string
	fn   *ssa.Function
	n    int
}

// State is an abstract machine state.
type State struct {
	ex      *Exec
	frames  []*Frame
	heap    map[*T]*T
	dirty   map[string]bool
	eqc     map[*T]*T
	nec     map[*T]map[*T]bool
	bools   map[*T]bool
	ivals   map[*T]ival
	hdr     map[*T]*hdrState
	maps    map[*T]map[*T]hdrEntry // map contents known on this path
	mapOpen map[*T]bool            // map has unknown further contents
	mapDirt map[*T]bool            // map was changed on this path (values of unknown entries are not those of before)
	lists   map[*T]listState
	removed map[*T]bool
	locks   []*T
	closedC map[*T]bool
	cells   map[string]*T
	trace   []*Event
	gen     int         // generation of trace resets
	live    map[*T]bool // fresh and alloc terms in use
	path    *pathNode
	dead    bool
}

func newState(ex *Exec) *State {
	return &State{ex: ex, heap: map[*T]*T{}, dirty: map[string]bool{}, eqc: map[*T]*T{}, nec: map[*T]map[*T]bool{}, bools: map[*T]bool{},
		ivals: map[*T]ival{}, hdr: map[*T]*hdrState{}, maps: map[*T]map[*T]hdrEntry{}, mapOpen: map[*T]bool{}, mapDirt: map[*T]bool{},
		lists: map[*T]listState{}, removed: map[*T]bool{}, closedC: map[*T]bool{}, cells: map[string]*T{}, live: map[*T]bool{}}
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*T, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	n.marks = make(map[*ssa.BasicBlock]*loopMark, len(f.marks))
	for k, v := range f.marks {
		m := *v
		m.segs = append([]loopSeg(nil), v.segs...)
		n.marks[k] = &m
	}
	return &n
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.heap = cp(s.heap)
	n.dirty = cp(s.dirty)
	n.eqc = cp(s.eqc)
	n.nec = make(map[*T]map[*T]bool, len(s.nec))
	for k, v := range s.nec {
		n.nec[k] = cp(v)
	}
	n.bools = cp(s.bools)
	n.ivals = cp(s.ivals)
	n.hdr = make(map[*T]*hdrState, len(s.hdr))
	for k, v := range s.hdr {
		n.hdr[k] = &hdrState{v.closed, v.epoch, cp(v.e)}
	}
	n.maps = make(map[*T]map[*T]hdrEntry, len(s.maps))
	for k, v := range s.maps {
		n.maps[k] = cp(v)
	}
	n.mapOpen = cp(s.mapOpen)
	n.mapDirt = cp(s.mapDirt)
	n.lists = cp(s.lists)
	n.removed = cp(s.removed)
	n.locks = append([]*T(nil), s.locks...)
	n.closedC = cp(s.closedC)
	n.cells = cp(s.cells)
	n.trace = append([]*Event(nil), s.trace...)
	n.live = cp(s.live)
	return &n
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) note(pos token.Pos, note string) {
	n := 0
	if s.path != nil {
		n = s.path.n + 1
	}
	s.path = &pathNode{prev: s.path, pos: pos, note: note, fn: s.top().fn, n: n}
}

// ---- hashing ----

type hb struct{ b []byte }

func (h *hb) s(x string) { h.b = append(h.b, x...); h.b = append(h.b, '|') }
func (h *hb) i(x int)    { h.b = strconv.AppendInt(h.b, int64(x), 36); h.b = append(h.b, ',') }
func (h *hb) t(x *T) {
	if x == nil {
		h.b = append(h.b, '_', ',')
		return
	}
	h.i(x.ID)
}

func keysT[V any](m map[*T]V) []*T {
	k := make([]*T, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	if len(k) > 1 {
		sortTerms(k)
	}
	return k
}

func (s *State) key() string {
	h := &hb{b: make([]byte, 0, 1024)}
	for _, f := range s.frames {
		h.i(f.ctx)
		h.i(f.block.Index)
		h.i(f.idx)
		h.i(f.kind)
		h.s(f.fn.Name())
		type kv struct {
			n string
			t *T
		}
		ks := make([]kv, 0, len(f.env))
		for v, t := range f.env {
			ks = append(ks, kv{v.Name(), t})
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].n < ks[j].n })
		for _, k := range ks {
			h.s(k.n)
			h.t(k.t)
		}
		h.s("D")
		for _, d := range f.defers {
			h.i(int(d.instr.Pos()))
			h.t(d.fn)
			for _, a := range d.args {
				h.t(a)
			}
		}
		h.s("M")
		if len(f.marks) > 0 {
			bl := make([]int, 0, 4)
			for b := range f.marks {
				bl = append(bl, b.Index)
			}
			sort.Ints(bl)
			for _, bi := range bl {
				m := f.marks[f.fn.Blocks[bi]]
				h.i(bi)
				if m.gen == s.gen {
					h.i(m.start)
					h.i(len(m.segs))
				}
			}
		}
	}
	h.s("H")
	for _, k := range keysT(s.heap) {
		h.t(k)
		h.t(s.heap[k])
	}
	h.s("D")
	var ds []string
	for k := range s.dirty {
		ds = append(ds, k)
	}
	sort.Strings(ds)
	for _, k := range ds {
		h.s(k)
	}
	h.s("E")
	for _, k := range keysT(s.eqc) {
		h.t(k)
		h.t(s.eqc[k])
	}
	h.s("N")
	for _, k := range keysT(s.nec) {
		h.t(k)
		for _, c := range keysT(s.nec[k]) {
			h.t(c)
		}
		h.s("")
	}
	h.s("B")
	for _, k := range keysT(s.bools) {
		h.t(k)
		if s.bools[k] {
			h.s("1")
		} else {
			h.s("0")
		}
	}
	h.s("I")
	for _, k := range keysT(s.ivals) {
		h.t(k)
		iv := s.ivals[k]
		if iv.hasLo {
			h.s("l" + strconv.FormatInt(iv.lo, 36))
		}
		if iv.hasHi {
			h.s("h" + strconv.FormatInt(iv.hi, 36))
		}
	}
	h.s("R")
	for _, k := range keysT(s.hdr) {
		h.t(k)
		x := s.hdr[k]
		if x.closed {
			h.s("c")
		}
		h.t(x.epoch)
		for _, e := range keysT(x.e) {
			h.t(e)
			if x.e[e].present {
				h.t(x.e[e].val)
			} else {
				h.s("-")
			}
		}
	}
	h.s("P")
	for _, k := range keysT(s.maps) {
		h.t(k)
		for _, e := range keysT(s.maps[k]) {
			h.t(e)
			if s.maps[k][e].present {
				h.t(s.maps[k][e].val)
			} else {
				h.s("-")
			}
		}
	}
	h.s("O")
	for _, k := range keysT(s.mapOpen) {
		h.t(k)
	}
	h.s("Y")
	for _, k := range keysT(s.mapDirt) {
		h.t(k)
	}
	h.s("L")
	for _, k := range keysT(s.lists) {
		h.t(k)
		l := s.lists[k]
		if l.known {
			if l.empty {
				h.s("e")
			} else {
				h.s("n")
			}
		}
		h.t(l.front)
		h.t(l.back)
	}
	for _, k := range keysT(s.removed) {
		h.t(k)
	}
	h.s("K")
	for _, k := range s.locks {
		h.t(k)
	}
	h.s("C")
	for _, k := range keysT(s.closedC) {
		h.t(k)
	}
	h.s("X")
	var cs []string
	for k := range s.cells {
		cs = append(cs, k)
	}
	sort.Strings(cs)
	for _, k := range cs {
		h.s(k)
		h.t(s.cells[k])
	}
	h.s("T")
	for _, e := range s.trace {
		e.hash(h)
	}
	return string(h.b)
}

func (e *Event) hash(h *hb) {
	h.s(e.Kind)
	h.s(e.Name)
	h.s(e.Tag)
	if e.Instr != nil {
		h.i(int(e.Instr.Pos()))
	}
	h.i(e.Ctx)
	for _, a := range e.Args {
		h.t(a)
	}
	h.t(e.Res)
	for _, a := range e.X {
		h.t(a)
	}
}

func (e *Event) same(o *Event) bool {
	if e.Kind != o.Kind || e.Name != o.Name || e.Tag != o.Tag || e.Instr != o.Instr || e.Ctx != o.Ctx || len(e.Args) != len(o.Args) || len(e.X) != len(o.X) || e.Res != o.Res {
		return false
	}
	for i := range e.Args {
		if e.Args[i] != o.Args[i] {
			return false
		}
	}
	for i := range e.X {
		if e.X[i] != o.X[i] {
			return false
		}
	}
	return true
}

// norm maps the values made in an iteration to those of earlier iterations.
func (ts *Terms) norm(t *T) *T {
	if t == nil {
		return nil
	}
	if n, ok := ts.normed[t]; ok {
		return n
	}
	r := t
	if t.K == KFresh || t.K == KAlloc {
		r = ts.Aged(t)
		if t.K == KFresh && strings.HasSuffix(t.S, "'") {
			r = ts.Aged(ts.Fresh(strings.TrimSuffix(t.S, "'"), t.Typ))
		}
	} else if len(t.A) > 0 {
		ch := false
		na := make([]*T, len(t.A))
		for i, x := range t.A {
			na[i] = ts.norm(x)
			ch = ch || na[i] != x
		}
		if ch {
			r = ts.rebuild(t, na)
		}
	}
	ts.normed[t] = r
	return r
}

func (ts *Terms) normKey(seg []*Event) string {
	h := &hb{}
	for _, e := range seg {
		n := *e
		n.Args, n.X = nil, nil
		for _, a := range e.Args {
			n.Args = append(n.Args, ts.norm(a))
		}
		for _, a := range e.X {
			n.X = append(n.X, ts.norm(a))
		}
		n.Res = ts.norm(e.Res)
		n.hash(h)
		h.s(";")
	}
	return string(h.b)
}

// iteration closes a loop iteration in the trace: a repetition of an earlier
// one is dropped, and the distinct ones are kept in a canonical order.
func (s *State) iteration(m *loopMark) {
	if m.start > len(s.trace) {
		m.start = len(s.trace)
	}
	seg := s.trace[m.start:]
	if len(seg) == 0 {
		return
	}
	k := s.ex.ts.normKey(seg)
	pos, at := m.base, len(m.segs)
	for i, g := range m.segs {
		if g.key == k {
			s.trace = s.trace[:m.start:m.start]
			return
		}
		if g.key > k {
			at = i
			break
		}
		pos += g.n
	}
	nt := append([]*Event(nil), s.trace[:pos]...)
	nt = append(nt, seg...)
	nt = append(nt, s.trace[pos:m.start]...)
	s.trace = nt
	segs := append([]loopSeg(nil), m.segs[:at]...)
	segs = append(segs, loopSeg{k, len(seg)})
	segs = append(segs, m.segs[at:]...)
	m.segs = segs
	m.start = len(s.trace)
}

// ---- renaming (recency abstraction) ----

// rename replaces a term everywhere; the target stands for several values if it is a summary.
func (s *State) rename(from, to *T) {
	ts := s.ex.ts
	memo := map[*T]*T{}
	sub := func(t *T) *T { return ts.Subst(t, from, to, memo) }
	for _, f := range s.frames {
		for k, v := range f.env {
			f.env[k] = sub(v)
		}
		for i := range f.defers {
			f.defers[i].fn = sub(f.defers[i].fn)
			na := make([]*T, len(f.defers[i].args))
			for j, a := range f.defers[i].args {
				na[j] = sub(a)
			}
			f.defers[i].args = na
		}
	}
	weak := to.Sum
	nh := make(map[*T]*T, len(s.heap))
	for k, v := range s.heap {
		if k.Contains(from) && weak {
			continue
		}
		nv := sub(v)
		if weak && nv != v && k.K == KFldAddr && k.S == "container/list.Element.Value" {
			continue
		}
		nh[sub(k)] = nv
	}
	s.heap = nh
	neq := make(map[*T]*T, len(s.eqc))
	for k, v := range s.eqc {
		if k.Contains(from) {
			if weak {
				continue
			}
			k = sub(k)
		}
		neq[k] = v
	}
	s.eqc = neq
	nne := make(map[*T]map[*T]bool, len(s.nec))
	for k, v := range s.nec {
		if k.Contains(from) {
			if weak {
				continue
			}
			k = sub(k)
		}
		nne[k] = v
	}
	s.nec = nne
	nb := make(map[*T]bool, len(s.bools))
	for k, v := range s.bools {
		if k.Contains(from) {
			if weak {
				continue
			}
			k = sub(k)
		}
		nb[k] = v
	}
	s.bools = nb
	ni := make(map[*T]ival, len(s.ivals))
	for k, v := range s.ivals {
		if k.Contains(from) {
			if weak {
				continue
			}
			k = sub(k)
		}
		ni[k] = v
	}
	s.ivals = ni
	nhd := make(map[*T]*hdrState, len(s.hdr))
	for k, v := range s.hdr {
		if k.Contains(from) && weak {
			continue
		}
		ne := make(map[*T]hdrEntry, len(v.e))
		for ek, ev := range v.e {
			if ek.Contains(from) && weak {
				continue
			}
			ne[sub(ek)] = hdrEntry{ev.present, sub(ev.val)}
		}
		nhd[sub(k)] = &hdrState{v.closed, sub(v.epoch), ne}
	}
	s.hdr = nhd
	nm := make(map[*T]map[*T]hdrEntry, len(s.maps))
	nmo := cp(s.mapOpen)
	for k, v := range s.maps {
		if k.Contains(from) && weak {
			continue
		}
		nk := sub(k)
		ne := make(map[*T]hdrEntry, len(v))
		for ek, ev := range v {
			if ek.Contains(from) && weak {
				nmo[nk] = true
				continue
			}
			ne[sub(ek)] = hdrEntry{ev.present, sub(ev.val)}
		}
		nm[nk] = ne
	}
	s.maps = nm
	s.mapOpen = map[*T]bool{}
	for k, v := range nmo {
		s.mapOpen[sub(k)] = v
	}
	nmd := map[*T]bool{}
	for k, v := range s.mapDirt {
		nmd[sub(k)] = v
	}
	s.mapDirt = nmd
	nl := make(map[*T]listState, len(s.lists))
	for k, v := range s.lists {
		if k.Contains(from) && weak {
			continue
		}
		nl[sub(k)] = listState{v.known, v.empty, sub(v.front), sub(v.back)}
	}
	s.lists = nl
	nr := map[*T]bool{}
	for k := range s.removed {
		if k.Contains(from) && weak {
			continue
		}
		nr[sub(k)] = true
	}
	s.removed = nr
	for i := range s.locks {
		s.locks[i] = sub(s.locks[i])
	}
	nc := map[*T]bool{}
	for k := range s.closedC {
		if k.Contains(from) && weak {
			continue
		}
		nc[sub(k)] = true
	}
	s.closedC = nc
	for k, v := range s.cells {
		s.cells[k] = sub(v)
	}
	for i, e := range s.trace {
		ne := *e
		ch := false
		mapA := func(a []*T) []*T {
			if len(a) == 0 {
				return a
			}
			na := make([]*T, len(a))
			for j, x := range a {
				na[j] = sub(x)
				if na[j] != x {
					ch = true
				}
			}
			return na
		}
		ne.Args = mapA(e.Args)
		ne.X = mapA(e.X)
		ne.Res = sub(e.Res)
		if ne.Res != e.Res {
			ch = true
		}
		if ch {
			s.trace[i] = &ne
		}
	}
	nlv := map[*T]bool{}
	for k := range s.live {
		nlv[sub(k)] = true
	}
	s.live = nlv
}

// fresh creates the unknown value of a program point, ageing the previous one.
func (s *State) fresh(prefix string, in ssa.Instruction, suffix string, typ types.Type) *T {
	site := prefix + "@" + s.ex.site(s.top().ctx, in) + suffix
	t := s.ex.ts.Fresh(site, typ)
	if s.live[t] {
		s.rename(t, s.ex.ts.Aged(t))
	}
	s.live[t] = true
	return t
}

// freshFor is fresh, but also keeps a term at hand up to date, which may mention the value
// that the same instruction produced before.
func (s *State) freshFor(x **T, prefix string, in ssa.Instruction, suffix string, typ types.Type) *T {
	ts := s.ex.ts
	t := ts.Fresh(prefix+"@"+s.ex.site(s.top().ctx, in)+suffix, typ)
	if s.live[t] && (*x).Contains(t) {
		*x = ts.Subst(*x, t, ts.Aged(t), map[*T]*T{})
	}
	return s.fresh(prefix, in, suffix, typ)
}

// freshElem makes a list element; the previous one that the instruction
// produced stays distinguishable.
func (s *State) freshElem(x **T, in ssa.Instruction, typ types.Type) *T {
	ts := s.ex.ts
	site := "nonnil@" + s.ex.site(s.top().ctx, in)
	t, p := ts.Fresh(site, typ), ts.Fresh(site+"'", typ)
	if s.live[t] {
		if s.live[p] {
			s.rename(p, ts.Aged(t))
			if x != nil {
				*x = ts.Subst(*x, p, ts.Aged(t), map[*T]*T{})
			}
		}
		s.rename(t, p)
		s.live[p] = true
		if x != nil {
			*x = ts.Subst(*x, t, p, map[*T]*T{})
		}
	}
	s.live[t] = true
	return t
}

func (s *State) alloc(in ssa.Instruction, suffix string, typ types.Type) *T {
	t := s.ex.ts.Alloc(s.ex.site(s.top().ctx, in)+suffix, typ)
	if s.live[t] {
		s.rename(t, s.ex.ts.Aged(t))
	}
	s.live[t] = true
	return t
}

func leaves(t *T, f func(*T)) {
	if t == nil {
		return
	}
	if t.K == KFresh || t.K == KAlloc {
		f(t)
	}
	for _, a := range t.A {
		leaves(a, f)
	}
}

// collect drops knowledge about values that cannot be referred to any more.
func (s *State) collect() {
	L := map[*T]bool{}
	add := func(t *T) { leaves(t, func(x *T) { L[x] = true }) }
	for _, f := range s.frames {
		for _, v := range f.env {
			add(v)
		}
		for _, d := range f.defers {
			add(d.fn)
			for _, a := range d.args {
				add(a)
			}
		}
	}
	for _, e := range s.trace {
		for _, a := range e.Args {
			add(a)
		}
		for _, a := range e.X {
			add(a)
		}
		add(e.Res)
	}
	for n, c := range s.cells {
		if n[0] != '~' { // weak: forgets what nothing else refers to
			add(c)
		}
	}
	for _, c := range s.locks {
		add(c)
	}
	in := func(t *T) bool {
		ok := true
		leaves(t, func(x *T) {
			if !L[x] {
				ok = false
			}
		})
		return ok
	}
	for {
		n := len(L)
		for k, v := range s.heap {
			if in(k) {
				add(v)
			}
		}
		for k, v := range s.maps {
			if in(k) {
				for ek, ev := range v {
					if in(ek) {
						add(ev.val)
					}
				}
			}
		}
		for k, v := range s.hdr {
			if in(k) {
				add(v.epoch)
				for _, ev := range v.e {
					add(ev.val)
				}
			}
		}
		if len(L) == n {
			break
		}
	}
	for n, c := range s.cells {
		if n[0] == '~' && c != nil && c.K == KTuple {
			var l []*T
			for _, x := range c.A {
				if in(x) && !x.HasSum() {
					l = append(l, x)
				}
			}
			if len(l) == 0 {
				delete(s.cells, n)
			} else if len(l) < len(c.A) {
				s.cells[n] = s.ex.ts.Tuple(l...)
			}
		}
	}
	for k := range s.heap {
		if !in(k) {
			delete(s.heap, k)
		}
	}
	for k, v := range s.maps {
		if !in(k) {
			delete(s.maps, k)
			delete(s.mapOpen, k)
			delete(s.mapDirt, k)
			continue
		}
		for ek := range v {
			if !in(ek) {
				if v[ek].present {
					s.mapOpen[k] = true
				}
				delete(v, ek)
			}
		}
	}
	for k := range s.mapOpen {
		if !in(k) {
			delete(s.mapOpen, k)
		}
	}
	for k := range s.mapDirt {
		if !in(k) {
			delete(s.mapDirt, k)
		}
	}
	for k := range s.hdr {
		if !in(k) {
			delete(s.hdr, k)
		}
	}
	for k, l := range s.lists {
		if !in(k) || !l.known && l.front == nil && l.back == nil {
			delete(s.lists, k)
			continue
		}
		if l.front != nil && (!in(l.front) || l.front.HasSum()) {
			l.front = nil
			s.lists[k] = l
		}
		if l.back != nil && (!in(l.back) || l.back.HasSum()) {
			l.back = nil
			s.lists[k] = l
		}
	}
	for k := range s.removed {
		if !in(k) {
			delete(s.removed, k)
		}
	}
	for k := range s.closedC {
		if !in(k) {
			delete(s.closedC, k)
		}
	}
	// an initial value that has been overwritten and is not held anywhere
	var used map[*T]bool
	stale := func(t *T) bool {
		if t.K != KInit {
			return false
		}
		if _, over := s.heap[t.A[0]]; !over {
			return false
		}
		if used == nil {
			used = map[*T]bool{}
			var mark func(t *T)
			mark = func(t *T) {
				if t == nil || used[t] {
					return
				}
				used[t] = true
				for _, a := range t.A {
					mark(a)
				}
			}
			for _, f := range s.frames {
				for _, v := range f.env {
					mark(v)
				}
				for _, d := range f.defers {
					mark(d.fn)
					for _, a := range d.args {
						mark(a)
					}
				}
			}
			for _, v := range s.heap {
				mark(v)
			}
			for _, e := range s.trace {
				mark(e.Res)
				for _, a := range e.Args {
					mark(a)
				}
				for _, a := range e.X {
					mark(a)
				}
			}
			for _, v := range s.cells {
				mark(v)
			}
			for k, es := range s.maps {
				mark(k)
				for ek, ev := range es {
					mark(ek)
					mark(ev.val)
				}
			}
			for k, es := range s.hdr {
				mark(k)
				for ek, ev := range es.e {
					mark(ek)
					mark(ev.val)
				}
			}
			for k := range s.bools {
				mark(k)
			}
		}
		return !used[t]
	}
	for k := range s.eqc {
		if !in(k) || stale(k) {
			delete(s.eqc, k)
		}
	}
	for k := range s.nec {
		if !in(k) || stale(k) {
			delete(s.nec, k)
		}
	}
	for k := range s.bools {
		if !in(k) {
			delete(s.bools, k)
		}
	}
	for k := range s.ivals {
		if !in(k) {
			delete(s.ivals, k)
		}
	}
	for k := range s.live {
		if !L[k] {
			delete(s.live, k)
		}
	}
}

// ---- facts ----

func (s *State) nonNil(t *T) bool {
	if nonNilTerm(t) {
		return true
	}
	if t.K == KInit && t.A[0].K == KGlobal && s.ex.p.info.nonnilGlob[t.A[0].V.(*ssa.Global)] {
		return true
	}
	return false
}

// eval decides a boolean term: 1 true, -1 false, 0 unknown.
func (s *State) eval(c *T) int {
	if c.IsTrue() {
		return 1
	}
	if c.IsFalse() {
		return -1
	}
	if c.IsApp("!") {
		return -s.eval(c.A[0])
	}
	if b, ok := s.bools[c]; ok {
		if b {
			return 1
		}
		return -1
	}
	if c.IsApp("==") {
		x, y := c.A[0], c.A[1]
		if x == y && !x.HasSum() {
			return 1
		}
		if y.IsConst() {
			if e, ok := s.eqc[x]; ok {
				if e == y {
					return 1
				}
				return -1
			}
			if s.nec[x][y] {
				return -1
			}
			if y.IsNil() && s.nonNil(x) {
				return -1
			}
			if v, ok := y.Int(); ok {
				iv := s.bounds(x)
				if iv.hasLo && v < iv.lo || iv.hasHi && v > iv.hi {
					return -1
				}
				if iv.hasLo && iv.hasHi && iv.lo == v && iv.hi == v {
					return 1
				}
			}
		} else {
			ex, okx := s.eqc[x]
			ey, oky := s.eqc[y]
			if okx && oky {
				if ex == ey {
					return 1
				}
				return -1
			}
			if okx && s.nec[y][ex] || oky && s.nec[x][ey] {
				return -1
			}
			if x.K == KAlloc && !x.Sum && y.K == KInit || y.K == KAlloc && !y.Sum && x.K == KInit {
				// an object created on this path is not one that existed before
				a, b := x, y
				if b.K == KAlloc {
					a, b = b, a
				}
				if !b.Contains(a) {
					return -1
				}
			}
		}
		return 0
	}
	if c.IsApp("strings.HasPrefix") && len(c.A) == 2 {
		if p, ok := c.A[1].Str(); ok {
			if n := s.bounds(s.ex.ts.App("len", types.Typ[types.Int], c.A[0])); n.hasHi && n.hi < int64(len(p)) {
				return -1
			}
		}
	}
	if c.IsApp("<") {
		lo, hi := s.bounds(c.A[0]), s.bounds(c.A[1])
		if lo.hasHi && hi.hasLo && lo.hi < hi.lo {
			return 1
		}
		if lo.hasLo && hi.hasHi && lo.lo >= hi.hi {
			return -1
		}
		if v, ok := s.bools[s.ex.ts.App("<", nil, c.A[1], c.A[0])]; ok && v {
			return -1
		}
	}
	return 0
}

func (s *State) bounds(t *T) ival {
	if v, ok := t.Int(); ok {
		return ival{v, v, true, true}
	}
	if e, ok := s.eqc[t]; ok {
		if v, ok := e.Int(); ok {
			return ival{v, v, true, true}
		}
	}
	iv := s.ivals[t]
	if !iv.hasLo && (t.IsApp("len") || t.IsApp("cap") || t.IsApp("strconv.ParseUint#0")) {
		iv.lo, iv.hasLo = 0, true
	}
	if !iv.hasLo && (t.IsApp("strconv.Atoi#0") || t.IsApp("strconv.ParseInt#0")) {
		if whole, _, ok := pieceOf(t.A[0], ","); ok && matchedWithout(s, whole, '-') {
			iv.lo, iv.hasLo = 0, true
		}
	}
	if t.K == KApp && len(t.A) == 2 {
		switch t.S {
		case "bytes.IndexByte", "bytes.Index", "bytes.IndexRune", "bytes.LastIndex", "bytes.LastIndexByte",
			"strings.IndexByte", "strings.Index", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte":
			if !iv.hasLo {
				iv.lo, iv.hasLo = -1, true
			}
		}
	}
	if ne := s.nec[t]; ne != nil && iv.hasLo {
		for ne[s.ex.ts.Int(iv.lo)] {
			iv.lo++
		}
	}
	if t.IsApp("+") && len(t.A) == 2 {
		if k, ok := t.A[1].Int(); ok {
			b := s.bounds(t.A[0])
			if b.hasLo && !iv.hasLo {
				iv.lo, iv.hasLo = b.lo+k, true
			}
			if b.hasHi && !iv.hasHi {
				iv.hi, iv.hasHi = b.hi+k, true
			}
		} else if !iv.hasLo {
			a, b := s.bounds(t.A[0]), s.bounds(t.A[1])
			if a.hasLo && b.hasLo {
				iv.lo, iv.hasLo = a.lo+b.lo, true
			}
		}
	}
	return iv
}

// assume adds a condition; false if it contradicts what is known.
func (s *State) assume(c *T, v bool) bool {
	for c.IsApp("!") {
		c = c.A[0]
		v = !v
	}
	if c.IsConst() {
		return c.IsTrue() == v
	}
	switch s.eval(c) {
	case 1:
		return v
	case -1:
		return !v
	}
	if c.IsApp("==") && c.A[1].IsConst() {
		x, y := c.A[0], c.A[1]
		if x.HasSum() {
			return true
		}
		if v {
			s.eqc[x] = y
			delete(s.nec, x)
			delete(s.ivals, x)
		} else {
			if s.nec[x] == nil {
				s.nec[x] = map[*T]bool{}
			}
			s.nec[x][y] = true
			if k, ok := y.Int(); ok {
				iv := s.bounds(x)
				if iv.hasLo && iv.lo == k {
					iv.lo++
					s.ivals[x] = iv
				}
			}
		}
		return true
	}
	if c.HasSum() {
		return true
	}
	s.bools[c] = v
	if c.IsApp("<") {
		x, y := c.A[0], c.A[1]
		if k, ok := y.Int(); ok {
			iv := s.bounds(x)
			if v { // x < k
				if !iv.hasHi || k-1 < iv.hi {
					iv.hi, iv.hasHi = k-1, true
				}
			} else if !iv.hasLo || k > iv.lo {
				iv.lo, iv.hasLo = k, true
			}
			s.ivals[x] = iv
		} else if k, ok := x.Int(); ok {
			iv := s.bounds(y)
			if v { // k < y
				if !iv.hasLo || k+1 > iv.lo {
					iv.lo, iv.hasLo = k+1, true
				}
			} else if !iv.hasHi || k < iv.hi {
				iv.hi, iv.hasHi = k, true
			}
			s.ivals[y] = iv
		}
	}
	return true
}

// Known value of a term: the constant it is equal to, or itself.
func (s *State) val(t *T) *T {
	if t == nil {
		return nil
	}
	if e, ok := s.eqc[t]; ok {
		return e
	}
	if b, ok := s.bools[t]; ok {
		return s.ex.ts.Bool(b)
	}
	return t
}

// isNil: 1 nil, -1 not nil, 0 unknown.
func (s *State) isNil(t *T) int {
	if t.IsNil() {
		return 1
	}
	if t.K == KConst {
		return -1
	}
	return s.eval(s.ex.ts.Bin(token.EQL, t, s.ex.ts.Nil(), types.Typ[types.Bool]))
}

// isConstVal: 1 equal, -1 different, 0 unknown.
func (s *State) equals(t, u *T) int {
	return s.eval(s.ex.ts.Bin(token.EQL, t, u, types.Typ[types.Bool]))
}

// ---- memory ----

func expandable(t types.Type) (*types.Struct, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil || !strings.Contains(n.Obj().Pkg().Path(), "stomp") {
			return nil, false
		}
	}
	return st, true
}

func (s *State) zero(t types.Type) *T {
	ts := s.ex.ts
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.Bool(false)
		case u.Info()&types.IsString != 0:
			return ts.Str("")
		case u.Info()&types.IsNumeric != 0:
			return ts.Const(constant.MakeInt64(0), t)
		}
		return ts.Nil()
	case *types.Struct:
		if st, ok := expandable(t); ok {
			var fs []*T
			for i := 0; i < st.NumFields(); i++ {
				fs = append(fs, s.zero(st.Field(i).Type()))
			}
			return ts.Struct(t, fs)
		}
		return ts.App("zero:"+typKey(t), t)
	case *types.Array:
		return ts.App("zero:"+typKey(t), t)
	}
	return ts.Nil()
}

func rootAlloc(a *T) *T {
	for a.K == KFldAddr || a.K == KIdxAddr {
		a = a.A[0]
	}
	return a
}

func (s *State) load(addr *T, typ types.Type, in ssa.Instruction) *T {
	ts := s.ex.ts
	if st, ok := expandable(typ); ok {
		if v, ok := s.heap[addr]; ok {
			return v
		}
		var fs []*T
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, s.load(ts.FldAddr(addr, s.ex.p.fieldName(typ, i), st.Field(i).Type()), st.Field(i).Type(), in))
		}
		// a whole unknown struct value is loaded as one term
		if len(fs) > 0 {
			if fs[0].K == KFld {
				b := fs[0].A[0]
				all := true
				for i := range fs {
					if fs[i].K != KFld || fs[i].A[0] != b || fs[i].S != s.ex.p.fieldName(typ, i) {
						all = false
					}
				}
				if all {
					return b
				}
			}
		}
		return ts.Struct(typ, fs)
	}
	if v, ok := s.heap[addr]; ok {
		return v
	}
	if arr, ok := typ.Underlying().(*types.Array); ok && addr.K == KAlloc && arr.Len() > 0 && arr.Len() <= 8 {
		// a small array literal
		var el []*T
		for i := int64(0); i < arr.Len(); i++ {
			v, ok := s.heap[ts.IdxAddr(addr, ts.Int(i), arr.Elem())]
			if !ok {
				break
			}
			el = append(el, v)
		}
		if len(el) == int(arr.Len()) {
			return ts.App("array", typ, el...)
		}
	}
	if addr.K == KIdxAddr {
		if v, ok := s.heap[addr.A[0]]; ok {
			if v := element(v, addr.A[1]); v != nil {
				return v
			}
		}
	}
	if addr.K == KFldAddr && addr.A[0].K != KAlloc {
		if v, ok := s.heap[addr.A[0]]; ok && v.K != KStruct {
			return ts.Fld(v, addr.S, typ)
		}
	}
	if addr.K == KGlobal {
		if v := s.globalTerm(addr.V.(*ssa.Global), typ); v != nil {
			return v
		}
	}
	if addr.K == KIdxAddr {
		if i, ok := addr.A[1].Int(); ok {
			b := addr.A[0]
			if b.K == KList && i >= 0 && i < int64(len(b.A)) {
				return b.A[i]
			}
			if v, ok := bytesOf(b); ok && i >= 0 && i < int64(len(v)) {
				return ts.Int(int64(v[i]))
			}
		}
	}
	r := rootAlloc(addr)
	if r.K == KAlloc && !r.Sum {
		if addr.K == KIdxAddr && !addr.A[1].IsConst() {
			return ts.Init(addr, typ)
		}
		return s.zero(typ)
	}
	if addr.HasSum() {
		return s.fresh("ld", in, "", typ)
	}
	if addr.K == KFldAddr && s.dirty[addr.S] {
		v := s.freshFor(&addr, "ld", in, "", typ)
		if !addr.HasSum() {
			s.heap[addr] = v
		}
		return v
	}
	if addr.K == KFldAddr && addr.S == "container/list.Element.Value" {
		return ts.App("elem", typ, addr.A[0])
	}
	return ts.Init(addr, typ)
}

func (s *State) store(addr, v *T, typ types.Type) {
	if st, ok := expandable(typ); ok {
		for i := 0; i < st.NumFields(); i++ {
			s.store(s.ex.ts.FldAddr(addr, s.ex.p.fieldName(typ, i), st.Field(i).Type()), s.field(v, typ, i), st.Field(i).Type())
		}
		return
	}
	if addr.HasSum() {
		return
	}
	if addr.K == KIdxAddr {
		// other elements of the same array may change
		for k := range s.heap {
			if k.K == KIdxAddr && k.A[0] == addr.A[0] && k != addr && !(k.A[1].IsConst() && addr.A[1].IsConst()) {
				delete(s.heap, k)
			}
		}
	}
	s.heap[addr] = v
}

func (s *State) field(v *T, typ types.Type, i int) *T {
	if v.K == KStruct {
		return v.A[i]
	}
	st := typ.Underlying().(*types.Struct)
	return s.ex.ts.Fld(v, s.ex.p.fieldName(typ, i), st.Field(i).Type())
}

// Field reads a field of an object in the current state without side effects.
func (s *State) peek(base *T, field string) *T {
	typ := s.ex.p.info.fieldType[field]
	if typ == nil {
		return nil
	}
	if base.K == KStruct {
		st := base.Typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if s.ex.p.fieldName(base.Typ, i) == field {
				return base.A[i]
			}
		}
		return nil
	}
	a := s.ex.ts.FldAddr(base, field, typ)
	if v, ok := s.heap[a]; ok {
		return v
	}
	r := rootAlloc(a)
	if r.K == KAlloc && !r.Sum {
		return s.zero(typ)
	}
	return s.ex.ts.Init(a, typ)
}

// structField reads a field of a struct value.
func (p *Program) structField(v *T, name string) *T {
	if v == nil || v.K != KStruct {
		return nil
	}
	st := v.Typ.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return v.A[i]
		}
	}
	return nil
}

// ---- headers ----

func (s *State) header(h *T) *hdrState {
	if x, ok := s.hdr[h]; ok {
		return x
	}
	x := &hdrState{e: map[*T]hdrEntry{}}
	if h.K == KAlloc && !h.Sum {
		x.closed = true
	}
	s.hdr[h] = x
	return x
}

// hdrPeek reads a header entry without forking: 1 present, -1 absent, 0 unknown.
func (s *State) hdrPeek(h *T, key string) (int, *T) {
	x, ok := s.hdr[h]
	if !ok {
		return 0, nil
	}
	if e, ok := x.e[s.ex.ts.Str(key)]; ok {
		if e.present {
			return 1, e.val
		}
		return -1, nil
	}
	if x.closed {
		return -1, nil
	}
	return 0, nil
}

func (s *State) hdrVal(h *T, x *hdrState, key *T) *T {
	if x.epoch != nil {
		return s.ex.ts.App("hdr", types.Typ[types.String], h, key, x.epoch)
	}
	return s.ex.ts.App("hdr", types.Typ[types.String], h, key)
}

// hdrFork returns the states in which the entry is known.
func (s *State) hdrFork(h, key *T) []*State {
	if h.HasSum() {
		return []*State{s}
	}
	x := s.header(h)
	if _, ok := x.e[key]; ok {
		return []*State{s}
	}
	if x.closed && key.IsConst() {
		return []*State{s}
	}
	if x.closed && len(x.e) == 0 {
		return []*State{s}
	}
	a := s
	b := s.clone()
	b.header(h).e[key] = hdrEntry{}
	a.header(h).e[key] = hdrEntry{true, s.hdrVal(h, x, key)}
	return []*State{a, b}
}

func (s *State) hdrGet(h, key *T) (bool, *T) {
	x := s.header(h)
	e, ok := x.e[key]
	if ok && e.present {
		return true, e.val
	}
	return false, nil
}

func (s *State) hdrSet(h, key, val *T) {
	if h.HasSum() {
		return
	}
	x := s.header(h)
	if !key.IsConst() {
		x.e = map[*T]hdrEntry{}
		x.closed = false
		x.epoch = s.ex.ts.App("set", nil, key, val)
	} else {
		for k := range x.e {
			if !k.IsConst() {
				delete(x.e, k)
				x.closed = false
			}
		}
	}
	x.e[key] = hdrEntry{true, val}
}

func (s *State) hdrAdd(h, key, val *T) {
	if h.HasSum() {
		return
	}
	x := s.header(h)
	if e, ok := x.e[key]; ok && e.present {
		return // the first entry counts
	}
	if !key.IsConst() {
		for k, e := range x.e {
			if !e.present && k != key {
				delete(x.e, k)
			}
		}
		x.closed = false
		x.e[key] = hdrEntry{true, val}
		return
	}
	if !x.closed {
		if _, ok := x.e[key]; !ok {
			// unknown whether there already is an entry
			return
		}
	}
	x.e[key] = hdrEntry{true, val}
}

func (s *State) hdrDel(h, key *T) {
	if h.HasSum() {
		return
	}
	x := s.header(h)
	if !key.IsConst() {
		x.e = map[*T]hdrEntry{}
		x.closed = false
		x.epoch = s.ex.ts.App("del", nil, key)
	}
	x.e[key] = hdrEntry{}
}

// hdrHavoc forgets a header that unknown code may have changed.
func (s *State) hdrHavoc(h, epoch *T) {
	if h.HasSum() {
		return
	}
	s.hdr[h] = &hdrState{epoch: epoch, e: map[*T]hdrEntry{}}
}

// resetTrace starts a new trace segment.
func (s *State) resetTrace() {
	s.trace = nil
	s.gen++
}
