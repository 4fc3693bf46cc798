package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F06", "Typestate analysis of the searches through a header's list of names and values, over every path of every exported operation: a search compares the name at every even position, from the first one on, and has reached the end of the list before it reports that there is none; a lookup returns the value behind the first name that is equal and stores nothing; Set stores to that value only, or appends the pair; Add and AddHeader append exactly the given pairs in order; Del takes out exactly the pairs whose name is equal, continuing where the next pair has moved to; the list starts out as exactly the given entries, and that of a clone with those of the original", checkF06)
}

// headerList explores the operations of a header with its list as memory.
type headerList struct {
	c     *Ctx
	field string
	typ   types.Type
}

// scan takes a loop variable apart: where it starts (a constant, or the last pair of a list), and its steps.
func (ex *Exec) scan(t *T) (first int64, last bool, steps map[int64]bool, ok bool) {
	phi := ex.loopPhi[t]
	if phi == nil {
		return
	}
	steps = map[int64]bool{}
	num := func(v ssa.Value) (int64, bool) {
		k := constOf(v)
		if k == nil || k.Value == nil {
			return 0, false
		}
		return k.Int64(), true
	}
	n := 0
	var seen map[ssa.Value]bool
	var walk func(v ssa.Value, off int64) bool
	walk = func(v ssa.Value, off int64) bool {
		if v == ssa.Value(phi) {
			steps[off] = true
			return true
		}
		switch v := v.(type) {
		case *ssa.BinOp:
			if k, ok := num(v.Y); ok && (v.Op == token.ADD || v.Op == token.SUB) {
				if v.Op == token.SUB {
					k = -k
				}
				return walk(v.X, off+k)
			}
		case *ssa.Phi:
			if seen[v] {
				return true
			}
			seen[v] = true
			for _, e := range v.Edges {
				if !walk(e, off) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, e := range phi.Edges {
		if k, ok := num(e); ok {
			if n > 0 && (last || first != k) {
				return 0, false, nil, false
			}
			first = k
			n++
			continue
		}
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.SUB {
			if c, ok := b.X.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					if k, ok := num(b.Y); ok && k == 2 && n == 0 {
						last = true
						n++
						continue
					}
				}
			}
		}
		if _, ok := e.(*ssa.Parameter); ok && n == 0 {
			n++ // judged where the search begins
			continue
		}
		seen = map[ssa.Value]bool{}
		if !walk(e, 0) {
			return 0, false, nil, false
		}
	}
	return first, last, steps, n > 0
}

// list is the list of a header as it is now, or a list itself.
func (l *headerList) list(s *State, h *T) *T {
	if h.Typ != nil {
		if _, ok := h.Typ.Underlying().(*types.Slice); ok {
			return h
		}
	}
	return s.load(s.ex.ts.FldAddr(h, l.field, l.typ), l.typ, nil)
}

// rest tells whether a slice is what remains of a list while it is walked through two by two.
func (l *headerList) rest(s *State, list, t *T) bool {
	if t == nil {
		return false
	}
	phi := s.ex.loopPhi[t]
	if phi == nil {
		return false
	}
	if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	for _, e := range phi.Edges {
		if sl, ok := e.(*ssa.Slice); ok && sl.X == ssa.Value(phi) && sl.High == nil && sl.Low != nil {
			if k := constOf(sl.Low); k != nil && k.Value != nil && k.Int64() == 2 {
				continue
			}
			return false
		}
		if s.cells["h.rest"] != list {
			return false
		}
	}
	return true
}

// at is the position in a list that a value was loaded from.
func (l *headerList) at(s *State, list, t *T) (coef int64, base *T, k int64, ok bool) {
	if t.K == KInit && t.A[0].K == KIdxAddr {
		coef, base, k = affine(t.A[0].A[1])
		if base != nil && coef%2 == 0 && (base.IsApp("/") && base.A[1].IsInt(2) || base.IsApp(">>") && base.A[1].IsInt(1)) {
			// the position of a name is even
			c, b, n := affine(base.A[0])
			if p := idxTerm(s.ex.ts, c, b, n); p == s.cells["h.hit"] || p == s.cells["h.miss"] {
				coef, base, k = coef/2*c, b, k+coef/2*n
			}
		}
		from := t.A[0].A[0]
		for from != list && from.IsApp("slice") {
			c, b, n := affine(from.A[1])
			switch {
			case base == nil:
				coef, base, k = c, b, k+n
			case b == nil:
				k += n
			default:
				return 0, nil, 0, false
			}
			from = from.A[0]
		}
		if from == list {
			return coef, base, k, true
		}
		if base == nil && l.rest(s, list, from) {
			return 1, from, k, true
		}
	}
	return 0, nil, 0, false
}

// is tells whether a value was loaded from a position of a list.
func (l *headerList) is(s *State, list, t, pos *T, off int64) bool {
	c, b, k, ok := l.at(s, list, t)
	return ok && idxTerm(s.ex.ts, c, b, k-off) == pos
}

// isPos tells whether a number is a position in a list.
func isPos(ts *Terms, t, pos *T, off int64) bool {
	c, b, k := affine(t)
	return idxTerm(ts, c, b, k-off) == pos
}

// value is what is at a position of a list.
func (l *headerList) value(s *State, list, pos *T, off int64) *T {
	ts := s.ex.ts
	str := types.Typ[types.String]
	coef, _ := pos.A[0].Int()
	k, _ := pos.A[2].Int()
	i := ts.Int(k + off)
	if !pos.A[1].IsNil() && coef == 1 {
		i = pos.A[1]
		if k+off != 0 {
			i = ts.Bin(token.ADD, i, ts.Int(k+off), types.Typ[types.Int])
		}
	}
	return s.val(s.load(ts.IdxAddr(list, i, str), str, nil))
}

// partOf tells whether a slice is (part of) the memory of a list.
func partOf(list, t *T) bool {
	for t.IsApp("slice") || t.IsApp("append") {
		t = t.A[0]
	}
	for list.IsApp("slice") || list.IsApp("append") {
		list = list.A[0]
	}
	return t == list
}

// pair takes apart the two strings that are appended.
func (l *headerList) pair(s *State, t *T) (x, y *T, ok bool) {
	ts := s.ex.ts
	if t.K == KList && len(t.A) == 2 {
		return t.A[0], t.A[1], true
	}
	if t.IsApp("slice") && t.A[0].K == KAlloc && t.A[1].IsInt(0) && t.A[2].IsNil() {
		if arr, ok := deref(t.A[0].Typ).Underlying().(*types.Array); ok && arr.Len() == 2 {
			at := func(i int64) *T {
				return s.val(s.load(ts.IdxAddr(t.A[0], ts.Int(i), arr.Elem()), arr.Elem(), nil))
			}
			return at(0), at(1), true
		}
	}
	if t.IsApp("slice") {
		c, b, k := affine(t.A[1])
		if isPos(ts, t.A[2], idxTerm(ts, c, b, k+2), 0) {
			str := types.Typ[types.String]
			at := func(i *T) *T { return ts.Init(ts.IdxAddr(t.A[0], i, str), str) }
			return at(t.A[1]), at(ts.Bin(token.ADD, t.A[1], ts.Int(1), types.Typ[types.Int])), true
		}
	}
	return nil, nil, false
}

// none tells whether nothing is in a slice.
func (l *headerList) none(s *State, t *T) bool {
	if t.IsNil() || s.cells["h.none"] == t {
		return true
	}
	if t.IsApp("append") {
		return t.A[1].IsNil() && l.none(s, t.A[0])
	}
	return t.IsApp("slice") && t.A[1].IsInt(0) && t.A[2].IsNil() && t.A[0].K == KAlloc && l.emptyArray(t.A[0])
}

func (l *headerList) emptyArray(t *T) bool {
	arr, ok := deref(t.Typ).Underlying().(*types.Array)
	return ok && arr.Len() == 0
}

// search follows the search for a name through a list, with the cells
// h.due (a position whose name is to be compared), h.hit (one whose name is equal, and which has not been dealt with),
// h.even (one that is known to be even), h.end (there are no more names) and h.next (where the next pair has moved to).
type search struct {
	*headerList
	op    string
	h     *T // whose list
	key   *T // nil: every entry is a hit
	multi bool
	all   bool                                       // every entry is wanted
	moved func(s *State, e *Event, hit bool, pos *T) // moving on from a position
}

func (w *search) bad(s *State, e *Event, construct, format string, args ...interface{}) {
	s.ex.Bad(s, "search", w.op+" "+construct, e.Instr, format, args...)
}

func (w *search) moveOn(s *State, e *Event) {
	if d := s.cells["h.due"]; d != nil {
		if w.key == nil {
			w.bad(s, e, "left out", "an entry may not have been added")
		} else {
			w.bad(s, e, "left out", "a name may not have been compared")
		}
		delete(s.cells, "h.due")
	}
	if p := s.cells["h.hit"]; p != nil {
		w.moved(s, e, true, p)
	} else if p := s.cells["h.miss"]; p != nil {
		w.moved(s, e, false, p)
	}
	delete(s.cells, "h.miss")
	delete(s.cells, "h.even")
}

// branch follows a decision.
func (w *search) branch(s *State, e *Event) {
	ex := s.ex
	ts := ex.ts
	cond := e.Args[0]
	v := s.eval(cond)
	for cond.IsApp("!") {
		cond = cond.A[0]
		v = -v
	}
	if v == 0 || cond.K != KApp || len(cond.A) != 2 {
		return
	}
	x, y := cond.A[0], cond.A[1]
	list := w.list(s, w.h)
	if cond.S == "==" {
		// parity of a position
		for _, op := range []string{"%", "&"} {
			k, num := y.Int()
			m := int64(2)
			if op == "&" {
				m = 1
			}
			if x.IsApp(op) && x.A[1].IsInt(m) && num && (k == 0 || k == 1) {
				c, b, n := affine(x.A[0])
				p := idxTerm(ts, c, b, n)
				if (v == 1) == (k == 0) {
					s.cells["h.even"] = p
				} else if s.cells["h.due"] == p {
					delete(s.cells, "h.due")
				}
				return
			}
		}
		if w.key != nil {
			name := x
			if name == w.key {
				name = y
			} else if y != w.key {
				name = nil
			}
			if name != nil {
				if c, b, k, ok := w.at(s, list, name); ok {
					w.compared(s, e, c, b, k, v == 1)
					return
				}
			}
		}
	}
	// is there another position?
	for i, t := range cond.A {
		k, num := cond.A[1-i].Int()
		if !num || !t.IsApp("len") || !w.rest(s, list, t.A[0]) && t.A[0] != list {
			continue
		}
		r := t.A[0]
		more := false
		switch {
		case cond.S == "<" && i == 0 && (k == 1 || k == 2), cond.S == "==" && k == 0:
			more = v == -1
		case cond.S == "<" && i == 1 && (k == 0 || k == 1):
			more = v == 1
		default:
			continue
		}
		if r == list {
			if w.known(s, idxTerm(ts, 0, nil, 0), more) {
				return
			}
			w.begin(s)
			s.cells["h.rest"] = list
			w.reached(s, e, list, 0, nil, 0, more)
		} else {
			w.reached(s, e, list, 1, r, 0, more)
		}
		return
	}
	unit := func(b *T) int64 {
		isLen := func(t *T) bool { return t.IsApp("len") && t.A[0] == list }
		switch {
		case b == nil:
		case b.IsApp("/") && b.A[1].IsInt(2) && isLen(b.A[0]), b.IsApp(">>") && b.A[1].IsInt(1) && isLen(b.A[0]):
			return 2
		case isLen(b):
			return 1
		}
		return 0
	}
	ca, ba, ka := affine(x)
	cb, bb, kb := affine(y)
	more := false
	var u, c, k int64
	var b *T
	switch {
	case cond.S == "<" && unit(bb) > 0 && cb == 1:
		more, u, c, b, k = v == 1, unit(bb), ca, ba, ka-kb
	case cond.S == "<" && unit(ba) > 0 && ca == 1 && (bb == nil || unit(bb) == 0) && !(bb == nil && kb == 0):
		more, u, c, b, k = v == -1, unit(ba), cb, bb, kb-ka-1
	case cond.S == "==" && unit(bb) > 0 && cb == 1:
		more, u, c, b, k = v == -1, unit(bb), ca, ba, ka-kb
	case cond.S == "==" && unit(ba) > 0 && ca == 1:
		more, u, c, b, k = v == -1, unit(ba), cb, bb, kb-ka
	case cond.S == "<" && y.IsInt(0) && (unit(ba) == 1 && ca == 1 && ka == -2 || ba != nil && ca == 1 && ka == 0 && func() bool { _, last, _, ok := ex.scan(ba); return ok && last }()):
		// from the last pair to the first one
		w.backwards(s, e, v == -1, ba, ka, unit(ba) == 1)
		return
	default:
		return
	}
	if b != nil && unit(b) > 0 {
		return
	}
	c, k = c*u, k*u
	if c%2 == 0 && k%2 != 0 {
		k-- // the list holds pairs
	}
	if b != nil && c%2 != 0 {
		if first, _, steps, ok := ex.scan(b); ok && len(steps) > 0 && evenSteps(steps) && (c*first+k)%2 != 0 {
			k--
		}
	}
	w.reached(s, e, list, c, b, k, more)
}

// reached follows the decision whether there is an entry at a position.
func (w *search) reached(s *State, e *Event, list *T, c int64, b *T, k int64, more bool) {
	ex := s.ex
	ts := ex.ts
	if b == nil {
		c = 0
	}
	pos := idxTerm(ts, c, b, k)
	if w.known(s, pos, more) {
		return
	}
	start := b == nil && k == 0
	if b == nil && !start && s.cells["h.next"] != pos {
		w.bad(s, e, "order", "the list is not searched from the first name on")
		return
	}
	if start {
		w.begin(s)
	}
	ex.Obl("search", w.op)
	w.moveOn(s, e)
	if nx := s.cells["h.next"]; nx != nil {
		delete(s.cells, "h.next")
		if !start && nx != pos && more {
			w.bad(s, e, "skipped", "after an entry has been removed, the search does not go on with the one that has moved to its place")
		}
	}
	if !more {
		s.cells["h.end"] = ts.Int(1)
		return
	}
	delete(s.cells, "h.end")
	if b != nil && !w.rest(s, list, b) {
		first, last, steps, ok := ex.scan(b)
		good := ok && !last && c*first+k == 0
		for st := range steps {
			if st = st * c; st != 2 && st != 1 && st != 0 {
				good = false
			}
		}
		if !good {
			w.bad(s, e, "order", "the names are not compared one after the other, from the first one on")
		}
	}
	s.cells["h.due"], s.cells["h.at"] = pos, pos
}

// known tells whether it is known already that there is an entry at a position.
func (w *search) known(s *State, pos *T, more bool) bool {
	return more && s.cells["h.at"] == pos && s.cells["h.next"] == nil
}

func evenSteps(steps map[int64]bool) bool {
	for st := range steps {
		if st%2 != 0 {
			return false
		}
	}
	return true
}

func (w *search) backwards(s *State, e *Event, more bool, b *T, k int64, start bool) {
	ts := s.ex.ts
	if start {
		w.begin(s)
	}
	s.ex.Obl("search", w.op)
	w.moveOn(s, e)
	delete(s.cells, "h.next")
	if !w.multi || w.op != "Del" {
		w.bad(s, e, "order", "the names are not compared from the first one on")
	}
	if !more {
		s.cells["h.end"] = ts.Int(1)
		return
	}
	delete(s.cells, "h.end")
	if !start {
		if _, last, steps, ok := s.ex.scan(b); !ok || !last || len(steps) != 1 || !steps[-2] {
			w.bad(s, e, "order", "the names are not compared one after the other")
		}
	}
	s.cells["h.due"] = idxTerm(ts, 1, b, k)
}

// begin forgets what an earlier search has found.
func (w *search) begin(s *State) {
	for _, k := range []string{"h.due", "h.hit", "h.miss", "h.even", "h.end", "h.left", "h.unkept", "h.out", "h.wrong", "h.at"} {
		delete(s.cells, k)
	}
}

// compared follows the comparison of the name at a position.
func (w *search) compared(s *State, e *Event, c int64, b *T, k int64, equal bool) {
	ts := s.ex.ts
	pos := idxTerm(ts, c, b, k)
	even := s.cells["h.even"] == pos || s.cells["h.due"] == pos && w.rest(s, w.list(s, w.h), b) || b == nil && k%2 == 0 || b != nil && c%2 == 0 && k%2 == 0
	if !even && b != nil {
		if first, last, steps, ok := s.ex.scan(b); ok {
			even = evenSteps(steps) && (last || (c*first+k)%2 == 0)
		} else if b.IsApp("len") {
			even = k%2 == 0
		}
	}
	if !even {
		w.bad(s, e, "value", "a value of the list may be taken for a name")
		return
	}
	if s.cells["h.due"] != pos {
		if equal && s.cells["h.at"] != pos {
			w.bad(s, e, "again", "a name is compared that is not the next one")
		}
		return
	}
	delete(s.cells, "h.due")
	if !equal {
		s.cells["h.miss"] = pos
		return
	}
	if s.cells["h.hit"] != nil {
		w.bad(s, e, "goes on", "the search goes on after the first entry with the name")
	}
	s.cells["h.hit"] = pos
}

func checkF06(c *Ctx) {
	n := c.p.NamedType("frame", "Header")
	if n == nil {
		c.Undecided("type frame.Header not found")
		return
	}
	l := &headerList{c: c}
	if st, ok := n.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.String]) {
				l.field, l.typ = c.p.fieldName(n, i), st.Field(i).Type()
			}
		}
	}
	if l.field == "" {
		c.Undecided("frame.Header holds no list of strings")
		return
	}
	done := 0
	for _, op := range []string{"Get", "Contains", "GetAll", "GetAt", "Len", "Set", "Add", "AddHeader", "Del", "Clone"} {
		f := c.p.Method("frame", "Header", op)
		if f == nil || len(f.Blocks) == 0 {
			c.Undecided("frame.Header.%s not found", op)
			continue
		}
		done++
		l.explore(f, op)
	}
	if f := c.p.Func("frame", "NewHeader"); f != nil {
		done++
		l.explore(f, "NewHeader")
	}
	c.Need("operations of headers", done, 11)
	c.NeedObl("search", 4)
	c.NeedObl("result", 8)
	c.NeedObl("change", 3)
}

func (l *headerList) explore(f *ssa.Function, op string) {
	var w *search
	l.c.Explore("frame.Header."+op, f, &funcRule{on: func(s *State, e *Event) {
		ex := s.ex
		ts := ex.ts
		if w == nil {
			w = &search{headerList: l, op: op, h: param(ex, f, 0), multi: op == "GetAll" || op == "Del" || op == "AddHeader", all: op == "AddHeader" || op == "Clone" || op == "NewHeader"}
			switch op {
			case "AddHeader":
				w.h = param(ex, f, 1)
			case "Get", "Contains", "GetAll", "Set", "Del":
				w.key = param(ex, f, 1)
			}
			w.moved = func(s *State, e *Event, hit bool, pos *T) { l.moved(w, s, e, hit, pos) }
		}
		if e.Kind == "crash" {
			return // indexes: F03 and B01; GetAt is documented to panic
		}
		l.on(w, s, e, f, ts)
	}}, func(ex *Exec) {
		ex.Opts.Lows = true
		ex.Opts.Steady = true
		ex.Opts.NoModel = func(n string) bool {
			return strings.HasPrefix(n, "frame.Header.") || n == "frame.NewHeader"
		}
	}, nil, nil)
}

// moved judges that the search leaves a position behind.
func (l *headerList) moved(w *search, s *State, e *Event, hit bool, pos *T) {
	ts := s.ex.ts
	switch w.op {
	case "GetAll":
		if hit {
			w.bad(s, e, "left out", "the value of an entry with the name is not among the results")
			delete(s.cells, "h.hit")
		}
	case "Del":
		if hit {
			s.cells["h.left"] = ts.Int(1)
			delete(s.cells, "h.hit")
		} else if s.cells["h.kept"] != pos {
			s.cells["h.unkept"] = ts.Int(1)
		}
		delete(s.cells, "h.kept")
	}
}

func (l *headerList) on(w *search, s *State, e *Event, f *ssa.Function, ts *Terms) {
	ex := s.ex
	self := param(ex, f, 0)
	op := w.op
	bad := func(rule, construct, format string, args ...interface{}) {
		ex.Bad(s, rule, op+" "+construct, e.Instr, format, args...)
	}
	lookup := op == "Get" || op == "Contains" || op == "GetAll" || op == "GetAt" || op == "Len"
	switch e.Kind {
	case "branch":
		if w.key != nil || w.all {
			w.branch(s, e)
		}
		if op == "NewHeader" || op == "Clone" {
			if cond := e.Args[0]; s.eval(cond) != 0 {
				for cond.IsApp("!") {
					cond = cond.A[0]
				}
				if cond.IsApp("==") && (cond.A[0].IsApp("%") && cond.A[0].A[1].IsInt(2) || cond.A[0].IsApp("&") && cond.A[0].A[1].IsInt(1)) {
					k, num := cond.A[1].Int()
					odd := s.eval(cond) == -1
					if k == 1 {
						odd = !odd
					}
					if num {
						s.cells["h.parity"] = ts.Bool(odd)
					}
				}
			}
		}
	case "slice":
		if e.Args[2].IsInt(0) {
			s.cells["h.none"] = e.Res
		}
	case "makeslice":
		if e.Args[0].IsInt(0) {
			s.cells["h.none"] = e.Res
		} else if e.Args[0].IsApp("len") {
			s.cells["h.made"] = e.Res
			s.cells["h.size"] = e.Args[0].A[0]
		}
	case "copy":
		dst, src := e.Args[0], e.Args[1]
		if dst == s.cells["h.made"] && src == s.cells["h.size"] {
			s.cells["h.filled"] = dst
			return
		}
		list := l.list(s, self)
		if !partOf(list, dst) {
			return
		}
		if p := s.cells["h.hit"]; op == "Del" && p != nil && dst.IsApp("slice") && src.IsApp("slice") && dst.A[0] == list && src.A[0] == list &&
			isPos(ts, dst.A[1], p, 0) && isPos(ts, src.A[1], p, 2) && src.A[2].IsNil() && (dst.A[2].IsNil() || dst.A[2].IsApp("len")) {
			s.cells["h.closed"] = p
			return
		}
		bad("change", "copy", "%s changes the list in another way: %s is copied to %s", op, src, dst)
	case "append":
		base, add := e.Args[0], e.Args[1]
		if lookup && partOf(l.list(s, self), base) {
			bad("change", "lookup", "a lookup may write into the memory of the list")
		}
		x, y, two := l.pair(s, add)
		switch op {
		case "Clone", "NewHeader":
			out := s.cells["h.out"]
			if base != out && !(out == nil && l.none(s, base)) {
				return
			}
			list := l.list(s, w.h)
			if d := s.cells["h.due"]; d != nil && two && l.is(s, list, x, d, 0) && l.is(s, list, y, d, 1) {
				delete(s.cells, "h.due")
				s.cells["h.out"] = e.Res
			}
		case "GetAll":
			out := s.cells["h.out"]
			if base != out && !(out == nil && l.none(s, base)) {
				return
			}
			p := s.cells["h.hit"]
			if p == nil || add.K != KList || len(add.A) != 1 || !l.is(s, l.list(s, w.h), add.A[0], p, 1) {
				bad("result", "foreign", "something is added to the results that is not the value of an entry with the name: %s", add)
			}
			delete(s.cells, "h.hit")
			s.cells["h.out"] = e.Res
		case "Del":
			out := s.cells["h.out"]
			if !two || base != out && !(out == nil && l.none(s, base)) {
				return
			}
			list := l.list(s, w.h)
			if p := s.cells["h.miss"]; p != nil && l.is(s, list, x, p, 0) && l.is(s, list, y, p, 1) && s.cells["h.kept"] == nil {
				s.cells["h.kept"] = p
			} else {
				s.cells["h.wrong"] = ts.Int(1)
			}
			s.cells["h.out"] = e.Res
		}
	case "store":
		a := e.Args[0]
		if e.Name == l.field {
			l.changed(w, s, e, self, bad)
			return
		}
		if a.K == KIdxAddr && w.all && op != "AddHeader" && a.A[0] == s.cells["h.made"] {
			list := l.list(s, w.h)
			d := s.cells["h.due"]
			if d == nil || s.cells["h.size"] != list || !isPos(ts, a.A[1], d, 0) || !l.is(s, list, e.Args[1], d, 0) {
				bad("change", "entry", "%s puts something else into the new list than the entry at the same place: %s", op, e.Args[1])
				return
			}
			if _, b, _ := affine(a.A[1]); b != nil {
				if first, _, steps, ok := ex.scan(b); !ok || first > 0 || len(steps) != 1 || !steps[1] {
					return
				}
			}
			ex.Obl("change", op)
			delete(s.cells, "h.due")
			return
		}
		if a.K == KIdxAddr && partOf(l.list(s, self), a.A[0]) {
			list := l.list(s, self)
			p := s.cells["h.hit"]
			blank := s.cells["h.blank"]
			c, b, k := affine(a.A[1])
			switch {
			case blank != nil && a.A[0] == blank && c == 1 && b.IsApp("len") && (b.A[0] == blank.A[0] && k == 1 || b.A[0] == blank && k == -1) && s.val(e.Args[1]) == s.val(param(ex, f, 2)):
				delete(s.cells, "h.blank")
			case op == "Set" && p != nil && a.A[0] == list && isPos(ts, a.A[1], p, 1) && s.val(e.Args[1]) == s.val(param(ex, f, 2)):
				ex.Obl("change", "Set value")
				s.cells["h.set"] = p
			case op == "Set" && p != nil && a.A[0] == list && isPos(ts, a.A[1], p, 0) && s.val(e.Args[1]) == s.val(w.key):
			case op == "Del" && e.Args[1].IsConst():
				// what is behind the end is cleared
				if _, b, _ := affine(a.A[1]); b == nil || !b.IsApp("len") {
					bad("change", "entry", "%s changes an entry of the list", op)
				}
			default:
				bad("change", "entry", "%s changes an entry of the list: %s becomes %s", op, a, e.Args[1])
			}
		}
	case "recursive":
		if op == "Del" && e.Fn == f && e.Args[0] == self && s.val(e.Args[1]) == s.val(w.key) {
			w.begin(s)
			s.cells["h.clean"] = ts.Int(1) // by induction: what is left is searched from the first name on
		}
	case "exit":
		l.exit(w, s, e, f, bad)
	}
}

// changed judges that the list is replaced.
func (l *headerList) changed(w *search, s *State, e *Event, self *T, bad func(rule, construct, format string, args ...interface{})) {
	ex := s.ex
	ts := ex.ts
	op := w.op
	v := e.Args[1]
	old := e.X[0]
	if e.Args[0] != self && (op == "NewHeader" || op == "Clone") {
		return // judged at the end
	}
	if e.Args[0] != self {
		if op == "AddHeader" && e.Args[0] == w.h {
			bad("change", "other", "AddHeader changes the other header")
		}
		return
	}
	if old == nil {
		old = ts.Init(ts.FldAddr(self, l.field, l.typ), l.typ)
	}
	if v == old {
		return
	}
	x, y, two := (*T)(nil), (*T)(nil), false
	if v.IsApp("append") && v.A[0] == old {
		x, y, two = l.pair(s, v.A[1])
		if one := v.A[1]; one.K == KList && len(one.A) == 1 && op != "Del" {
			p := s.cells["h.part"]
			if p == nil {
				s.cells["h.part"] = one.A[0]
				return
			}
			x, y, two = p, one.A[0], true
			delete(s.cells, "h.part")
		}
	}
	switch op {
	case "Add", "Set":
		m := l.c.p.Method("frame", "Header", op)
		key, val := param(ex, m, 1), param(ex, m, 2)
		if blank := op == "Set" && two && isStr(s.val(y), ""); blank && s.val(y) != s.val(val) {
			s.cells["h.blank"] = v
			y = val
		}
		if !two || s.val(x) != s.val(key) || s.val(y) != s.val(val) {
			bad("change", "list", "%s changes the list in another way than by adding the entry: %s", op, v)
			return
		}
		if op == "Set" && (s.cells["h.end"] == nil || s.cells["h.hit"] != nil) {
			bad("change", "twice", "an entry is added although the list may have one of that name")
		}
		ex.Obl("change", op)
		if s.cells["h.added"] != nil {
			bad("change", "repeated", "the entry is added twice")
		}
		s.cells["h.added"] = ts.Int(1)
	case "AddHeader":
		list := l.list(s, w.h)
		if v.IsApp("append") && v.A[0] == old && v.A[1] == list {
			ex.Obl("change", op)
			if s.cells["h.whole"] != nil {
				bad("change", "repeated", "the entries are added twice")
			}
			s.cells["h.whole"] = ts.Int(1)
			return
		}
		d := s.cells["h.due"]
		if !two || d == nil || !l.is(s, list, x, d, 0) || !l.is(s, list, y, d, 1) {
			bad("change", "list", "AddHeader changes the list in another way than by adding the next entry of the other header: %s", v)
			return
		}
		ex.Obl("change", op)
		delete(s.cells, "h.due")
	case "Del":
		p := s.cells["h.hit"]
		switch {
		case p != nil && v.IsApp("append") && v.A[0].IsApp("slice") && v.A[0].A[0] == old && v.A[0].A[1].IsInt(0) && isPos(ts, v.A[0].A[2], p, 0) &&
			v.A[1].IsApp("slice") && v.A[1].A[0] == old && isPos(ts, v.A[1].A[1], p, 2) && v.A[1].A[2].IsNil(),
			p != nil && s.cells["h.closed"] == p && v.IsApp("slice") && v.A[0] == old && v.A[1].IsInt(0) && isPos(ts, v.A[2], idxTerm(ts, 1, ts.App("len", types.Typ[types.Int], old), -2), 0):
			// the pair is taken out, and the next one is in its place
			ex.Obl("change", op)
			left := s.cells["h.left"]
			w.begin(s)
			if left != nil {
				s.cells["h.left"] = left
			}
			delete(s.cells, "h.closed")
			delete(s.cells, "h.kept")
			n := ts.Fresh("list", v.Typ)
			if s.live[n] {
				s.rename(n, ts.Aged(n))
			}
			s.rename(v, n)
			s.live[n] = true
			s.store(ts.FldAddr(self, l.field, l.typ), n, l.typ)
			s.cells["h.next"] = p
		case (s.cells["h.out"] != nil && v == s.cells["h.out"] || s.cells["h.out"] == nil && l.none(s, v)) && s.cells["h.end"] != nil && s.cells["h.unkept"] == nil && s.cells["h.wrong"] == nil:
			// the list is replaced by what has another name
			ex.Obl("change", op)
			delete(s.cells, "h.left")
			s.cells["h.clean"] = ts.Int(1)
		default:
			bad("change", "list", "Del changes the list in another way than by taking out the entries with the name: %s", v)
		}
	default:
		bad("change", "list", "%s replaces the list", op)
	}
}

// content tells whether a new list holds exactly what another one holds.
func (l *headerList) content(s *State, v, src *T, padded bool) bool {
	odd := s.cells["h.parity"] != nil && s.cells["h.parity"].IsTrue()
	if v.IsApp("append") && padded && v.A[1].K == KList && len(v.A[1].A) == 1 && isStr(v.A[1].A[0], "") {
		return odd && l.content(s, v.A[0], src, false)
	}
	if padded && odd {
		return false
	}
	if v.IsApp("append") {
		return l.none(s, v.A[0]) && v.A[1] == src
	}
	return v == s.cells["h.filled"] && s.cells["h.size"] == src
}

func isStr(t *T, x string) bool {
	v, ok := t.Str()
	return ok && v == x
}

// exit judges the results.
func (l *headerList) exit(w *search, s *State, e *Event, f *ssa.Function, bad func(rule, construct, format string, args ...interface{})) {
	ex := s.ex
	if s.cells["h.part"] != nil {
		bad("result", "half", "%s has added a name without its value", w.op)
	}
	ts := ex.ts
	op := w.op
	self := param(ex, f, 0)
	list := l.list(s, self)
	hit, end := s.cells["h.hit"], s.cells["h.end"] != nil
	if s.cells["h.due"] != nil && hit == nil {
		end = false
	}
	switch op {
	case "Get", "Contains":
		ex.Obl("result", op)
		v := s.val(e.Args[0])
		found := 0
		if op == "Contains" {
			found = s.eval(e.Args[1])
			if e.Args[1].IsConst() {
				found = -1
				if e.Args[1].IsTrue() {
					found = 1
				}
			}
		} else if hit != nil {
			found = 1
		} else if end {
			found = -1
		}
		switch {
		case found == 1 && hit == nil:
			bad("result", "invented", "%s reports an entry that was not found", op)
		case found == 1 && !l.is(s, list, v, hit, 1) && !l.is(s, list, e.Args[0], hit, 1):
			bad("result", "value", "%s does not return the value of the first entry with the name, but %s", op, e.Args[0])
		case found == -1 && (hit != nil || !end):
			bad("result", "missed", "%s may report that there is no entry with the name although there is one", op)
		case found == -1 && !isStr(v, ""):
			bad("result", "nothing", "%s returns %s if there is no entry with the name", op, e.Args[0])
		case found == 0:
			bad("result", "missed", "%s may report that there is no entry with the name before it has searched the whole list", op)
		}
	case "GetAll":
		ex.Obl("result", op)
		out := s.cells["h.out"]
		switch {
		case !end || hit != nil:
			bad("result", "missed", "GetAll may return before it has searched the whole list")
		case out != nil && e.Args[0] != out, out == nil && !l.none(s, e.Args[0]):
			bad("result", "value", "GetAll returns something else than the values that it has found: %s", e.Args[0])
		}
	case "GetAt":
		ex.Obl("result", op)
		i := idxTerm(ts, 2, param(ex, f, 1), 0)
		if !l.is(s, list, e.Args[0], i, 0) || !l.is(s, list, e.Args[1], i, 1) {
			bad("result", "value", "GetAt does not return the name and value at the index, but %s and %s", e.Args[0], e.Args[1])
		}
	case "Len":
		ex.Obl("result", op)
		v := e.Args[0]
		if !((v.IsApp("/") && v.A[1].IsInt(2) || v.IsApp(">>") && v.A[1].IsInt(1)) && v.A[0].IsApp("len") && v.A[0].A[0] == list) {
			bad("result", "value", "Len does not return half of the length of the list, but %s", v)
		}
	case "Set":
		ex.Obl("result", op)
		added := s.cells["h.added"] != nil
		switch {
		case s.cells["h.blank"] != nil:
			bad("result", "value", "Set has added an entry without the value")
		case hit != nil && !added && s.cells["h.set"] == nil && s.eval(ts.Bin(token.EQL, l.value(s, list, hit, 1), param(ex, f, 2), nil)) == 1:
			// it is the value already
		case hit != nil && (s.cells["h.set"] != hit || added):
			bad("result", "value", "Set has not set the value of the first entry with the name")
		case hit == nil && !added:
			bad("result", "missing", "Set has neither set a value nor added the entry")
		}
	case "Add":
		ex.Obl("result", op)
		if s.cells["h.added"] == nil {
			bad("result", "missing", "Add has not added the entry")
		}
	case "AddHeader":
		ex.Obl("result", op)
		if s.isNil(param(ex, f, 1)) == 1 || s.cells["h.whole"] != nil {
			return
		}
		if !end {
			bad("result", "missing", "AddHeader has not added all entries of the other header")
		}
	case "Del":
		ex.Obl("result", op)
		if s.cells["h.clean"] != nil {
			return
		}
		if !end || hit != nil || s.cells["h.left"] != nil || s.cells["h.next"] != nil {
			bad("result", "left", "Del may leave an entry with the name")
		}
	case "NewHeader", "Clone":
		if op == "Clone" && s.isNil(self) == 1 {
			return
		}
		ex.Obl("result", op)
		r := e.Args[0]
		src := list
		if op == "NewHeader" {
			src = self
		}
		got := l.list(s, r)
		if s.cells["h.out"] != nil && got == s.cells["h.out"] && end || s.cells["h.out"] == nil && end && l.none(s, got) {
			return // entry by entry
		}
		if end && got == s.cells["h.made"] && s.cells["h.size"] == src && s.cells["h.due"] == nil {
			return // one by one
		}
		if p := s.cells["h.parity"]; op == "NewHeader" && p == nil && l.content(s, got, src, false) {
			bad("result", "odd", "NewHeader may leave the last name without a value")
		}
		if got == src {
			bad("result", "shared", "the memory of the list is that of another one")
			return
		}
		if !l.content(s, got, src, true) {
			bad("result", "content", "%s does not hold exactly the entries that it is made of, but %s", op, got)
		}
	}
}
