package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind of an abstract value.
type Kind int

const (
	KConst   Kind = iota // constant (payload C) or nil
	KFunc                // function value
	KGlobal              // address of a package-level variable
	KParam               // parameter of the analysed root
	KFresh               // unknown value produced at a program point
	KAlloc               // address of an allocation made at a program point
	KFldAddr             // address of field S of *A[0]
	KIdxAddr             // address of element A[1] of A[0]
	KInit                // value of the cell at address A[0] before any known store
	KFld                 // field S of struct value A[0]
	KStruct              // struct value, fields A
	KTuple               // multiple results
	KClosure             // closure of function V with bindings A
	KIface               // interface holding A[0] with dynamic type Typ
	KApp                 // pure operation S on A
	KList                // list of values (variadic arguments)
)

// T is a hash-consed abstract value.
type T struct {
	ID   int
	K    Kind
	S    string
	A    []*T
	C    constant.Value
	Typ  types.Type
	V    interface{}
	Sum  bool // summary: stands for several values
	size int
}

// Terms interns terms.
type Terms struct {
	m      map[string]*T
	list   []*T
	normed map[*T]*T
}

func NewTerms() *Terms { return &Terms{m: map[string]*T{}, normed: map[*T]*T{}} }

func (ts *Terms) mk(k Kind, s string, key string, sum bool, a []*T, fill func(*T)) *T {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(k)))
	b.WriteByte('|')
	b.WriteString(s)
	b.WriteByte('|')
	b.WriteString(key)
	if sum {
		b.WriteString("|S")
	}
	for _, x := range a {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(x.ID))
	}
	h := b.String()
	if t, ok := ts.m[h]; ok {
		return t
	}
	t := &T{ID: len(ts.list) + 1, K: k, S: s, A: a, Sum: sum, size: 1}
	for _, x := range a {
		t.size += x.size
	}
	if fill != nil {
		fill(t)
	}
	ts.m[h] = t
	ts.list = append(ts.list, t)
	return t
}

func typKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func (ts *Terms) Const(c constant.Value, typ types.Type) *T {
	if c == nil {
		return ts.Nil()
	}
	key := ""
	if c.Kind() == constant.Float || c.Kind() == constant.Complex {
		key = "float" // 1.0 is not the integer 1
	}
	return ts.mk(KConst, c.ExactString(), key, false, nil, func(t *T) { t.C = c; t.Typ = typ })
}
func (ts *Terms) Nil() *T         { return ts.mk(KConst, "nil", "nil", false, nil, nil) }
func (ts *Terms) Bool(b bool) *T  { return ts.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (ts *Terms) Int(i int64) *T  { return ts.Const(constant.MakeInt64(i), types.Typ[types.Int]) }
func (ts *Terms) Str(s string) *T { return ts.Const(constant.MakeString(s), types.Typ[types.String]) }
func (ts *Terms) Func(f *ssa.Function) *T {
	return ts.mk(KFunc, f.String(), fmt.Sprint(f.Pos()), false, nil, func(t *T) { t.V = f; t.Typ = f.Signature })
}
func (ts *Terms) Global(g *ssa.Global) *T {
	return ts.mk(KGlobal, g.String(), "", false, nil, func(t *T) { t.V = g; t.Typ = g.Type() })
}
func (ts *Terms) Param(name string, typ types.Type) *T {
	return ts.mk(KParam, name, "", false, nil, func(t *T) { t.Typ = typ })
}
func (ts *Terms) Fresh(site string, typ types.Type) *T {
	return ts.mk(KFresh, site, "", false, nil, func(t *T) { t.Typ = typ })
}
func (ts *Terms) Alloc(site string, typ types.Type) *T {
	return ts.mk(KAlloc, site, "", false, nil, func(t *T) { t.Typ = typ })
}
func (ts *Terms) Aged(t *T) *T {
	return ts.mk(t.K, t.S, "", true, nil, func(n *T) { n.Typ = t.Typ })
}
func (ts *Terms) unaged(t *T) *T {
	return ts.mk(t.K, t.S, "", false, nil, func(n *T) { n.Typ = t.Typ })
}
func (ts *Terms) FldAddr(base *T, field string, typ types.Type) *T {
	return ts.mk(KFldAddr, field, "", false, []*T{base}, func(t *T) { t.Typ = typ })
}
func (ts *Terms) IdxAddr(base, idx *T, typ types.Type) *T {
	return ts.mk(KIdxAddr, "", "", false, []*T{base, idx}, func(t *T) { t.Typ = typ })
}
func (ts *Terms) Init(addr *T, typ types.Type) *T {
	return ts.mk(KInit, "", "", false, []*T{addr}, func(t *T) { t.Typ = typ })
}
func (ts *Terms) Fld(x *T, field string, typ types.Type) *T {
	return ts.mk(KFld, field, "", false, []*T{x}, func(t *T) { t.Typ = typ })
}
func (ts *Terms) Struct(typ types.Type, fields []*T) *T {
	return ts.mk(KStruct, typKey(typ), "", false, fields, func(t *T) { t.Typ = typ })
}
func (ts *Terms) Tuple(a ...*T) *T { return ts.mk(KTuple, "", "", false, a, nil) }
func (ts *Terms) List(a ...*T) *T  { return ts.mk(KList, "", "", false, a, nil) }
func (ts *Terms) Closure(f *ssa.Function, b []*T) *T {
	return ts.mk(KClosure, f.String(), fmt.Sprint(f.Pos()), false, b, func(t *T) { t.V = f; t.Typ = f.Signature })
}
func (ts *Terms) Iface(dyn types.Type, x *T) *T {
	if x.K == KIface {
		return x
	}
	return ts.mk(KIface, typKey(dyn), "", false, []*T{x}, func(t *T) { t.Typ = dyn })
}
func (ts *Terms) App(op string, typ types.Type, a ...*T) *T {
	return ts.mk(KApp, op, "", false, a, func(t *T) { t.Typ = typ })
}

// Subst replaces terms structurally.
func (ts *Terms) Subst(t *T, from, to *T, memo map[*T]*T) *T {
	if t == nil {
		return nil
	}
	if t == from {
		return to
	}
	if len(t.A) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	changed := false
	na := make([]*T, len(t.A))
	for i, x := range t.A {
		na[i] = ts.Subst(x, from, to, memo)
		if na[i] != x {
			changed = true
		}
	}
	r := t
	if changed {
		r = ts.rebuild(t, na)
	}
	memo[t] = r
	return r
}

func (ts *Terms) rebuild(old *T, na []*T) *T {
	key := ""
	if f, ok := old.V.(*ssa.Function); ok {
		key = fmt.Sprint(f.Pos())
	}
	return ts.mk(old.K, old.S, key, old.Sum, na, func(n *T) { n.Typ = old.Typ; n.C = old.C; n.V = old.V })
}

// Contains reports whether x occurs in t.
func (t *T) Contains(x *T) bool {
	if t == nil {
		return false
	}
	if t == x {
		return true
	}
	if t.size <= x.size {
		return false
	}
	for _, a := range t.A {
		if a.Contains(x) {
			return true
		}
	}
	return false
}

// HasSum reports whether a summary value occurs in t.
func (t *T) HasSum() bool {
	if t.Sum {
		return true
	}
	for _, a := range t.A {
		if a.HasSum() {
			return true
		}
	}
	return false
}

func (t *T) IsNil() bool   { return t != nil && t.K == KConst && t.C == nil }
func (t *T) IsConst() bool { return t != nil && t.K == KConst }
func (t *T) IsTrue() bool {
	return t.IsConst() && t.C != nil && t.C.Kind() == constant.Bool && constant.BoolVal(t.C)
}
func (t *T) IsFalse() bool {
	return t.IsConst() && t.C != nil && t.C.Kind() == constant.Bool && !constant.BoolVal(t.C)
}

// Str returns the string constant, if t is one.
func (t *T) Str() (string, bool) {
	if t.IsConst() && t.C != nil && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func (t *T) IsStr(s string) bool { v, ok := t.Str(); return ok && v == s }

// Int returns the integer constant, if t is one.
func (t *T) Int() (int64, bool) {
	if t.IsConst() && t.C != nil && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}
func (t *T) IsInt(i int64) bool { v, ok := t.Int(); return ok && v == i }

// Un strips interface wrapping.
func (t *T) Un() *T {
	for t != nil && t.K == KIface {
		t = t.A[0]
	}
	return t
}

// IsApp reports whether t is the pure operation op.
func (t *T) IsApp(op string) bool { return t != nil && t.K == KApp && t.S == op }

// FieldOf returns base and field if t is the value of a field of an object.
func (t *T) FieldOf() (base *T, field string, ok bool) {
	if t == nil {
		return nil, "", false
	}
	if t.K == KInit && t.A[0].K == KFldAddr {
		return t.A[0].A[0], t.A[0].S, true
	}
	if t.K == KFld {
		return t.A[0], t.S, true
	}
	return nil, "", false
}

func (t *T) String() string {
	if t == nil {
		return "<none>"
	}
	args := func() string {
		var s []string
		for _, a := range t.A {
			s = append(s, a.String())
		}
		return strings.Join(s, ", ")
	}
	short := func(s string) string {
		if i := strings.LastIndex(s, "/"); i >= 0 {
			s = s[i+1:]
		}
		return s
	}
	sum := ""
	if t.Sum {
		sum = "~"
	}
	switch t.K {
	case KConst:
		if t.C == nil {
			return "nil"
		}
		return t.C.String()
	case KFunc:
		return short(t.S)
	case KGlobal:
		return "&" + short(t.S)
	case KParam:
		return t.S
	case KFresh:
		return "?" + sum + short(t.S)
	case KAlloc:
		return "new" + sum + "(" + short(t.S) + ")"
	case KFldAddr:
		return "&" + t.A[0].String() + "." + fieldShort(t.S)
	case KIdxAddr:
		return "&" + t.A[0].String() + "[" + t.A[1].String() + "]"
	case KInit:
		return "*" + t.A[0].String()
	case KFld:
		return t.A[0].String() + "." + fieldShort(t.S)
	case KStruct:
		return short(t.S) + "{" + args() + "}"
	case KTuple:
		return "(" + args() + ")"
	case KClosure:
		return "closure " + short(t.S)
	case KIface:
		return t.A[0].String()
	case KApp:
		return t.S + "(" + args() + ")"
	case KList:
		return "[" + args() + "]"
	}
	return "?"
}

func fieldShort(f string) string {
	if i := strings.LastIndex(f, "."); i >= 0 {
		return f[i+1:]
	}
	return f
}

// foldBin folds a binary operation on constants.
func (ts *Terms) foldBin(op token.Token, x, y *T, typ types.Type) *T {
	if !x.IsConst() || !y.IsConst() {
		return nil
	}
	if x.C == nil || y.C == nil {
		switch op {
		case token.EQL:
			return ts.Bool(x.C == nil && y.C == nil)
		case token.NEQ:
			return ts.Bool(!(x.C == nil && y.C == nil))
		}
		return nil
	}
	defer func() { recover() }()
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return ts.Bool(constant.Compare(x.C, op, y.C))
	case token.SHL, token.SHR:
		s, ok := constant.Uint64Val(y.C)
		if !ok || s > 64 {
			return nil
		}
		return ts.Const(constant.Shift(x.C, op, uint(s)), typ)
	case token.QUO:
		if constant.Sign(y.C) == 0 {
			return nil
		}
		if x.C.Kind() == constant.Int && y.C.Kind() == constant.Int {
			return ts.Const(constant.BinaryOp(x.C, token.QUO_ASSIGN, y.C), typ)
		}
		return ts.Const(constant.BinaryOp(x.C, op, y.C), typ)
	case token.REM:
		if constant.Sign(y.C) == 0 {
			return nil
		}
	}
	v := constant.BinaryOp(x.C, op, y.C)
	if v.Kind() == constant.Unknown {
		return nil
	}
	return ts.Const(v, typ)
}

// Bin builds a binary operation in a canonical form.
func (ts *Terms) Bin(op token.Token, x, y *T, typ types.Type) *T {
	if f := ts.foldBin(op, x, y, typ); f != nil {
		return f
	}
	not := func(t *T) *T { return ts.Not(t) }
	// a product with a positive constant has the sign of the other factor
	scaled := func(t *T) *T {
		if t.IsApp("*") && len(t.A) == 2 {
			if k, ok := t.A[1].Int(); ok && k > 0 {
				return t.A[0]
			}
		}
		return nil
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a := scaled(x); a != nil && y.IsInt(0) {
			return ts.Bin(op, a, y, typ)
		}
		if a := scaled(y); a != nil && x.IsInt(0) {
			return ts.Bin(op, x, a, typ)
		}
	case token.MUL:
		if k, ok := y.Int(); ok && k > 0 && x.IsApp("*") && len(x.A) == 2 {
			if m, ok := x.A[1].Int(); ok && m > 0 && k < 1<<40 && m < 1<<40 && k*m < 1<<60 {
				return ts.Bin(op, x.A[0], ts.Const(constant.MakeInt64(k*m), typ), typ)
			}
		}
	}
	switch op {
	case token.NEQ:
		return not(ts.Bin(token.EQL, x, y, typ))
	case token.GTR:
		return ts.Bin(token.LSS, y, x, typ)
	case token.LEQ:
		return not(ts.Bin(token.LSS, y, x, typ))
	case token.GEQ:
		return not(ts.Bin(token.LSS, x, y, typ))
	case token.EQL:
		// nil-ness of interfaces and pointers
		ux, uy := x, y
		if (ux.IsNil() && nonNilTerm(uy)) || (uy.IsNil() && nonNilTerm(ux)) {
			return ts.Bool(false)
		}
		if x.K == KIface && y.K == KIface {
			if x == y && !x.HasSum() {
				return ts.Bool(true)
			}
			if x.S != y.S {
				return ts.Bool(false)
			}
			return ts.Bin(op, x.A[0], y.A[0], typ)
		}
		// a value held in an interface, compared with an interface that
		// the type checker guarantees to hold the same type
		if x.K == KIface && !y.IsConst() && !y.IsNil() {
			x = x.A[0]
		} else if y.K == KIface && !x.IsConst() && !x.IsNil() {
			y = y.A[0]
		}
		if x == y && !x.HasSum() {
			return ts.Bool(true)
		}
		if x.K == KAlloc && y.K == KAlloc && x != y && !x.Sum && !y.Sum {
			return ts.Bool(false)
		}
		if x.IsConst() || (!y.IsConst() && x.ID > y.ID) {
			x, y = y, x
		}
		// normalise len(x) == 0 comparisons are left to facts
		if y.IsTrue() {
			return x
		}
		if y.IsFalse() {
			return not(x)
		}
		// x[:len(p)] == p
		if p, ok := y.Str(); ok && p != "" && x.IsApp("slice") && (x.A[1].IsInt(0) || x.A[1].IsNil()) && x.A[2].IsInt(int64(len(p))) && isString(x.A[0].Typ) {
			return ts.App("strings.HasPrefix", types.Typ[types.Bool], x.A[0], y)
		}
		return ts.App("==", types.Typ[types.Bool], x, y)
	case token.LSS:
		if x == y {
			return ts.Bool(false)
		}
		return ts.App("<", types.Typ[types.Bool], x, y)
	case token.ADD, token.MUL:
		if x.IsConst() && !y.IsConst() {
			if _, s := x.Str(); !s {
				x, y = y, x
			}
		} else if op == token.MUL && !y.IsConst() && x.ID > y.ID {
			x, y = y, x
		}
		if op == token.MUL && y.IsInt(1) {
			return x
		}
		if op == token.ADD && y.IsInt(0) {
			return x
		}
	}
	return ts.App(op.String(), typ, x, y)
}

func (ts *Terms) Not(t *T) *T {
	if t.IsTrue() {
		return ts.Bool(false)
	}
	if t.IsFalse() {
		return ts.Bool(true)
	}
	if t.IsApp("!") {
		return t.A[0]
	}
	return ts.App("!", types.Typ[types.Bool], t)
}

func nonNilTerm(t *T) bool {
	switch t.K {
	case KAlloc, KFunc, KClosure, KIface, KFldAddr, KIdxAddr, KGlobal, KStruct:
		return true
	case KConst:
		return t.C != nil
	case KFresh:
		return strings.HasPrefix(t.S, "make@") || strings.HasPrefix(t.S, "nonnil@")
	case KApp:
		switch t.S {
		case "list.New", "slice", "errors.New", "fmt.Errorf", "time.NewTimer", "bytesOf":
			return true
		case "append":
			return len(t.A) == 2 && (t.A[1].K == KList && len(t.A[1].A) > 0 || nonNilTerm(t.A[0]))
		}
	}
	return false
}

func sortTerms(a []*T) { sort.Slice(a, func(i, j int) bool { return a[i].ID < a[j].ID }) }

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
