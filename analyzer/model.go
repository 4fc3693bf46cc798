package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Pure standard library functions: equal arguments give equal results.
var pureFuncs = map[string]bool{
	"strconv.Itoa": true, "strconv.FormatUint": true, "strconv.FormatInt": true, "strconv.ParseUint": true, "strconv.ParseInt": true, "strconv.Atoi": true,
	"strings.Split": true, "strings.SplitN": true, "strings.Join": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.TrimSpace": true, "strings.Contains": true,
	"strings.Index": true, "strings.IndexByte": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.ToLower": true, "strings.ToUpper": true, "strings.EqualFold": true, "strings.Fields": true,
	"strings.Compare": true, "strings.ReplaceAll": true, "strings.Replace": true, "strings.Replacer.Replace": true,
	"fmt.Sprintf": true, "fmt.Sprint": true, "errors.New": true, "fmt.Errorf": true,
	"bytes.HasSuffix": true, "bytes.HasPrefix": true, "bytes.IndexByte": true, "bytes.Index": true, "bytes.Equal": true, "bytes.TrimSuffix": true, "bytes.TrimRight": true, "bytes.TrimPrefix": true, "bytes.TrimSpace": true, "bytes.Contains": true, "bytes.SplitN": true, "bytes.Split": true, "bytes.Cut": true, "strings.Cut": true, "strings.IndexRune": true, "strings.TrimRight": true,
	"net.SplitHostPort": true, "regexp.Regexp.MatchString": true, "time.Time.Add": true, "time.Duration.Milliseconds": true, "errors.Is": true,
	"math.Min": true, "math.Max": true,
}

func (ex *Exec) model(s *State, ci *CallInfo, kind int) ([]*State, bool) {
	ts := ex.ts
	in := ci.Instr
	args := ci.Args
	fin := func(n *State, res *T) { ex.finish(n, in, kind, res) }
	ev := func(n *State, e *Event) {
		e.Instr = in
		if e.Name == "" {
			e.Name = ci.Name
		}
		if e.Args == nil {
			e.Args = args
		}
		e.Fn = ci.Fn
		ex.emit(n, e)
	}
	name := ci.Name
	if ex.Opts.ModelFrame && (ex.Opts.NoModel == nil || !ex.Opts.NoModel(name)) {
		if r, ok := ex.modelFrame(s, ci, kind); ok {
			return r, true
		}
	}
	switch name {
	case "container/list.New":
		l := s.fresh("nonnil", in, "", ci.Typ)
		s.lists[l] = listState{known: true, empty: true}
		fin(s, l)
		return one(s), true
	case "container/list.List.PushBack", "container/list.List.PushFront":
		l, v := args[0], args[1].Un()
		back := strings.HasSuffix(name, "PushBack")
		kindS := "pushfront"
		if back {
			kindS = "pushback"
		}
		e := s.fresh("nonnil", in, "", ci.Typ)
		s.assume(ts.Bin(token.EQL, e, ts.Nil(), nil), false)
		s.heap[ts.FldAddr(e, "container/list.Element.Value", nil)] = args[1]
		st := s.lists[l]
		if !l.HasSum() {
			if st.known && st.empty {
				st = listState{known: true, front: e, back: e}
			} else if back {
				st = listState{known: true, front: st.front, back: e}
			} else {
				st = listState{known: true, front: e, back: st.back}
			}
			s.lists[l] = st
		}
		s.listChanged()
		ev(s, &Event{Kind: kindS, Name: ex.chanName(l), Args: []*T{l, v}, Res: e})
		fin(s, e)
		return one(s), true
	case "container/list.List.Init":
		s.lists[args[0]] = listState{known: true, empty: true}
		s.listChanged()
		ev(s, &Event{Kind: "listinit", Name: ex.chanName(args[0]), Args: args})
		fin(s, args[0])
		return one(s), true
	case "container/list.List.Remove":
		l, e := args[0], args[1]
		v := s.elemValue(e, in)
		if ex.Opts.LoadHook != nil {
			ex.Opts.LoadHook(s, ts.FldAddr(e, "container/list.Element.Value", nil), v, in)
		}
		st := s.lists[l]
		if !l.HasSum() {
			ns := listState{}
			if st.known && !st.empty {
				if st.front != nil && st.front != e {
					ns.known, ns.front = true, st.front
				}
				if st.back != nil && st.back != e {
					ns.known, ns.back = true, st.back
				}
				if st.front == e && st.back == e {
					ns = listState{known: true, empty: true}
				}
			}
			s.lists[l] = ns
		}
		if !e.HasSum() {
			s.removed[e] = true
		}
		s.listChanged()
		ev(s, &Event{Kind: "listremove", Name: ex.chanName(l), Args: []*T{l, e, v.Un()}})
		fin(s, v)
		return one(s), true
	case "container/list.List.Front", "container/list.List.Back", "container/list.List.Len":
		l := args[0]
		if s.isNil(l) == 1 {
			return ex.crash(s, in, "nilderef", l), true
		}
		what := strings.TrimPrefix(name, "container/list.List.")
		fill := func(n *State) {
			st := n.lists[l]
			if st.known && st.empty {
				r := ts.Nil()
				if what == "Len" {
					r = ts.Int(0)
				}
				ex.emit(n, &Event{Kind: "list" + strings.ToLower(what), Name: ex.chanName(l), Args: []*T{l}, Res: r, Instr: in, Tag: "empty"})
				fin(n, r)
				return
			}
			if what == "Len" {
				v := n.fresh("len", in, "", types.Typ[types.Int])
				ex.emit(n, &Event{Kind: "listlen", Name: ex.chanName(l), Args: []*T{l}, Res: v, Instr: in})
				n.assume(ts.Bin(token.LSS, v, ts.Int(1), nil), false)
				fin(n, v)
				return
			}
			v := st.front
			if what == "Back" {
				v = st.back
			}
			if v == nil {
				v = n.fresh("nonnil", in, "", ci.Typ)
				if what == "Front" {
					st.front = v
				} else {
					st.back = v
				}
				if !l.HasSum() {
					n.lists[l] = st
				}
			}
			n.assume(ts.Bin(token.EQL, v, ts.Nil(), nil), false)
			if what == "Front" && st.back != nil && !l.HasSum() {
				n.heap[ts.FldAddr(v, "container/list.Element.list", nil)] = l
			}
			ex.emit(n, &Event{Kind: "list" + strings.ToLower(what), Name: ex.chanName(l), Args: []*T{l}, Res: v, Instr: in})
			fin(n, v)
		}
		st := s.lists[l]
		if st.known {
			fill(s)
			return one(s), true
		}
		o := s.clone()
		if !l.HasSum() {
			s.lists[l] = listState{known: true, front: st.front, back: st.back}
			o.lists[l] = listState{known: true, empty: true}
			s.note(instrPos(in), "list is not empty: "+l.String())
			o.note(instrPos(in), "list is empty: "+l.String())
			fill(s)
			fill(o)
		} else {
			r, v := ts.Nil(), (*T)(nil)
			if what == "Len" {
				r, v = ts.Int(0), s.fresh("len", in, "", types.Typ[types.Int])
			} else {
				v = s.fresh("nonnil", in, "", ci.Typ)
			}
			k := "list" + strings.ToLower(what)
			ex.emit(s, &Event{Kind: k, Name: ex.chanName(l), Args: []*T{l}, Res: v, Instr: in})
			ex.emit(o, &Event{Kind: k, Name: ex.chanName(l), Args: []*T{l}, Res: r, Instr: in, Tag: "empty"})
			fin(s, v)
			fin(o, r)
		}
		return []*State{s, o}, true
	case "container/list.Element.Next", "container/list.Element.Prev":
		e := args[0]
		if s.isNil(e) == 1 {
			return ex.crash(s, in, "nilderef", e), true
		}
		fin := func(n *State, r *T) {
			ev(n, &Event{Kind: "list" + strings.ToLower(ci.Fn.Name()), Args: []*T{e}, Res: r})
			fin(n, r)
		}
		if s.removed[e] {
			fin(s, ts.Nil())
			return one(s), true
		}
		cell := ts.FldAddr(e, "container/list.Element."+ci.Fn.Name(), ci.Typ)
		v, ok := s.heap[cell]
		if l := s.heap[ts.FldAddr(e, "container/list.Element.list", nil)]; l != nil && !ok && !e.HasSum() && ci.Fn.Name() == "Next" && s.lists[l].back != nil {
			// the last element is known: is this the one?
			switch s.eval(ts.Bin(token.EQL, e, s.lists[l].back, nil)) {
			case 1:
				s.heap[cell] = ts.Nil()
				fin(s, ts.Nil())
				return one(s), true
			case -1:
				v = s.freshElem(&cell, in, ci.Typ)
				s.heap[cell] = v
				s.heap[ts.FldAddr(v, "container/list.Element.list", nil)] = l
				e = cell.A[0]
				fin(s, v)
				return one(s), true
			}
		}
		if !ok {
			o := s.clone()
			s.note(instrPos(in), "there is a further list element")
			o.note(instrPos(in), "no further list element")
			if !cell.HasSum() {
				o.heap[cell] = ts.Nil()
			}
			fin(o, ts.Nil())
			v = s.freshElem(&cell, in, ci.Typ)
			if !cell.HasSum() {
				s.heap[cell] = v
			}
			e = cell.A[0]
			fin(s, v)
			return []*State{s, o}, true
		}
		fin(s, v)
		return one(s), true
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock":
		s.locks = append(s.locks, args[0])
		ex.havocGuarded(s, args[0], in)
		ev(s, &Event{Kind: "lock"})
		fin(s, nil)
		return one(s), true
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock":
		held := false
		for i := len(s.locks) - 1; i >= 0; i-- {
			if s.locks[i] == args[0] {
				s.locks = append(s.locks[:i:i], s.locks[i+1:]...)
				held = true
				break
			}
		}
		e := &Event{Kind: "unlock"}
		if !held {
			e.Tag = "notheld"
		}
		ev(s, e)
		fin(s, nil)
		return one(s), true
	case "sync.Once.Do":
		ev(s, &Event{Kind: "once"})
		owned, k := ex.Opts.Once != nil && ex.Opts.Once(s, args[0]), "once."+args[0].String()
		if owned && s.cells[k] != nil {
			fin(s, nil)
			return one(s), true
		}
		o := s.clone()
		fin(o, nil)
		o.note(instrPos(in), "sync.Once: already done")
		s.note(instrPos(in), "sync.Once: first call")
		f := args[1]
		if f.K == KFunc || f.K == KClosure {
			var b []*T
			if f.K == KClosure {
				b = f.A
			}
			fn := f.V.(*ssa.Function)
			cc := &ssa.CallCommon{Value: fn}
			if owned {
				s.cells[k] = ts.Int(1)
				return ex.callFn(s, in, cc, fn, b, nil, kind), true
			}
			r := ex.callFn(s, in, cc, fn, b, nil, kind)
			return append(r, o), true
		}
		fin(s, nil)
		return []*State{s, o}, true
	}
	if op := atomicOp(name); op != "" {
		e := &Event{Kind: "atomic", Name: op}
		switch {
		case strings.HasPrefix(op, "CompareAndSwap"):
			o := s.clone()
			s.note(instrPos(in), "compare-and-swap succeeds")
			o.note(instrPos(in), "compare-and-swap fails")
			e.Res = ts.Bool(true)
			ev(s, e)
			fin(s, ts.Bool(true))
			e2 := *e
			e2.Res = ts.Bool(false)
			ev(o, &e2)
			fin(o, ts.Bool(false))
			return []*State{s, o}, true
		case strings.HasPrefix(op, "Store"):
			ev(s, e)
			fin(s, nil)
		default:
			v := s.fresh("atomic", in, "", ci.Typ)
			e.Res = v
			ev(s, e)
			fin(s, v)
		}
		return one(s), true
	}
	switch name {
	case "time.NewTimer", "time.After", "time.NewTicker", "time.Tick", "context.Background":
		v := s.fresh("nonnil", in, "", ci.Typ)
		ev(s, &Event{Kind: "call", Res: v, Tag: "opaque"})
		fin(s, v)
		return one(s), true
	}
	if pureFuncs[name] {
		sig := ci.Call.Signature()
		na := make([]*T, len(args))
		for i, a := range args {
			na[i] = s.val(a)
		}
		var res *T
		r := sig.Results()
		if r.Len() == 1 {
			res = ex.foldPure(name, na)
			if res == nil {
				res = ex.foldBytes(name, na, r.At(0).Type())
			}
			if res == nil {
				res = ts.App(name, r.At(0).Type(), na...)
			}
			if res.size > 60 {
				res = s.fresh("pure", in, "", r.At(0).Type())
			}
		} else {
			var a []*T
			for i := 0; i < r.Len(); i++ {
				t := ts.App(name+"#"+strconv.Itoa(i), r.At(i).Type(), na...)
				if t.size > 60 {
					t = s.fresh("pure", in, "."+strconv.Itoa(i), r.At(i).Type())
				}
				a = append(a, t)
			}
			res = ts.Tuple(a...)
		}
		ev(s, &Event{Kind: "pure", Res: res})
		fin(s, res)
		return one(s), true
	}
	return nil, false
}

// foldBytes evaluates functions of known strings and byte slices.
func (ex *Exec) foldBytes(name string, a []*T, typ types.Type) *T {
	ts := ex.ts
	i := strings.IndexByte(name, '.')
	pk, fn := name[:i], name[i+1:]
	if pk != "bytes" && pk != "strings" || len(a) == 0 {
		return nil
	}
	x, ok := bytesOf(a[0])
	if !ok {
		return nil
	}
	y, n, ok2 := "", int64(0), true
	if len(a) == 2 {
		if y, ok2 = bytesOf(a[1]); !ok2 {
			n, ok2 = a[1].Int()
			if !strings.HasSuffix(fn, "Byte") && !strings.HasSuffix(fn, "Rune") {
				return nil
			}
			y = string(rune(n))
		}
	}
	if !ok2 || len(a) > 2 {
		return nil
	}
	str := func(v string) *T {
		if pk == "bytes" {
			return ts.App("bytes", typ, ts.Str(v))
		}
		return ts.Str(v)
	}
	switch fn {
	case "HasSuffix":
		return ts.Bool(strings.HasSuffix(x, y))
	case "HasPrefix":
		return ts.Bool(strings.HasPrefix(x, y))
	case "Equal":
		return ts.Bool(x == y)
	case "Contains":
		return ts.Bool(strings.Contains(x, y))
	case "Index", "IndexByte", "IndexRune":
		return ts.Int(int64(strings.Index(x, y)))
	case "TrimSuffix":
		return str(strings.TrimSuffix(x, y))
	case "TrimPrefix":
		return str(strings.TrimPrefix(x, y))
	case "TrimRight":
		return str(strings.TrimRight(x, y))
	case "TrimSpace":
		return str(strings.TrimSpace(x))
	}
	return nil
}

func (ex *Exec) foldPure(name string, a []*T) *T {
	ts := ex.ts
	switch name {
	case "strconv.Itoa":
		if v, ok := a[0].Int(); ok {
			return ts.Str(strconv.FormatInt(v, 10))
		}
	case "time.Duration.Milliseconds":
		return ts.Bin(token.QUO, a[0], ts.Int(1000000), types.Typ[types.Int64])
	case "strings.TrimSpace":
		if v, ok := a[0].Str(); ok {
			return ts.Str(strings.TrimSpace(v))
		}
	case "strings.ToLower":
		if v, ok := a[0].Str(); ok {
			return ts.Str(strings.ToLower(v))
		}
	case "strings.ToUpper":
		if v, ok := a[0].Str(); ok {
			return ts.Str(strings.ToUpper(v))
		}
	case "fmt.Sprint", "fmt.Sprintf":
		f := "%v"
		if name == "fmt.Sprintf" {
			var ok bool
			if f, ok = a[0].Str(); !ok {
				return nil
			}
			a = a[1:]
		}
		if len(a) != 1 || a[0].K != KList {
			return nil
		}
		l := a[0].A
		if name == "fmt.Sprint" && len(l) != 1 {
			return nil
		}
		return ts.formatted(f, l)
	case "strings.HasPrefix":
		x, ok1 := a[0].Str()
		y, ok2 := a[1].Str()
		if ok1 && ok2 {
			return ts.Bool(strings.HasPrefix(x, y))
		}
	}
	return nil
}

func (s *State) elemValue(e *T, in ssa.Instruction) *T {
	var typ types.Type = types.NewInterfaceType(nil, nil)
	return s.load(s.ex.ts.FldAddr(e, "container/list.Element.Value", nil), typ, in)
}

// havocGuarded forgets the fields that other goroutines may have changed before the lock was obtained.
func (ex *Exec) havocGuarded(s *State, mu *T, in ssa.Instruction) {
	base, field, ok := mu.FieldOf()
	if !ok && mu.K == KFldAddr {
		base, field, ok = mu.A[0], mu.S, true
	}
	if !ok {
		return
	}
	i := strings.LastIndex(field, ".")
	prefix := field[:i+1]
	for name := range ex.p.info.accesses {
		if strings.HasPrefix(name, prefix) && !ex.p.info.immutable[name] && ex.p.info.confined[name] == nil {
			s.dirty[name] = true
			for k := range s.heap {
				if k.K == KFldAddr && k.S == name && k.A[0] == base {
					delete(s.heap, k)
				}
			}
		}
	}
}

// listChanged forgets the neighbours of list elements.
func (s *State) listChanged() {
	for k := range s.heap {
		if k.K == KFldAddr && (k.S == "container/list.Element.Next" || k.S == "container/list.Element.Prev") {
			delete(s.heap, k)
		}
	}
}

// hdrOf returns the header of a frame value.
func (s *State) hdrOf(f *T) *T {
	return s.peek(f, "frame.Frame.Header")
}

// cmdOf returns what is known about the command of a frame.
func (s *State) cmdOf(f *T) *T {
	return s.val(s.peek(f, "frame.Frame.Command"))
}

// modelFrame treats the frame package's API as primitive operations.
func (ex *Exec) modelFrame(s *State, ci *CallInfo, kind int) ([]*State, bool) {
	if !strings.HasPrefix(ci.Name, "frame.") {
		return nil, false
	}
	ts := ex.ts
	in := ci.Instr
	args := ci.Args
	fin := func(n *State, res *T) { ex.finish(n, in, kind, res) }
	ev := func(n *State, e *Event) {
		e.Instr = in
		if e.Name == "" {
			e.Name = ci.Name
		}
		if e.Args == nil {
			e.Args = args
		}
		e.Fn = ci.Fn
		ex.emit(n, e)
	}
	key := func(i int) *T { return s.val(args[i]) }
	if strings.HasPrefix(ci.Name, "frame.Header.") && s.isNil(args[0]) == 1 {
		return ex.crash(s, in, "nilderef", args[0]), true
	}
	switch ci.Name {
	case "frame.Header.Contains", "frame.Header.Get":
		h, k := args[0], key(1)
		get := ci.Name == "frame.Header.Get"
		fill := func(n *State) {
			ok, v := n.hdrGet(h, k)
			var r *T
			if get {
				if !ok {
					v = ts.Str("")
				}
				r = v
			} else {
				if !ok {
					v = ts.Str("")
				}
				r = ts.Tuple(v, ts.Bool(ok))
			}
			if ok {
				n.note(instrPos(in), "header "+k.String()+" is present")
			} else {
				n.note(instrPos(in), "header "+k.String()+" is missing")
			}
			ev(n, &Event{Kind: "hdrget", Args: []*T{h, k}, Res: v, Tag: map[bool]string{true: "present", false: "absent"}[ok]})
			fin(n, r)
		}
		if h.HasSum() {
			o := s.clone()
			v := s.fresh("hv", in, "", types.Typ[types.String])
			if get {
				fin(s, v)
				return one(s), true
			}
			fin(s, ts.Tuple(v, ts.Bool(true)))
			fin(o, ts.Tuple(ts.Str(""), ts.Bool(false)))
			return []*State{s, o}, true
		}
		r := s.hdrFork(h, k)
		for _, n := range r {
			fill(n)
		}
		return r, true
	case "frame.Header.Set":
		s.hdrSet(args[0], key(1), args[2])
		ev(s, &Event{Kind: "hdrset", Args: []*T{args[0], key(1), args[2]}})
		fin(s, nil)
		return one(s), true
	case "frame.Header.Add":
		k := key(1)
		rs := one(s)
		if k.IsConst() {
			rs = s.hdrFork(args[0], k)
		}
		for _, n := range rs {
			n.hdrAdd(args[0], k, args[2])
			ev(n, &Event{Kind: "hdradd", Args: []*T{args[0], k, args[2]}})
			fin(n, nil)
		}
		return rs, true
	case "frame.Header.Del":
		s.hdrDel(args[0], key(1))
		ev(s, &Event{Kind: "hdrdel", Args: []*T{args[0], key(1)}})
		fin(s, nil)
		return one(s), true
	case "frame.Header.AddHeader":
		x := s.header(args[0])
		if s.isNil(args[1]) != 1 {
			for k, e := range x.e {
				if !e.present {
					delete(x.e, k)
				}
			}
			x.closed = false
			x.epoch = ts.App("addheader", nil, args[1])
		}
		ev(s, &Event{Kind: "hdraddall"})
		fin(s, nil)
		return one(s), true
	case "frame.Header.Len":
		fin(s, s.fresh("hlen", in, "", types.Typ[types.Int]))
		return one(s), true
	case "frame.Header.GetAt":
		fin(s, ts.Tuple(ts.App("hkey", types.Typ[types.String], args...), ts.App("hval", types.Typ[types.String], args...)))
		return one(s), true
	case "frame.Header.GetAll":
		fin(s, ts.App("hall", ci.Typ, args[0], key(1), s.fresh("hall", in, "", nil)))
		return one(s), true
	case "frame.Header.ContentLength":
		fin(s, s.freshResult("cl", in, ci.Call))
		return one(s), true
	case "frame.NewHeader", "frame.Header.Clone":
		hn := s.alloc(in, ".h", ex.frameType("Header"))
		s.hdr[hn] = &hdrState{closed: true, e: map[*T]hdrEntry{}}
		if ci.Name == "frame.Header.Clone" {
			x := s.header(args[0])
			s.hdr[hn] = &hdrState{closed: x.closed, epoch: args[0], e: cp(x.e)}
		} else {
			s.addEntries(hn, args[0])
		}
		fin(s, hn)
		return one(s), true
	case "frame.New":
		fn := s.alloc(in, ".f", ex.frameType("Frame"))
		hn := s.alloc(in, ".h", ex.frameType("Header"))
		s.hdr[hn] = &hdrState{closed: true, e: map[*T]hdrEntry{}}
		s.heap[ts.FldAddr(fn, "frame.Frame.Command", nil)] = args[0]
		s.heap[ts.FldAddr(fn, "frame.Frame.Header", nil)] = hn
		s.heap[ts.FldAddr(fn, "frame.Frame.Body", nil)] = ts.Nil()
		s.addEntries(hn, args[1])
		ev(s, &Event{Kind: "newframe", Args: []*T{args[0]}, Res: fn})
		fin(s, fn)
		return one(s), true
	case "frame.Frame.Clone":
		f := args[0]
		fn := s.alloc(in, ".f", ex.frameType("Frame"))
		hn := s.alloc(in, ".h", ex.frameType("Header"))
		h := s.load(ts.FldAddr(f, "frame.Frame.Header", nil), ex.headerPtr(), in)
		x := s.header(h)
		s.hdr[hn] = &hdrState{closed: x.closed, epoch: h, e: cp(x.e)}
		s.heap[ts.FldAddr(fn, "frame.Frame.Command", nil)] = s.peek(f, "frame.Frame.Command")
		s.heap[ts.FldAddr(fn, "frame.Frame.Header", nil)] = hn
		s.heap[ts.FldAddr(fn, "frame.Frame.Body", nil)] = ts.App("clone", nil, s.peek(f, "frame.Frame.Body"))
		ev(s, &Event{Kind: "clone", Args: args, Res: fn})
		fin(s, fn)
		return one(s), true
	case "frame.NewReader", "frame.NewReaderSize", "frame.NewWriter", "frame.NewWriterSize":
		v := s.fresh("nonnil", in, "", ci.Typ)
		ev(s, &Event{Kind: "call", Res: v})
		fin(s, v)
		return one(s), true
	case "frame.Writer.Write":
		if s.isNil(args[0]) == 1 {
			return ex.crash(s, in, "nilderef", args[0]), true
		}
		o := s.clone()
		s.note(instrPos(in), "write frame "+args[1].String()+" succeeds")
		o.note(instrPos(in), "write frame "+args[1].String()+" fails")
		ev(s, &Event{Kind: "write", Args: args, Res: ts.Nil(), Tag: "ok"})
		fin(s, ts.Nil())
		er := o.fresh("nonnil", in, ".err", ci.Typ)
		ev(o, &Event{Kind: "write", Args: args, Res: er, Tag: "fail"})
		fin(o, er)
		return []*State{s, o}, true
	case "frame.Reader.Read":
		hb := s.clone()
		er := s.clone()
		ft := ex.frameType("Frame")
		f := s.fresh("nonnil", in, ".frame", types.NewPointer(ft))
		s.note(instrPos(in), "a frame is read")
		ev(s, &Event{Kind: "read", Args: args, Res: f, Tag: "frame"})
		fin(s, ts.Tuple(f, ts.Nil()))
		hb.note(instrPos(in), "a heart-beat is read")
		ev(hb, &Event{Kind: "read", Args: args, Res: ts.Nil(), Tag: "heartbeat"})
		fin(hb, ts.Tuple(ts.Nil(), ts.Nil()))
		er.note(instrPos(in), "reading fails")
		e := er.fresh("nonnil", in, ".err", types.Universe.Lookup("error").Type())
		ev(er, &Event{Kind: "read", Args: args, Res: e, Tag: "error"})
		fin(er, ts.Tuple(ts.Nil(), e))
		return []*State{s, hb, er}, true
	case "frame.ParseHeartBeat":
		n := make([]*T, 3)
		r := ci.Call.Signature().Results()
		for i := range n {
			n[i] = ts.App("frame.ParseHeartBeat#"+strconv.Itoa(i), r.At(i).Type(), args[0])
		}
		ev(s, &Event{Kind: "call", Res: ts.Tuple(n...)})
		fin(s, ts.Tuple(n...))
		return one(s), true
	}
	return nil, false
}

func (ex *Exec) frameType(n string) types.Type {
	if t := ex.p.NamedType("frame", n); t != nil {
		return t
	}
	return types.Typ[types.Int]
}

// items takes a list apart, also one that is held in an array.
func (s *State) items(t *T) ([]*T, bool) {
	switch {
	case t.IsApp("append") && len(t.A) == 2:
		a, ok1 := s.items(t.A[0])
		b, ok2 := s.items(t.A[1])
		return append(append([]*T(nil), a...), b...), ok1 && ok2
	case t.IsApp("slice") && t.A[0].K == KAlloc && !t.HasSum() && t.A[1].IsInt(0) && t.A[2].IsNil():
		arr, ok := deref(t.A[0].Typ).Underlying().(*types.Array)
		if !ok || arr.Len() > 63 {
			return nil, false
		}
		var out []*T
		for i := int64(0); i < arr.Len(); i++ {
			v := s.heap[s.ex.ts.IdxAddr(t.A[0], s.ex.ts.Int(i), arr.Elem())]
			if v == nil {
				return nil, false
			}
			out = append(out, v)
		}
		return out, true
	}
	return listItems(t)
}

func (s *State) addEntries(h, list *T) {
	if list == nil || list.IsNil() {
		return
	}
	if l, ok := s.items(list); ok {
		for i := 0; i+1 < len(l); i += 2 {
			s.hdrAdd(h, s.val(l[i]), l[i+1])
		}
		return
	}
	x := s.header(h)
	x.closed = false
	x.epoch = list
}

// formatted expresses a formatted text as a concatenation, for formats that only use %d, %v and %s.
func (ts *Terms) formatted(f string, l []*T) *T {
	str := types.Typ[types.String]
	res := ts.Str("")
	add := func(x *T) {
		if res.IsStr("") {
			res = x
		} else if !x.IsStr("") {
			res = ts.Bin(token.ADD, res, x, str)
		}
	}
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			add(ts.Str(f))
			f = ""
			break
		}
		add(ts.Str(f[:i]))
		if i+1 >= len(f) {
			return nil
		}
		v := f[i+1]
		f = f[i+2:]
		if v == '%' {
			add(ts.Str("%"))
			continue
		}
		if len(l) == 0 || l[0].K != KIface || v != 'd' && v != 'v' && v != 's' {
			return nil
		}
		x := l[0]
		l = l[1:]
		n, isNamed := x.Typ.(*types.Named)
		if isNamed && n.NumMethods() > 0 {
			return nil
		}
		var isBasic bool
		var b *types.Basic
		if x.Typ != nil {
			b, isBasic = x.Typ.Underlying().(*types.Basic)
		}
		switch {
		case isBasic && b.Info()&types.IsUnsigned != 0 && v != 's':
			add(ts.App("strconv.FormatUint", str, x.A[0], ts.Int(10)))
		case isBasic && b.Info()&types.IsInteger != 0 && v != 's':
			add(ts.App("strconv.FormatInt", str, x.A[0], ts.Int(10)))
		case isBasic && b.Info()&types.IsString != 0 && v != 'd':
			add(x.A[0])
		case v == 's' && x.Typ != nil && types.Identical(x.Typ.Underlying(), types.NewSlice(types.Typ[types.Uint8])):
			add(ts.App("string", str, x.A[0]))
		default:
			return nil
		}
	}
	if len(l) > 0 {
		return nil
	}
	return res
}

// atomicOp names an atomic operation, in the function form; "" for other functions.
func atomicOp(name string) string {
	if !strings.HasPrefix(name, "sync/atomic.") {
		return ""
	}
	p := strings.Split(strings.TrimPrefix(name, "sync/atomic."), ".")
	if len(p) == 1 {
		return p[0]
	}
	switch p[0] {
	case "Int32", "Int64", "Uint32", "Uint64", "Bool", "Uintptr":
		return p[1] + p[0]
	}
	return ""
}
