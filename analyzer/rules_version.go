package main

import (
	"go/types"
	"strings"
)

func init() {
	register("B12", "Finite abstraction of the version list: for every set of protocol versions that the accept-version header may contain, in every order and mixed with anything else, each path on which the frame is accepted has stored the highest of them (1.0 without the header) as the version of the connection and announced the same in CONNECTED, and there is such a path exactly for the sets that contain a version the broker serves; the version is never changed afterwards, and a validator is made for it", checkB12)
}

var versions = []string{"1.0", "1.1", "1.2"}

// highest returns the highest version in a set.
func highest(set int64) string {
	for i := len(versions) - 1; i >= 0; i-- {
		if set&(1<<uint(i)) != 0 {
			return versions[i]
		}
	}
	return ""
}

// around says whether the list begins or ends with something that is no version of the protocol.
var around = []string{"", ", first something else", "", ", last something else"}

func setName(set int64) string {
	var a []string
	for i, x := range versions {
		if set&(1<<uint(i)) != 0 {
			a = append(a, x)
		}
	}
	if a == nil {
		return "none of " + strings.Join(versions, ",")
	}
	return strings.Join(a, ",")
}

func checkB12(c *Ctx) {
	v := newSrv(c)
	if !v.ok() {
		return
	}
	v.scanRead(nil)
	can := map[string]bool{}
	y := &cycle{v: v, headers: []string{"accept-version"}}
	bits := func(s *State, k string) int64 {
		if t := s.cells["c."+k]; t != nil {
			n, _ := t.Int()
			return n
		}
		return 0
	}
	setBits := func(s *State, k string, n int64) { s.cells["c."+k] = s.ex.ts.Int(n) }
	restart := func(s *State) {
		setBits(s, "seen", 0)
		for _, k := range []string{"lastv", "first", "latest", "ended"} {
			delete(s.cells, "c."+k)
		}
	}
	// expect returns the version to be chosen, "" if the frame has to be rejected
	expect := func(s *State) (string, string) {
		if s.h("accept-version") == nil {
			if s.fcmd() == "STOMP" {
				return "", "no accept-version in STOMP"
			}
			return "1.0", "no accept-version in CONNECT"
		}
		if s.cells["c.set"] == nil {
			return "?", "accept-version not looked at"
		}
		return highest(bits(s, "set")), setName(bits(s, "set"))
	}
	isConnect := func(s *State) bool { return s.fcmd() == "CONNECT" || s.fcmd() == "STOMP" }
	judge := func(s *State, e *Event, what string, got *T) bool {
		ex := s.ex
		want, name := expect(s)
		ex.Obl("negotiated", what)
		g := ""
		if got != nil {
			g, _ = s.val(got).Str()
		}
		if g == "" || g != want {
			x := "an unknown version"
			if g != "" {
				x = g
			}
			ex.Bad(s, "negotiated", what+" "+want, e.Instr, "with %s offered, %s is the version %s", name, x, what)
			return false
		}
		return true
	}
	y.accept = func(s *State, f *T, e *Event) {
		if !isConnect(s) || s.cells["v.done"] != nil {
			return
		}
		s.cells["v.done"] = s.ex.ts.Int(1)
		cn := v.connTerm(s)
		if cn == nil {
			return
		}
		if judge(s, e, "of the connection", s.peek(cn, v.version)) {
			_, name := expect(s)
			if bits(s, "single") != 0 {
				can[s.fcmd()+" "+name+" alone"] = true
				return
			}
			// which entries come first and last
			for _, first := range []int64{1, 2} {
				for _, last := range []int64{1, 2} {
					if b := bits(s, "first"); b != 0 && b != first {
						continue
					}
					if b := bits(s, "latest"); s.cells["c.ended"] != nil && b != 0 && b != last {
						continue
					}
					can[s.fcmd()+" "+name+around[first-1]+around[last+1]] = true
				}
			}
		}
	}
	y.on = func(s *State, e *Event) {
		ex := s.ex
		ts := ex.ts
		switch e.Kind {
		case "store":
			if e.Name == v.version {
				ex.Obl("kept", ex.where(e.Instr))
				if s.cells["v.done"] != nil && e.X[0] != e.Args[1] {
					ex.Bad(s, "kept", ex.where(e.Instr), e.Instr, "the negotiated version is changed later")
				}
			}
		case "write":
			if s.cmd(e.Args[1]) == "CONNECTED" {
				p, val := s.hdrOfFrame(e.Args[1], "version")
				if p != 1 {
					val = nil
				}
				judge(s, e, "announced", val)
			}
		case "call":
			if e.Name == "sort.Strings" && len(e.Args) == 1 && e.Args[0] == s.cells["c.list"] {
				setBits(s, "order", 1)
			}
			if e.Name == "sort.Sort" && len(e.Args) == 1 && s.cells["c.list"] != nil && e.Args[0].Contains(s.cells["c.list"]) {
				setBits(s, "order", 1)
				if strings.Contains(e.Args[0].String(), "Reverse") {
					setBits(s, "order", 2)
				}
			}
		case "branch":
			l := s.cells["c.list"]
			if l == nil {
				return
			}
			// the end of a pass over the list: everything it contains has been met
			c := e.Args[0]
			for c.IsApp("!") {
				c = c.A[0]
			}
			if !c.IsApp("<") {
				return
			}
			n := ts.App("len", types.Typ[types.Int], l)
			r := s.eval(c)
			if r == 0 || c.Typ == nil {
				return
			}
			end := false
			switch {
			case c.A[1] == n: // i < len
				if c.A[0].IsInt(0) {
					restart(s)
				}
				end = r == -1
			case c.A[0] == n: // len < i, len < 1
				return
			case c.A[1].IsInt(0) && c.A[0].K != KConst: // i < 0
				if s.cells["c.down"] == nil {
					return
				}
				end = r == 1
			default:
				return
			}
			if end {
				setBits(s, "ended", 1)
			}
			if end && bits(s, "seen") != bits(s, "set") {
				s.dead = true // this list does not contain what it is assumed to contain
			}
			if end && c.A[0].IsInt(0) {
				s.dead = true // a split string has at least one part
			}
		}
	}
	y.explore("connection goroutine, versions", func(ex *Exec) {
		ts := ex.ts
		model := ex.Opts.Model
		ex.Opts.Model = func(s *State, ci *CallInfo) ([]*State, bool) {
			switch ci.Name {
			case "strings.Split", "strings.Fields", "strings.FieldsFunc", "strings.SplitN":
				h := s.h("accept-version")
				a := s.val(ci.Args[0])
				for a.IsApp("strings.TrimSpace") || a.IsApp("conv") {
					a = s.val(a.A[0])
				}
				if h == nil || s.cells["c.set"] != nil || a != s.val(h) {
					break
				}
				if len(ci.Args) > 1 && ci.Name != "strings.FieldsFunc" {
					ex.Obl("separated", ex.where(ci.Instr))
					if sep, ok := s.val(ci.Args[1]).Str(); !ok || sep != "," {
						ex.Bad(s, "separated", ex.where(ci.Instr), ci.Instr, "the versions are not taken apart at the commas")
					}
				}
				var out []*State
				for set := int64(0); set < 1<<uint(len(versions)); set++ {
					n := s.clone()
					n.note(instrPos(ci.Instr), "the list contains "+setName(set))
					setBits(n, "set", set)
					l := n.fresh("split", ci.Instr, "", ci.Typ)
					n.cells["c.list"] = l
					if set&(set-1) == 0 {
						// a list of one entry
						o := n.clone()
						setBits(o, "single", 1)
						o.note(instrPos(ci.Instr), "and nothing else")
						o.assume(ts.Bin(eqTok, ts.App("len", types.Typ[types.Int], l), ts.Int(1), nil), true)
						ex.finish(o, ci.Instr, 0, l)
						out = append(out, o)
					}
					ex.finish(n, ci.Instr, 0, l)
					out = append(out, n)
				}
				return out, true
			}
			if strings.HasSuffix(ci.Name, ".NewValidator") && len(ci.Args) == 1 && v.inProc(s) {
				if cn := v.connTerm(s); cn != nil {
					ex.Obl("rules", "validator")
					if x := s.val(s.peek(cn, v.version)); s.val(ci.Args[0]) != x {
						ex.Bad(s, "rules", "validator", ci.Instr, "the frames are validated by another version than the negotiated one")
					}
				}
			}
			if model != nil {
				return model(s, ci)
			}
			return nil, false
		}
		hook := ex.Opts.LoadHook
		ex.Opts.LoadHook = func(s *State, addr, val *T, in ssaInstr) []*State {
			l := s.cells["c.list"]
			if l == nil || addr.K != KIdxAddr || addr.A[0] != l {
				return hook(s, addr, val, in)
			}
			i := addr.A[1]
			if i.IsApp("-") || i.IsApp("+") && len(i.A) == 2 {
				if k, ok := i.A[1].Int(); ok && (k < 0) != i.IsApp("-") {
					setBits(s, "down", 1)
				}
			}
			if i.IsInt(0) && s.cells["c.down"] == nil {
				restart(s)
			}
			entry := func(n *State, k int64) {
				if bits(n, "first") == 0 {
					setBits(n, "first", k)
				}
				setBits(n, "latest", k)
			}
			meet := func(n *State, k int64) bool {
				entry(n, 1)
				setBits(n, "seen", bits(n, "seen")|1<<uint(k))
				if o := bits(n, "order"); o != 0 {
					if n.cells["c.down"] != nil {
						o = 3 - o
					}
					before := int64(1)<<uint(k) - 1
					if o == 2 {
						before = 7 &^ (int64(1)<<uint(k+1) - 1)
					}
					if m := bits(n, "set") & before; bits(n, "seen")&m != m {
						return false // it comes after those
					}
					if t := n.cells["c.lastv"]; t != nil {
						p, _ := t.Int()
						if o == 1 && p > k || o == 2 && p < k {
							return false
						}
					}
					setBits(n, "lastv", k)
				}
				return true
			}
			x := s.val(val)
			if str, ok := x.Str(); ok {
				for k, m := range versions {
					if m == str && !meet(s, int64(k)) {
						return []*State{}
					}
				}
				return nil
			}
			if s.eval(ts.Bin(eqTok, x, ts.Str(versions[0]), types.Typ[types.Bool])) == -1 {
				return nil
			}
			var out []*State
			for k, m := range versions {
				if bits(s, "set")&(1<<uint(k)) == 0 {
					continue
				}
				n := s.clone()
				if !n.assume(ts.Bin(eqTok, val, ts.Str(m), nil), true) || !meet(n, int64(k)) {
					continue
				}
				n.note(instrPos(in), "the entry is "+m)
				out = append(out, n)
			}
			if bits(s, "single") != 0 && bits(s, "set") != 0 {
				return append(out, []*State{}...)
			}
			// something else
			for _, x := range []*T{val, ts.App("strings.TrimSpace", types.Typ[types.String], val)} {
				for _, m := range versions {
					s.assume(ts.Bin(eqTok, x, ts.Str(m), nil), false)
				}
			}
			entry(s, 2)
			return append(out, s)
		}
	})
	for _, m := range []string{"CONNECT", "STOMP"} {
		for set := int64(0); set < 1<<uint(len(versions)); set++ {
			if h := highest(set); h != "1.1" && h != "1.2" {
				continue
			}
			kinds := []string{}
			if set&(set-1) == 0 {
				kinds = append(kinds, " alone")
			}
			for _, a := range around[:2] {
				for _, b := range around[2:] {
					kinds = append(kinds, a+b)
				}
			}
			{
				for _, a := range kinds {
					k := m + " " + setName(set) + a
					c.Obl("served", k)
					if !can[k] {
						c.Fail("served", k, c.p.Pos(v.proc.Pos()), "there is no path on which a %s frame that offers %s is accepted with version %s", m, setName(set)+a, highest(set))
					}
				}
			}
		}
	}
	c.NeedObl("negotiated", 2)
	c.NeedObl("kept", 1)
	c.NeedObl("served", 52)
}
