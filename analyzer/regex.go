package main

import (
	"go/constant"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// minParts is a lower bound of the number of parts strings.Split(x, sep) has on this path.
func minParts(s *State, x *T, sep string) int {
	n := 1
	for c, b := range s.bools {
		if !b || !c.IsApp("regexp.Regexp.MatchString") || c.A[1] != x {
			continue
		}
		pat, ok := s.ex.regexOf(c.A[0])
		if !ok {
			continue
		}
		re, err := syntax.Parse(pat, syntax.Perl)
		if err != nil {
			continue
		}
		if anchored(re) {
			if k := 1 + minCount(re, sep); k > n {
				n = k
			}
		}
	}
	return n
}

func anchored(re *syntax.Regexp) bool {
	return re.Op == syntax.OpConcat && len(re.Sub) > 1 && re.Sub[0].Op == syntax.OpBeginText && (re.Sub[len(re.Sub)-1].Op == syntax.OpEndText)
}

// minCount is the least number of occurrences of a literal in a match.
func minCount(re *syntax.Regexp, sep string) int {
	switch re.Op {
	case syntax.OpLiteral:
		return strings.Count(string(re.Rune), sep)
	case syntax.OpConcat, syntax.OpCapture:
		n := 0
		for _, x := range re.Sub {
			n += minCount(x, sep)
		}
		return n
	case syntax.OpPlus:
		return minCount(re.Sub[0], sep)
	case syntax.OpRepeat:
		return re.Min * minCount(re.Sub[0], sep)
	case syntax.OpAlternate:
		n := -1
		for _, x := range re.Sub {
			if k := minCount(x, sep); n < 0 || k < n {
				n = k
			}
		}
		return n
	}
	return 0
}

// regexOf finds the pattern of a package-level regular expression.
func (ex *Exec) regexOf(t *T) (string, bool) {
	if t.K != KInit || t.A[0].K != KGlobal {
		return "", false
	}
	g := t.A[0].V.(*ssa.Global)
	call, ok := ex.p.info.globInit[g].(*ssa.Call)
	if !ok {
		return "", false
	}
	if f := call.Call.StaticCallee(); f == nil || f.String() != "regexp.MustCompile" {
		return "", false
	}
	k, ok := call.Call.Args[0].(*ssa.Const)
	if !ok {
		return "", false
	}
	if k.Value == nil || k.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

// pieceOf tells which part of a text with separators a term is: the text, and the number of the part
// (the second one may have separators of its own).
func pieceOf(t *T, sep string) (*T, int64, bool) {
	x := t.Un()
	if x.K == KInit {
		x = x.A[0]
	}
	if x.K == KIdxAddr && (x.A[0].IsApp("strings.Split") || x.A[0].IsApp("strings.SplitN")) && x.A[0].A[1].IsStr(sep) {
		k, ok := x.A[1].Int()
		return x.A[0].A[0], k, ok && k >= 0
	}
	for i, n := range []string{"strings.Cut#0", "strings.Cut#1"} {
		if x.IsApp(n) && x.A[1].IsStr(sep) {
			return x.A[0], int64(i), true
		}
	}
	if x.IsApp("slice") {
		whole := x.A[0]
		at := func(p *T) bool {
			if p == nil || p.K != KApp || len(p.A) != 2 || p.A[0] != whole {
				return false
			}
			switch p.S {
			case "strings.Index":
				return p.A[1].IsStr(sep)
			case "strings.IndexByte", "strings.IndexRune":
				return len(sep) == 1 && p.A[1].IsInt(int64(sep[0]))
			}
			return false
		}
		lo, hi := x.A[1], x.A[2]
		switch {
		case lo.IsInt(0) && at(hi):
			return whole, 0, true
		case lo.IsApp("+") && hi.IsNil() && len(lo.A) == 2 && lo.A[1].IsInt(1) && at(lo.A[0]):
			return whole, 1, true
		}
	}
	return nil, 0, false
}

// matchedWithout reports whether a regular expression that matches a text on this path rules out a character.
func matchedWithout(s *State, x *T, r rune) bool {
	for c, b := range s.bools {
		if !b || !c.IsApp("regexp.Regexp.MatchString") || c.A[1] != x {
			continue
		}
		pat, ok := s.ex.regexOf(c.A[0])
		if !ok {
			continue
		}
		if re, err := syntax.Parse(pat, syntax.Perl); err == nil && anchored(re) && without(re, r) {
			return true
		}
	}
	return false
}

func without(re *syntax.Regexp, r rune) bool {
	switch re.Op {
	case syntax.OpLiteral:
		for _, x := range re.Rune {
			if x == r {
				return false
			}
		}
		return true
	case syntax.OpCharClass:
		for i := 0; i+1 < len(re.Rune); i += 2 {
			if re.Rune[i] <= r && r <= re.Rune[i+1] {
				return false
			}
		}
		return true
	case syntax.OpEmptyMatch, syntax.OpBeginText, syntax.OpEndText, syntax.OpBeginLine, syntax.OpEndLine:
		return true
	case syntax.OpConcat, syntax.OpCapture, syntax.OpPlus, syntax.OpStar, syntax.OpQuest, syntax.OpRepeat, syntax.OpAlternate:
		for _, x := range re.Sub {
			if !without(x, r) {
				return false
			}
		}
		return true
	}
	return false
}
