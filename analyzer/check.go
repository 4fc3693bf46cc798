package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID    string
	Title string
	Rule  string // one-paragraph description of the deciding rule
	Run   func(c *Ctx)
}

var checks = map[string]*Check{}

func register(id, rule string, run func(c *Ctx)) {
	checks[id] = &Check{ID: id, Rule: rule, Run: run}
}

type exploration struct {
	Root      string `json:"root"`
	Steps     int    `json:"steps"`
	States    int    `json:"join_states"`
	Paths     int    `json:"paths"`
	Functions int    `json:"functions"`
}

// Ctx collects the outcome of a check.
type Ctx struct {
	encodings []homo // header escapings found in the writer
	p         *Program
	id        string
	tier      string
	obl       map[string]int // rule|construct -> evaluations
	viol      []*Violation
	seen      map[string]bool
	undecided []string
	expl      []exploration
	funcs     map[string]bool
	notes     []string
	minima    []string
}

func newCtx(p *Program, id, tier string) *Ctx {
	return &Ctx{p: p, id: id, tier: tier, obl: map[string]int{}, seen: map[string]bool{}, funcs: map[string]bool{}}
}

// Obl counts an evaluated obligation.
func (c *Ctx) Obl(rule, construct string) { c.obl[rule+" | "+construct]++ }

// Fail reports a violation that is not bound to a path.
func (c *Ctx) Fail(rule, construct, pos, format string, args ...interface{}) {
	k := rule + " | " + construct
	msg := fmt.Sprintf(format, args...)
	if c.seen[k+msg] {
		return
	}
	c.seen[k+msg] = true
	c.viol = append(c.viol, &Violation{Key: k, Pos: pos, Msg: msg})
}

// Undecided marks the check as unable to decide.
func (c *Ctx) Undecided(format string, args ...interface{}) {
	c.undecided = append(c.undecided, fmt.Sprintf(format, args...))
}

// Need requires a minimum number of instances, confirmed by hand on the pinned tree.
func (c *Ctx) Need(what string, n, min int) {
	c.minima = append(c.minima, fmt.Sprintf("%s: %d (at least %d)", what, n, min))
	if n < min {
		c.Undecided("%s: found %d, expected at least %d", what, n, min)
	}
}

// NeedObl requires obligations of a rule.
func (c *Ctx) NeedObl(rule string, min int) {
	n := 0
	for k := range c.obl {
		if strings.HasPrefix(k, rule+" | ") {
			n++
		}
	}
	c.Need("constructs under rule "+rule, n, min)
}

// Explore runs an exploration and merges its outcome.
func (c *Ctx) Explore(name string, root *ssa.Function, rule Rule, conf func(ex *Exec), args []*T, init func(s *State)) *Exec {
	if root == nil {
		c.Undecided("root %s not found", name)
		return nil
	}
	ex := NewExec(c.p, name, rule)
	ex.ctx = c
	if conf != nil {
		conf(ex)
	}
	if ex.Opts.Forget == nil {
		ex.Opts.Forget = forgetOptions
	}
	ex.Run(root, args, init)
	c.merge(ex)
	return ex
}

func (c *Ctx) merge(ex *Exec) {
	for _, v := range ex.Viol {
		k := v.Key + v.Msg
		if c.seen[k] {
			continue
		}
		c.seen[k] = true
		c.viol = append(c.viol, v)
	}
	c.undecided = append(c.undecided, ex.Undecided...)
	for k, n := range ex.obl {
		c.obl[k] += n
	}
	for f := range ex.Inlined {
		c.funcs[c.p.FuncName(f)] = true
	}
	c.expl = append(c.expl, exploration{ex.name, ex.Steps, ex.States, ex.Paths, len(ex.Inlined)})
}

// known findings: lines "KNOWN property=<id> key=<key>  -- text" and "fixed: ..." lines.
func loadKnown(file, id string) (map[string]string, error) {
	out := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return out, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "KNOWN ") {
			continue
		}
		l = strings.TrimPrefix(l, "KNOWN ")
		parts := strings.SplitN(l, " -- ", 2)
		if len(parts) != 2 {
			continue
		}
		h := strings.TrimSpace(parts[0])
		if !strings.HasPrefix(h, "property="+id+" key=") {
			continue
		}
		out[strings.TrimSpace(strings.TrimPrefix(h, "property="+id+" key="))] = strings.TrimSpace(parts[1])
	}
	return out, sc.Err()
}

func runCheck(repo, out, id, tier string) int {
	start := time.Now()
	ck := checks[id]
	if ck == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	evFile := filepath.Join(out, "evidence", id+".json")
	os.MkdirAll(filepath.Dir(evFile), 0o755)
	fail := func(format string, args ...interface{}) int {
		msg := fmt.Sprintf(format, args...)
		fmt.Println("UNDECIDED property=" + id + " " + msg)
		os.Remove(evFile)
		return 3
	}
	p, err := Load(repo, nil)
	if err != nil {
		return fail("cannot load %s: %v", repo, err)
	}
	c := newCtx(p, id, tier)
	func() {
		if os.Getenv("STOMPVERIF_PANIC") == "" {
			defer func() {
				if r := recover(); r != nil {
					c.Undecided("analyzer failure: %v", r)
				}
			}()
		}
		ck.Run(c)
	}()
	known, err := loadKnown(filepath.Join(out, "known_findings.txt"), id)
	if err != nil {
		return fail("cannot read the known findings: %v", err)
	}
	sort.SliceStable(c.viol, func(i, j int) bool { return c.viol[i].Key < c.viol[j].Key })
	// evidence
	rules := map[string]int{}
	var constructs []string
	evals := 0
	for k, n := range c.obl {
		rules[strings.SplitN(k, " | ", 2)[0]]++
		constructs = append(constructs, k)
		evals += n
	}
	sort.Strings(constructs)
	var fl []string
	for f := range c.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var news []*Violation
	knownHit := map[string]bool{}
	for _, v := range c.viol {
		if _, ok := known[v.Key]; ok {
			knownHit[v.Key] = true
		} else {
			news = append(news, v)
		}
	}
	var vl []map[string]interface{}
	for _, v := range c.viol {
		vl = append(vl, map[string]interface{}{"key": v.Key, "pos": v.Pos, "message": v.Msg, "path": v.Trace})
	}
	replay := filepath.Join(out, "evidence", id+".violations.json")
	for _, k := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, known[k])
	}
	rc := 0
	if len(news) > 0 {
		b, _ := json.MarshalIndent(vl, "", " ")
		os.WriteFile(replay, b, 0o644)
		n := 0
		for _, v := range news {
			if n >= 20 {
				fmt.Printf("... and %d more\n", len(news)-n)
				break
			}
			n++
			fmt.Printf("  %s: %s\n      %s\n", v.Pos, v.Key, v.Msg)
			for i, t := range v.Trace {
				if len(v.Trace) > 24 && i < len(v.Trace)-24 {
					continue
				}
				fmt.Println("        " + t)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		rc = 1
	} else {
		os.Remove(replay)
	}
	for _, u := range c.undecided {
		fmt.Println("UNDECIDED property=" + id + " " + u)
	}
	if rc == 0 && len(c.undecided) > 0 {
		rc = 3
	}
	if rc == 0 && evals == 0 {
		return fail("no obligation was evaluated")
	}
	cov := map[string]interface{}{
		"explanation":        ck.Rule,
		"rules":              rules,
		"constructs":         constructs,
		"evaluations":        evals,
		"explorations":       c.expl,
		"functions_analysed": fl,
		"minimum_instances":  c.minima,
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": 1, "level": "other",
		"coverage":    cov,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(news),
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evFile, b, 0o644); err != nil {
		return fail("cannot write evidence: %v", err)
	}
	ob := 0
	for range c.obl {
		ob++
	}
	fmt.Printf("property %s: %d constructs, %d evaluations, %d functions, %d explorations, %d violations (%d known) in %.1fs\n", id, ob, evals, len(fl), len(c.expl), len(c.viol), len(c.viol)-len(news), time.Since(start).Seconds())
	return rc
}

var assumptions = []string{
	"Go memory and channel semantics as specified; standard library functions behave as documented",
	"distinct symbolic objects do not alias unless a comparison on the path says so",
	"fields of objects owned by one goroutine are not changed by others (checked by the ownership properties)",
	"user-supplied callbacks (options, authenticators, loggers, queue storage) follow their documented contracts",
}

// ---- anchors ----

func (c *Ctx) entries(rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.p.info.goEntries {
		if f.Package() != nil && c.p.Rel(f.Package().Pkg) == relName(rel) {
			out = append(out, f)
		}
	}
	return out
}

func relName(rel string) string {
	if rel == "" {
		return "stomp"
	}
	return rel
}

func (c *Ctx) reaches(f *ssa.Function, name string) bool {
	for g := range c.p.info.Reach(f) {
		if c.p.canonName(g) == name {
			return true
		}
	}
	return false
}

// loop finds the goroutine entry of a package that reaches (only) the given function.
func (c *Ctx) loop(rel, reach string) *ssa.Function {
	var found []*ssa.Function
	for _, f := range c.entries(rel) {
		if c.reaches(f, reach) {
			found = append(found, f)
		}
	}
	if len(found) != 1 {
		c.Undecided("goroutine of %s reaching %s: found %d candidates", relName(rel), reach, len(found))
		return nil
	}
	return found[0]
}

func (c *Ctx) serverProcess() *ssa.Function { return c.loop("server/client", "frame.Writer.Write") }
func (c *Ctx) serverRead() *ssa.Function    { return c.loop("server/client", "frame.Reader.Read") }
func (c *Ctx) clientProcess() *ssa.Function { return c.loop("", "frame.Writer.Write") }
func (c *Ctx) clientRead() *ssa.Function    { return c.loop("", "frame.Reader.Read") }

// subscriptionLoop is the goroutine of a client subscription.
func (c *Ctx) subscriptionLoop() *ssa.Function {
	var found []*ssa.Function
	for _, f := range c.entries("") {
		if !c.reaches(f, "frame.Writer.Write") && !c.reaches(f, "frame.Reader.Read") {
			found = append(found, f)
		}
	}
	if f := c.p.Method("", "Conn", "Subscribe"); f != nil && len(found) > 1 {
		// the one that Subscribe starts
		var own []*ssa.Function
		for _, g := range c.p.info.goSites {
			if t := goTarget(g); t != nil && c.p.info.Reach(f)[g.Parent()] {
				for _, x := range found {
					if x == t {
						own = appendFn(own, t)
					}
				}
			}
		}
		found = own
	}
	if len(found) != 1 {
		c.Undecided("goroutine of a client subscription: found %d candidates", len(found))
		return nil
	}
	return found[0]
}

func (c *Ctx) method(rel, typ, name string) *ssa.Function {
	f := c.p.Method(rel, typ, name)
	if f == nil {
		c.Undecided("method %s.%s.%s not found", relName(rel), typ, name)
	}
	return f
}

func (c *Ctx) fn(rel, name string) *ssa.Function {
	f := c.p.Func(rel, name)
	if f == nil {
		c.Undecided("function %s.%s not found", relName(rel), name)
	}
	return f
}

// field returns a field by name, or the only field of the struct with the given type.
func (c *Ctx) field(rel, typ, name string, ft string) string {
	n := c.p.NamedType(rel, typ)
	if n == nil {
		c.Undecided("type %s.%s not found", relName(rel), typ)
		return "?"
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		c.Undecided("type %s.%s is not a struct", relName(rel), typ)
		return "?"
	}
	var cand []string
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return relName(rel) + "." + typ + "." + name
		}
		if ft != "" && types.TypeString(st.Field(i).Type(), func(p *types.Package) string { return p.Name() }) == ft {
			cand = append(cand, st.Field(i).Name())
		}
	}
	if len(cand) == 1 {
		return relName(rel) + "." + typ + "." + cand[0]
	}
	c.Undecided("field %s.%s.%s not found", relName(rel), typ, name)
	return "?"
}
