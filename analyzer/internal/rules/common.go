// Package rules decides the repository's properties on the abstract
// interpreter's path summaries.
package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
	"rsrcheck/internal/load"
)

type (
	Term  = absint.Term
	Path  = absint.Path
	Event = absint.Event
	Loop  = absint.LoopRec
	State = absint.State
)

// Rule is the decision procedure of one property.
type Rule struct {
	ID     string
	Pkgs   []string
	What   string // the obligations, in words
	MinObl int    // instance count confirmed by hand on the pinned tree
	Run    func(c *C)
}

var All = map[string]*Rule{}

func register(r *Rule) {
	if All[r.ID] != nil {
		panic("duplicate rule " + r.ID)
	}
	All[r.ID] = r
}

// Violation names a construct that breaks an obligation.
type Violation struct {
	Key, Pos, Msg string
}

// C collects the obligations of one property on one tree.
type C struct {
	ID         string
	P          *load.Prog
	X          *absint.Exec
	Obl        int
	Discharged int
	Paths      int
	Forks      int
	Loops      int
	Funcs      map[string]bool
	Roots      []string
	Viol       []Violation
	Samples    []string
	byRule     map[string]int
	seen       map[string]bool
	only       map[string]bool // when set, obligations of other rules are not this property's
	lastPos    token.Pos
}

func NewC(id string, p *load.Prog) *C {
	return &C{ID: id, P: p, Funcs: map[string]bool{}, byRule: map[string]int{}, seen: map[string]bool{}}
}

func (c *C) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := c.P.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, c.P.Dir+"/"), q.Line)
}

// Ob records one obligation; a failed one becomes a violation.
func (c *C) Ob(ok bool, rule, construct string, pos token.Pos, f string, a ...any) bool {
	if c.only != nil && !c.only[rule] {
		return ok
	}
	c.Obl++
	c.byRule[rule]++
	if ok {
		c.Discharged++
		if len(c.Samples) < 400 && !c.seen["s"+rule] {
			c.seen["s"+rule] = true
			c.Samples = append(c.Samples, fmt.Sprintf("%s @ %s (%s)", rule, construct, c.Pos(pos)))
		}
		return true
	}
	if !pos.IsValid() {
		pos = c.lastPos
	}
	k := rule + "|" + construct
	if c.seen[k] {
		return false
	}
	c.seen[k] = true
	c.Viol = append(c.Viol, Violation{Key: k, Pos: c.Pos(pos), Msg: fmt.Sprintf(f, a...)})
	return false
}

// borrow runs the rules of another property and keeps the obligations of the
// named rules, which are part of this property too.
func (c *C) borrow(run func(), names ...string) {
	c.only = map[string]bool{}
	for _, n := range names {
		c.only[n] = true
	}
	defer func() { c.only = nil }()
	run()
}

// Fail is an obligation that cannot be met.
func (c *C) Fail(rule, construct string, pos token.Pos, f string, a ...any) {
	c.Ob(false, rule, construct, pos, f, a...)
}

// ByRule lists obligation counts per rule.
func (c *C) ByRule() map[string]int { return c.byRule }

// Fn resolves an anchor; failure is a violation.
func (c *C) Fn(rel, recv, name string) *ssa.Function {
	f := c.P.Method(rel, recv, name)
	n := name
	if recv != "" {
		n = recv + "." + name
	}
	if f == nil {
		c.Fail("anchor", rel+"."+n, token.NoPos, "function %s of package %s not found: the property cannot be decided", n, rel)
		return nil
	}
	return f
}

// exec makes a fresh interpreter that inlines every function of the module.
func (c *C) exec() *absint.Exec {
	x := absint.New(c.P.Fset)
	x.Inline = func(f *ssa.Function) bool { return c.inModule(f) }
	return x
}

func (c *C) inModule(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			_, ok := c.P.Pkgs[c.rel(g.Pkg.Pkg)]
			return ok
		}
	}
	// wrappers and thunks of module methods
	return f.Synthetic != "" && f.Blocks != nil
}

func (c *C) rel(p *types.Package) string {
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), load.Module), "/")
}

// Run analyses a root; an undecided analysis is a violation.
func (c *C) Run(x *absint.Exec, fn *ssa.Function, st *State, args []*Term) []*Path {
	c.X = x
	ps := x.Run(fn, st, args)
	fixPos(ps, fn.Pos(), map[*Path]bool{})
	c.lastPos = fn.Pos()
	c.Paths += len(ps)
	c.Forks += x.PathCnt
	c.Roots = append(c.Roots, absint.FnKey(fn))
	for f := range x.Funcs {
		c.Funcs[absint.FnKey(f)] = true
	}
	for _, p := range x.Problems {
		c.Fail("undecided", absint.FnKey(fn), fn.Pos(), "analysis of %s is incomplete: %s", absint.FnKey(fn), p)
	}
	if len(ps) == 0 {
		c.Fail("undecided", absint.FnKey(fn), fn.Pos(), "no path through %s", absint.FnKey(fn))
	}
	c.EachLoop(ps, func([]*Loop, *Loop, *Path) { c.Loops++ })
	return ps
}

// fixPos gives every path a position, at worst that of the function.
func fixPos(ps []*Path, at token.Pos, seen map[*Path]bool) {
	for _, p := range ps {
		if seen[p] {
			continue
		}
		seen[p] = true
		if !p.Pos.IsValid() {
			p.Pos = at
		}
		for _, e := range p.Events {
			if e.Kind == "loop" {
				if !e.Loop.Pos.IsValid() {
					e.Loop.Pos = p.Pos
				}
				fixPos(e.Loop.Backs, e.Loop.Pos, seen)
			}
		}
	}
}

// EachLoop visits every loop summary with the loops around it and the path containing it.
func (c *C) EachLoop(ps []*Path, f func(outer []*Loop, l *Loop, in *Path)) {
	seen := map[*Loop]bool{}
	var walk func(outer []*Loop, p *Path)
	walk = func(outer []*Loop, p *Path) {
		for _, e := range p.Events {
			if e.Kind != "loop" {
				continue
			}
			first := !seen[e.Loop]
			seen[e.Loop] = true
			if first {
				f(outer, e.Loop, p)
				in := append(append([]*Loop{}, outer...), e.Loop)
				for _, b := range e.Loop.Backs {
					walk(in, b)
				}
			}
		}
	}
	for _, p := range ps {
		walk(nil, p)
	}
}

// Seg is a straight piece of abstract execution: a whole path or one loop iteration.
type Seg struct {
	P     *Path
	From  *State // state before (nil: initial)
	Loop  *Loop  // innermost loop when the piece is an iteration
	Outer []*Loop
}

// Segs lists all pieces: every complete path and every iteration of every loop.
func (c *C) Segs(ps []*Path) []Seg {
	var out []Seg
	for _, p := range ps {
		out = append(out, Seg{P: p})
	}
	c.EachLoop(ps, func(outer []*Loop, l *Loop, in *Path) {
		for _, b := range l.Backs {
			out = append(out, Seg{P: b, From: l.HeadSt, Loop: l, Outer: outer})
		}
	})
	return out
}

// Exits lists the paths (of ps or iterations of enclosing loops) that contain
// loop l, i.e. the ways to leave it.
func (c *C) Exits(ps []*Path, l *Loop) []*Path {
	var out []*Path
	done := map[*Path]bool{}
	var walk func(p *Path)
	walk = func(p *Path) {
		if done[p] {
			return
		}
		done[p] = true
		for _, e := range p.Events {
			if e.Kind != "loop" {
				continue
			}
			if e.Loop == l {
				out = append(out, p)
			}
			for _, b := range e.Loop.Backs {
				walk(b)
			}
		}
	}
	for _, p := range ps {
		walk(p)
	}
	return out
}

// Calls lists the events of a kind on a path (not inside its loops).
func evs(p *Path, kind, callee string) []*Event {
	var r []*Event
	for _, e := range p.Events {
		if e.Kind == kind && (callee == "" || e.Callee == callee) {
			r = append(r, e)
		}
	}
	return r
}

// fieldOf resolves a named struct type's field by name.
func structOf(t types.Type) (*types.Struct, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// namedType looks up a type of a package.
func (c *C) Type(rel, name string) types.Type {
	pp := c.P.PP[rel]
	if pp == nil {
		return nil
	}
	o := pp.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// Addr builds the address base.f1.f2... following struct fields (embedded
// values included, pointers loaded in st).
func (c *C) Addr(st *State, base *Term, t types.Type, path ...string) (*Term, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	for i, f := range path {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		found := false
		for k := 0; k < s.NumFields(); k++ {
			if s.Field(k).Name() == f {
				base = c.X.FieldAddr(base, t, k)
				t = s.Field(k).Type()
				found = true
				break
			}
		}
		if !found {
			return nil, nil
		}
		if p, ok := t.Underlying().(*types.Pointer); ok && i < len(path)-1 {
			base = st.Peek(base)
			t = p.Elem()
		}
	}
	return base, t
}

// fname is the bare name of a field address or field key.
func fname(t *Term) string {
	if t == nil || (t.Op != "faddr" && t.Op != "field") {
		return ""
	}
	n := t.Aux
	if i := strings.IndexByte(n, '@'); i >= 0 {
		n = n[:i]
	}
	return n
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Safe runs f, turning a crash into a violation.
func (c *C) Safe(rule string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			c.Fail("undecided", rule, token.NoPos, "the construct is in a form the rule cannot decide (%v)", r)
		}
	}()
	f()
}

// ExecFor makes an interpreter with a named model set (for -dump).
func ExecFor(p *load.Prog, model string) *absint.Exec {
	c := NewC("dump", p)
	switch model {
	case "riblt":
		return c.rib().x
	}
	return c.exec()
}
