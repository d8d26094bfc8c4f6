package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Model replaces a call. It may fork by returning several results.
type Model func(st *State, c *CallInfo) []CallResult

type CallInfo struct {
	Key    string
	Fn     *ssa.Function
	Common *ssa.CallCommon
	Args   []*Term
	Pos    token.Pos
	In     *ssa.Function
	Typ    types.Type
	Instr  ssa.Instruction
}

type CallResult struct {
	St   *State
	Val  *Term
	Kind string // "" normal, "exit", "panic"
}

type Exec struct {
	TB       *Table
	Fset     *token.FileSet
	Inline   func(*ssa.Function) bool
	Models   map[string]Model
	MaxPaths int
	// TraceLoads records every read of memory as an event
	TraceLoads bool
	// Spawn also follows what each goroutine does from the state at its start;
	// the ways through it, each with what led to it, are kept in Spawned
	Spawn   bool
	Spawned []*Path
	// Snap selects the opaque calls whose event keeps the state at the call
	Snap func(ci *CallInfo) bool
	// Reads tells the calls outside the program that only read what they are
	// given (closures apart)
	Reads    func(ci *CallInfo) bool
	Problems []string
	PathCnt  int
	Funcs    map[*ssa.Function]bool // functions analysed
	v0       *Term
	loops    map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
	steps    int
}

func New(fset *token.FileSet) *Exec {
	x := &Exec{TB: NewTable(), Fset: fset, MaxPaths: 60000, Models: map[string]Model{}, Funcs: map[*ssa.Function]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}}
	x.v0 = x.TB.Mk("ver", "0")
	for k, m := range stdModels {
		x.Models[k] = m
	}
	return x
}

func (x *Exec) problem(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, p := range x.Problems {
		if p == s {
			return
		}
	}
	x.Problems = append(x.Problems, s)
}

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	idx    int
}

func (x *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	if l, ok := x.loops[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, idx: s.Index}
					res[s] = l
				}
				var walk func(*ssa.BasicBlock)
				walk = func(n *ssa.BasicBlock) {
					if l.blocks[n] {
						return
					}
					l.blocks[n] = true
					for _, p := range n.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	x.loops[fn] = res
	return res
}

type frame struct {
	fn    *ssa.Function
	loops map[*ssa.BasicBlock]*natLoop
}

type loopCtx struct {
	lp     *natLoop
	parent *loopCtx
}

type out struct {
	kind string // return, panic, exit, back, leave
	st   *State
	vals []*Term
	to   *ssa.BasicBlock
	pred *ssa.BasicBlock
	pos  token.Pos
	fn   *ssa.Function
}

// FnKey names a function independently of instantiation.
func FnKey(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = p.Elem()
		}
		return "(" + star + TypeKey(t) + ")." + fn.Name()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Name() + "." + fn.Name()
	}
	if p := fn.Parent(); p != nil {
		return FnKey(p) + "$" + fn.Name()
	}
	return fn.Name()
}

// NewState creates an empty state.
func (x *Exec) NewState() *State {
	return &State{ex: x, mem: map[*Term]*Term{}, hist: map[string]*histNode{}, F: newFacts(x.TB), cnt: map[string]int{}, regs: map[ssa.Value]*Term{}, escaped: map[*Term]bool{}}
}

// Param makes a symbolic value for an input.
func (x *Exec) Param(name string, typ types.Type) *Term {
	return x.TB.mk("sym", name, nil, func(t *Term) { t.Typ = typ; t.Obj = "param" })
}

// Run analyses fn from state st with the given arguments (nil: fresh symbols).
func (x *Exec) Run(fn *ssa.Function, st *State, args []*Term) []*Path {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if st == nil {
		st = x.NewState()
	}
	if args == nil {
		for _, p := range fn.Params {
			args = append(args, x.Param(p.Name(), p.Type()))
		}
		for _, fv := range fn.FreeVars {
			st.regs[fv] = x.Param("free:"+fv.Name(), fv.Type())
		}
	}
	// a method called through a non-nil receiver is the only case analysed
	outs := x.runFunc(fn, st, args, nil)
	var res []*Path
	for _, o := range outs {
		res = append(res, x.path(o, nil))
	}
	return res
}

func (x *Exec) path(o out, mark *evNode) *Path {
	return &Path{Kind: o.kind, Vals: o.vals, St: o.st, Events: o.st.eventsSince(mark), Pos: o.pos, Fn: o.fn, Pred: o.pred}
}

func (x *Exec) runFunc(fn *ssa.Function, st *State, args []*Term, bindings []*Term) []out {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Blocks == nil {
		x.problem("no body for %s", FnKey(fn))
		return nil
	}
	x.Funcs[fn] = true
	saved := st.regs
	savedDef := st.defers
	regs := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		regs[p] = args[i]
	}
	if bindings == nil {
		for _, fv := range fn.FreeVars {
			if t, ok := saved[fv]; ok {
				regs[fv] = t
			}
		}
	}
	for i, b := range bindings {
		regs[fn.FreeVars[i]] = b
	}
	st.regs = regs
	st.defers = nil
	st.depth++
	fr := &frame{fn, x.loopsOf(fn)}
	outs := x.enterBlock(fr, nil, st, fn.Blocks[0], nil)
	for i := range outs {
		nr := make(map[ssa.Value]*Term, len(saved)+4)
		for k, v := range saved {
			nr[k] = v
		}
		outs[i].st.regs = nr
		outs[i].st.defers = savedDef
		outs[i].st.depth--
	}
	return outs
}

func (x *Exec) enterBlock(fr *frame, ctx *loopCtx, st *State, b, pred *ssa.BasicBlock) []out {
	if ctx != nil {
		if b == ctx.lp.header {
			return []out{{kind: "back", st: st, pred: pred, fn: fr.fn}}
		}
		if !ctx.lp.blocks[b] {
			return []out{{kind: "leave", st: st, to: b, pred: pred, fn: fr.fn}}
		}
	}
	if lp := fr.loops[b]; lp != nil {
		return x.runLoop(fr, ctx, lp, st, pred)
	}
	x.doPhis(st, b, pred)
	return x.execFrom(fr, ctx, st, b, 0)
}

func (x *Exec) doPhis(st *State, b, pred *ssa.BasicBlock) {
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pb := range b.Preds {
			if pb == pred {
				vals = append(vals, x.val(st, p.Edges[i]))
				phis = append(phis, p)
				break
			}
		}
	}
	for i, p := range phis {
		st.regs[p] = vals[i]
	}
}

func phiEdge(p *ssa.Phi, pred *ssa.BasicBlock) ssa.Value {
	for i, pb := range p.Block().Preds {
		if pb == pred {
			return p.Edges[i]
		}
	}
	return nil
}

func dependsOn(t *Term, set map[*Term]bool) bool {
	for _, a := range Atoms(t) {
		if set[a] {
			return true
		}
	}
	return false
}

func (x *Exec) generalise(t *Term, set map[*Term]bool) *Term {
	if !dependsOn(t, set) {
		return t
	}
	switch t.Op {
	case "faddr":
		return x.TB.mk("faddr", t.Aux, []*Term{x.generalise(t.Args[0], set)}, func(n *Term) { n.Typ = t.Typ; n.Obj = t.Obj })
	case "iaddr":
		i := t.Args[1]
		if dependsOn(i, set) {
			i = x.TB.Any()
		}
		b := t.Args[0]
		if dependsOn(b, set) {
			b = x.genSlice(b, set)
		}
		return x.TB.mk("iaddr", t.Aux, []*Term{b, i}, func(n *Term) { n.Typ = t.Typ })
	case "mapc", "hst":
		return x.TB.mk(t.Op, t.Aux, []*Term{x.generalise(t.Args[0], set)}, func(n *Term) { n.Typ = t.Typ })
	}
	return x.TB.Any()
}

func (x *Exec) genSlice(t *Term, set map[*Term]bool) *Term {
	r := root(t)
	if !dependsOn(r, set) {
		return r
	}
	if r.Op == "lv" {
		if loc, ok := r.Obj.(*Term); ok && !dependsOn(loc, set) {
			return r // keeps its location for ownership reasoning
		}
	}
	return x.TB.Any()
}

func (x *Exec) runLoop(fr *frame, ctx *loopCtx, lp *natLoop, st *State, pred *ssa.BasicBlock) []out {
	base := fmt.Sprintf("%s.L%d", FnKey(fr.fn), lp.idx)
	n := st.cnt[base]
	st.cnt[base] = n + 1
	inst := base
	if n > 0 {
		inst = fmt.Sprintf("%s#%d", base, n)
	}
	var phis []*ssa.Phi
	entry := map[*ssa.Phi]*Term{}
	for _, in := range lp.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		entry[p] = x.val(st, phiEdge(p, pred))
	}
	if n := x.turns(st, lp, entry); n > 0 {
		return x.unroll(fr, ctx, lp, st, pred, n)
	}
	modPhi := map[*ssa.Phi]bool{}
	var modLoc []*Term
	hasLoc := map[*Term]bool{}
	var modGen []*Term
	hasGen := map[*Term]bool{}
	var induct []*Term
	phase := 0 // 0: fixpoint, 1: final with inductive facts
	dead := x.deadAtHead(st, fr.fn, lp)
	// registers that go along with a location: same start, same step
	along := map[*ssa.Phi]*Term{}
	apart := map[[2]any]bool{}
	tied := map[*ssa.Phi]*tie{}
	for iter := 0; ; iter++ {
		if iter > 25 {
			x.problem("loop %s: no fixpoint", inst)
			return nil
		}
		hs := st.clone()
		mark := hs.created
		rec := &LoopRec{ID: inst, Fn: fr.fn, Pos: loopPos(lp)}
		for _, p := range phis {
			if !modPhi[p] {
				hs.regs[p] = entry[p]
				continue
			}
			if tied[p] != nil {
				continue
			}
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			lv := x.TB.MkT(p.Type(), "lv", inst+":"+nm+"."+p.Name())
			if loc := along[p]; loc != nil {
				lv = x.locVar(inst, loc)
			}
			hs.created = &atomNode{lv, hs.created}
			hs.regs[p] = lv
			rec.Vars = append(rec.Vars, &LVInfo{LV: lv, Entry: entry[p], Phi: p})
		}
		for p, t := range tied {
			if t.expr != nil {
				hs.regs[p] = t.over(x, func(b *LVInfo) *Term {
					if b.Phi != nil {
						return hs.regs[b.Phi]
					}
					return b.LV
				})
				continue
			}
			var b *Term
			if t.phi != nil {
				b = hs.regs[t.phi]
			} else {
				b = x.locVar(inst, t.loc)
			}
			hs.regs[p] = t.of(x.TB, b)
		}
		for _, g := range modGen {
			hs.havoc(g, nil)
		}
		for _, loc := range modLoc {
			e := st.Peek(loc)
			lv := x.locVar(inst, loc)
			hs.created = &atomNode{lv, hs.created}
			hs.havoc(loc, lv)
			rec.Vars = append(rec.Vars, &LVInfo{LV: lv, Entry: e, Loc: loc})
		}
		rec.Havoc = modGen
		for _, f := range induct {
			hs.F.Assume(f)
		}
		hs.emit(&Event{Kind: "loop", Pos: rec.Pos, Fn: fr.fn, Loop: rec})
		evMark := hs.ev
		snap := hs.clone()
		rec.HeadSt = snap
		c2 := &loopCtx{lp: lp, parent: ctx}
		first := 0
		for first < len(lp.header.Instrs) {
			if _, ok := lp.header.Instrs[first].(*ssa.Phi); !ok {
				break
			}
			first++
		}
		outs := x.execFrom(fr, c2, hs, lp.header, first)
		changed := false
		var backs []out
		for _, o := range outs {
			if o.kind != "back" {
				continue
			}
			backs = append(backs, o)
			set := map[*Term]bool{}
			for a := o.st.created; a != mark && a != nil; a = a.prev {
				set[a.t] = true
			}
			for _, p := range phis {
				nv := x.val(o.st, phiEdge(p, o.pred))
				if nv != snap.regs[p] && !modPhi[p] {
					modPhi[p] = true
					changed = true
				}
			}
			for c, h := range o.st.hist {
				stop := snap.hist[c]
				var locs []*Term
				for n := h; n != stop && n != nil; n = n.prev {
					locs = append(locs, n.loc)
				}
				for _, loc := range locs {
					if r := addrRoot(loc); r.Op == "alloc" && (set[r] || dead[r]) {
						continue
					}
					g := x.generalise(loc, set)
					if hasAny(g) {
						if !hasGen[g] {
							hasGen[g] = true
							modGen = append(modGen, g)
							changed = true
						}
						continue
					}
					if g != loc {
						continue
					}
					if hasLoc[loc] {
						continue
					}
					if o.st.Peek(loc) != snap.Peek(loc) {
						hasLoc[loc] = true
						modLoc = append(modLoc, loc)
						changed = true
					}
				}
			}
		}
		// a location covered by a pattern needs no variable of its own
		keep := modLoc[:0:0]
		for _, loc := range modLoc {
			cov := false
			for _, g := range modGen {
				cov = cov || covers(g, loc)
			}
			if !cov {
				keep = append(keep, loc)
			}
		}
		modLoc = keep
		sort.Slice(modLoc, func(i, j int) bool { return modLoc[i].ID < modLoc[j].ID })
		sort.Slice(modGen, func(i, j int) bool { return modGen[i].ID < modGen[j].ID })
		if changed {
			phase = 0
			induct = nil
			along = map[*ssa.Phi]*Term{}
			tied = map[*ssa.Phi]*tie{}
			continue
		}
		if again := x.tieUp(st, rec, backs, phis, modPhi, entry, along, tied, apart); again {
			phase = 0
			induct = nil
			continue
		}
		if again := x.goAlong(st, rec, backs, phis, modPhi, modLoc, entry, along, apart); again {
			phase = 0
			induct = nil
			continue
		}
		for _, o := range backs {
			p := x.path(o, evMark)
			p.PhiVals = map[*ssa.Phi]*Term{}
			for _, ph := range phis {
				p.PhiVals[ph] = x.val(o.st, phiEdge(ph, o.pred))
			}
			rec.Backs = append(rec.Backs, p)
		}
		if phase == 0 {
			induct = x.inductive(st, rec)
			phase = 1
			if len(induct) > 0 {
				continue
			}
		}
		// done
		clears := x.mapClears(rec, lp, snap)
		var res []out
		for _, o := range outs {
			switch o.kind {
			case "back":
			case "leave":
				for _, ref := range clears {
					o.st.poke(o.st.mapLoc(ref), x.TB.Mk("mempty", ""))
				}
				res = append(res, x.enterBlock(fr, ctx, o.st, o.to, o.pred)...)
			default:
				res = append(res, o)
			}
		}
		if len(outs) > 0 && len(backs) == len(outs) {
			// there is no way out of the loop: keep its record on a path of its own
			res = append(res, out{kind: "exit", st: snap})
		}
		return res
	}
}

// locVar is the variable of a location that a loop changes.
func (x *Exec) locVar(inst string, loc *Term) *Term {
	var typ types.Type
	if loc.Typ != nil {
		if pt, ok := loc.Typ.Underlying().(*types.Pointer); ok {
			typ = pt.Elem()
		}
	}
	return x.TB.mk("lv", fmt.Sprintf("%s:%s~%d", inst, loc, loc.ID), nil, func(t *Term) { t.Typ = typ; t.Obj = loc })
}

// tie says that an integer register is the length of a list that changes in
// the loop as well, or twice another integer and a constant, or is computed
// anew from other variables in every turn.
type tie struct {
	phi  *ssa.Phi
	loc  *Term
	len  bool
	c    *Term
	expr *Term
	on   []*LVInfo
}

// over is the expression with other values for its variables.
func (t *tie) over(x *Exec, val func(*LVInfo) *Term) *Term {
	m := map[*Term]*Term{}
	for _, b := range t.on {
		m[b.LV] = val(b)
	}
	return x.TB.Subst(t.expr, m)
}

func (t *tie) of(tb *Table, base *Term) *Term {
	if t.len {
		return tb.Len(base)
	}
	return tb.Add(tb.Mul(tb.Int(2), base), t.c)
}

// computed: the register that starts as e is a sum or difference of two of the
// variables, and a constant, computed anew in every turn.
func (x *Exec) computed(e, lv *Term, vs []*LVInfo, backs []out, at func(out, *LVInfo) *Term, now func(out) *Term) *tie {
	if len(vs) > 12 {
		return nil
	}
	tb := x.TB
	for i, v := range vs {
		for j, w := range vs {
			if i == j {
				continue
			}
			for _, sign := range []int64{1, -1} {
				if sign == 1 && j < i {
					continue
				}
				k := tb.Sub(e, tb.Add(v.Entry, tb.Mul(tb.Int(sign), w.Entry)))
				if k.Op != "num" {
					continue
				}
				t := &tie{on: []*LVInfo{v, w}, expr: tb.Add(k, tb.Add(v.LV, tb.Mul(tb.Int(sign), w.LV)))}
				ok := true
				for _, o := range backs {
					a, b := now(o), t.over(x, func(v *LVInfo) *Term { return at(o, v) })
					ok = ok && !Contains(a, lv) && !Contains(b, lv) && (a == b || o.st.F.ProveEq(a, b))
				}
				if ok {
					return t
				}
			}
		}
	}
	return nil
}

// tieUp looks for such registers. It reports whether the loop has to be looked
// at again.
func (x *Exec) tieUp(st *State, rec *LoopRec, backs []out, phis []*ssa.Phi, modPhi map[*ssa.Phi]bool, entry map[*ssa.Phi]*Term, along map[*ssa.Phi]*Term, tied map[*ssa.Phi]*tie, apart map[[2]any]bool) bool {
	if len(backs) == 0 {
		return false
	}
	now := func(o out, phi *ssa.Phi, loc *Term) *Term {
		if phi != nil {
			return x.val(o.st, phiEdge(phi, o.pred))
		}
		return o.st.Peek(loc)
	}
	key := func(p *ssa.Phi, phi *ssa.Phi, loc *Term) [2]any {
		if phi != nil {
			return [2]any{p, phi}
		}
		return [2]any{p, loc.ID}
	}
	again := false
	for _, p := range phis {
		t := tied[p]
		if t == nil {
			continue
		}
		for _, o := range backs {
			a := now(o, p, nil)
			var b *Term
			if t.expr != nil {
				b = t.over(x, func(v *LVInfo) *Term { return now(o, v.Phi, v.Loc) })
			} else {
				b = t.of(x.TB, now(o, t.phi, t.loc))
			}
			if a != b && !o.st.F.ProveEq(a, b) {
				delete(tied, p)
				if t.expr != nil {
					apart[[2]any{p, "expr"}] = true
				} else {
					apart[key(p, t.phi, t.loc)] = true
				}
				again = true
				break
			}
		}
	}
	if again {
		return true
	}
	used := map[*ssa.Phi]bool{}
	for _, t := range tied {
		used[t.phi] = true
		for _, b := range t.on {
			used[b.Phi] = true
		}
	}
	lv := map[*ssa.Phi]*Term{}
	for _, v := range rec.Vars {
		if v.Phi != nil {
			lv[v.Phi] = v.LV
		}
	}
	for _, p := range phis {
		if !modPhi[p] || along[p] != nil || tied[p] != nil || used[p] || !isInt(p.Type()) || lv[p] == nil {
			continue
		}
		if e := entry[p]; !apart[[2]any{p, "expr"}] && e.Op != "num" {
			var vs []*LVInfo
			for _, v := range rec.Vars {
				if v.Phi != p && v.LV.Typ != nil && isInt(v.LV.Typ) && v.Entry.Op != "num" &&
					!(v.Phi != nil && (tied[v.Phi] != nil || along[v.Phi] != nil)) {
					vs = append(vs, v)
				}
			}
			if t := x.computed(e, lv[p], vs, backs, func(o out, v *LVInfo) *Term { return now(o, v.Phi, v.Loc) }, func(o out) *Term { return now(o, p, nil) }); t != nil {
				tied[p] = t
				for _, b := range t.on {
					used[b.Phi] = true
				}
				again = true
				continue
			}
			apart[[2]any{p, "expr"}] = true
		}
		for _, v := range rec.Vars {
			if v.Phi == p || v.LV.Typ == nil || apart[key(p, v.Phi, v.Loc)] || v.Phi != nil && (tied[v.Phi] != nil || along[v.Phi] != nil) {
				continue
			}
			t := &tie{phi: v.Phi, loc: v.Loc}
			if isInt(v.LV.Typ) {
				t.c = x.TB.Sub(entry[p], x.TB.Mul(x.TB.Int(2), v.Entry))
				if t.c.Op != "num" {
					continue
				}
			} else if _, ok := v.LV.Typ.Underlying().(*types.Slice); ok {
				t.len = true
				if a := x.TB.Len(v.Entry); a != entry[p] && !st.F.ProveEq(a, entry[p]) {
					continue
				}
			} else {
				continue
			}
			m := map[*Term]*Term{lv[p]: t.of(x.TB, v.LV)}
			ok := true
			for _, o := range backs {
				if n := now(o, p, nil); t.len && Contains(n, lv[p]) {
					if d := x.TB.Sub(n, lv[p]); d.Op != "num" || x.TB.LinOf(d).K.Sign() > 0 {
						ok = false // it counts on its own
						break
					}
				}
				a, b := x.TB.Subst(now(o, p, nil), m), x.TB.Subst(t.of(x.TB, now(o, v.Phi, v.Loc)), m)
				ok = ok && (a == b || o.st.F.ProveEq(a, b))
			}
			if ok {
				tied[p] = t
				used[v.Phi] = true
				again = true
				break
			}
			apart[key(p, v.Phi, v.Loc)] = true
		}
	}
	return again
}

// goAlong looks for integer registers that start equal to a location and stay
// equal to it in every turn, and has them share its variable. It reports
// whether the loop has to be looked at again.
func (x *Exec) goAlong(st *State, rec *LoopRec, backs []out, phis []*ssa.Phi, modPhi map[*ssa.Phi]bool, modLoc []*Term, entry map[*ssa.Phi]*Term, along map[*ssa.Phi]*Term, apart map[[2]any]bool) bool {
	if len(backs) == 0 {
		return false
	}
	again := false
	for _, p := range phis {
		loc := along[p]
		if loc == nil {
			continue
		}
		for _, o := range backs {
			if a, b := x.val(o.st, phiEdge(p, o.pred)), o.st.Peek(loc); a != b && !o.st.F.ProveEq(a, b) {
				delete(along, p)
				apart[[2]any{p, loc}] = true
				again = true
				break
			}
		}
	}
	if again {
		return true
	}
	lvOf := func(p *ssa.Phi) *Term {
		for _, v := range rec.Vars {
			if v.Phi == p {
				return v.LV
			}
		}
		return nil
	}
	for _, p := range phis {
		if !modPhi[p] || along[p] != nil || lvOf(p) == nil || !isInt(p.Type()) {
			continue
		}
		for _, v := range rec.Vars {
			if v.Loc == nil || v.LV.Typ == nil || !isInt(v.LV.Typ) || v.Entry != entry[p] || apart[[2]any{p, v.Loc}] {
				continue
			}
			ok := true
			for _, o := range backs {
				m := map[*Term]*Term{lvOf(p): v.LV}
				a, b := x.TB.Subst(x.val(o.st, phiEdge(p, o.pred)), m), x.TB.Subst(o.st.Peek(v.Loc), m)
				if a != b {
					ok = false
				}
			}
			if ok {
				along[p] = v.Loc
				again = true
				break
			}
			apart[[2]any{p, v.Loc}] = true
		}
	}
	return again
}

// deadAtHead gives the temporaries whose content at the head of a loop is
// never read: they are used only after they were written anew in the turn.
func (x *Exec) deadAtHead(st *State, fn *ssa.Function, lp *natLoop) map[*Term]bool {
	var res map[*Term]bool
	var fields func(v ssa.Value, uses *[]ssa.Instruction) bool
	fields = func(v ssa.Value, uses *[]ssa.Instruction) bool {
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				if !fields(in, uses) {
					return false
				}
			case *ssa.UnOp:
			case *ssa.Store:
				if in.Val == v {
					return false
				}
			case *ssa.DebugRef:
				continue
			default:
				return false
			}
			*uses = append(*uses, in)
		}
		return true
	}
	for _, b := range fn.Blocks {
		if lp.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			var uses []ssa.Instruction
			if !fields(al, &uses) {
				continue
			}
			for _, w := range *al.Referrers() {
				s, ok := w.(*ssa.Store)
				if !ok || !lp.blocks[s.Block()] {
					continue
				}
				all := true
				for _, u := range uses {
					all = all && (u == ssa.Instruction(s) || before(s, u))
				}
				if t := st.regs[al]; all && t != nil {
					if res == nil {
						res = map[*Term]bool{}
					}
					res[t] = true
				}
			}
		}
	}
	return res
}

// before: every way to v passes u.
func before(u, v ssa.Instruction) bool {
	if u.Block() != v.Block() {
		return u.Block().Dominates(v.Block())
	}
	for _, in := range u.Block().Instrs {
		if in == u {
			return true
		}
		if in == v {
			return false
		}
	}
	return false
}

// turns gives the number of turns of a range loop over a list that is spelled
// out in the program and has at most four elements, and 0 for all others.
func (x *Exec) turns(st *State, lp *natLoop, entry map[*ssa.Phi]*Term) int {
	var idx *ssa.Phi
	for p := range entry {
		if p.Comment == "rangeindex" {
			idx = p
		}
	}
	if len(lp.header.Instrs) == 0 {
		return 0
	}
	if idx == nil {
		return x.few(st, lp, entry)
	}
	iff, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return 0
	}
	ln, ok := cmp.Y.(*ssa.Call)
	if !ok || len(ln.Call.Args) != 1 {
		return 0
	}
	sl, ok := ln.Call.Args[0].(*ssa.Slice)
	if !ok {
		return 0
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Comment != "slicelit" {
		return 0
	}
	arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || arr.Len() < 1 || arr.Len() > 4 {
		return 0
	}
	return int(arr.Len())
}

// few gives the number of turns of a loop over at most three consecutive
// numbers, and 0 for all others.
func (x *Exec) few(st *State, lp *natLoop, entry map[*ssa.Phi]*Term) int {
	iff, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If)
	if !ok || !lp.blocks[lp.header.Succs[0]] || lp.blocks[lp.header.Succs[1]] {
		return 0
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS && cmp.Op != token.LEQ {
		return 0
	}
	p, ok := cmp.X.(*ssa.Phi)
	if !ok || entry[p] == nil || p.Block() != lp.header || !isInt(p.Type()) {
		return 0
	}
	for i, e := range p.Edges {
		if !lp.blocks[lp.header.Preds[i]] {
			continue
		}
		add, ok := e.(*ssa.BinOp)
		if !ok || add.Op != token.ADD || add.X != ssa.Value(p) {
			return 0
		}
		if k, ok := add.Y.(*ssa.Const); !ok || k.Value == nil || k.Value.ExactString() != "1" {
			return 0
		}
	}
	// the bound, if nothing but numbers from outside the loop goes into it
	var eval func(v ssa.Value) *Term
	eval = func(v ssa.Value) *Term {
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value != nil && isInt(v.Type()) {
				return x.val(st, v)
			}
			return nil
		case *ssa.Phi:
			if v.Block() == lp.header {
				return nil
			}
		case *ssa.BinOp:
			if lp.blocks[v.Block()] {
				a, b := eval(v.X), eval(v.Y)
				if a == nil || b == nil {
					return nil
				}
				switch v.Op {
				case token.ADD:
					return x.TB.Add(a, b)
				case token.SUB:
					return x.TB.Sub(a, b)
				case token.MUL:
					return x.TB.Mul(a, b)
				}
				return nil
			}
		}
		if in, ok := v.(ssa.Instruction); ok && lp.blocks[in.Block()] {
			return nil
		}
		return st.regs[v]
	}
	bound := eval(cmp.Y)
	if _, spelled := cmp.Y.(*ssa.Const); bound == nil || !spelled && len(x.TB.LinOf(bound).Vars) == 0 {
		return 0
	}
	l := x.TB.LinOf(x.TB.Sub(bound, entry[p]))
	if len(l.Vars) > 0 || !l.K.IsInt() || !l.K.Num().IsInt64() {
		return 0
	}
	n := l.K.Num().Int64()
	if cmp.Op == token.LEQ {
		n++
	}
	if n < 1 || n > 3 {
		return 0
	}
	return int(n)
}

// unroll executes a loop of n turns turn by turn.
func (x *Exec) unroll(fr *frame, ctx *loopCtx, lp *natLoop, st *State, pred *ssa.BasicBlock, n int) []out {
	first := 0
	for first < len(lp.header.Instrs) {
		if _, ok := lp.header.Instrs[first].(*ssa.Phi); !ok {
			break
		}
		first++
	}
	type in struct {
		st   *State
		pred *ssa.BasicBlock
	}
	var res []out
	work := []in{{st, pred}}
	for turn := 0; len(work) > 0; turn++ {
		if turn > n {
			x.problem("loop in %s: more turns than elements", FnKey(fr.fn))
			return res
		}
		var next []in
		for _, w := range work {
			x.doPhis(w.st, lp.header, w.pred)
			for _, o := range x.execFrom(fr, &loopCtx{lp: lp, parent: ctx}, w.st, lp.header, first) {
				switch o.kind {
				case "back":
					next = append(next, in{o.st, o.pred})
				case "leave":
					res = append(res, x.enterBlock(fr, ctx, o.st, o.to, o.pred)...)
				default:
					res = append(res, o)
				}
			}
		}
		work = next
	}
	return res
}

func loopPos(lp *natLoop) token.Pos {
	best := token.NoPos
	for _, in := range lp.header.Instrs {
		if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
			best = p
		}
	}
	if !best.IsValid() {
		for b := range lp.blocks {
			for _, in := range b.Instrs {
				if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
					best = p
				}
			}
		}
	}
	return best
}

// covers reports whether pattern g (with any-indices) includes address a.
func covers(g, a *Term) bool {
	if g == a {
		return true
	}
	if g.Op == "any" {
		return true
	}
	if g.Op != a.Op || g.Aux != a.Aux || len(g.Args) != len(a.Args) {
		return false
	}
	for i := range g.Args {
		if !covers(g.Args[i], a.Args[i]) {
			return false
		}
	}
	return true
}

func addrRoot(t *Term) *Term {
	for t.Op == "faddr" || t.Op == "iaddr" || t.Op == "mapc" {
		t = t.Args[0]
	}
	return t
}

func hasAny(t *Term) bool {
	if t.Op == "any" {
		return true
	}
	switch t.Op {
	case "faddr", "iaddr", "mapc", "hst":
		for _, a := range t.Args {
			if hasAny(a) {
				return true
			}
		}
	}
	return false
}

// subst replaces variable v in a linear boolean term by value w.
func (x *Exec) subst(c, v, w *Term) *Term {
	neg := false
	if c.Op == "not" {
		neg = true
		c = c.Args[0]
	}
	switch c.Op {
	case "le0", "flt0", "fle0", "eq0":
	default:
		return nil
	}
	l := x.TB.LinOf(c.Args[0])
	for i, lv := range l.Vars {
		if lv == v {
			r := AddScaled(l, &Lin{Vars: []*Term{v}, Coef: []*big.Rat{one}, K: new(big.Rat)}, new(big.Rat).Neg(l.Coef[i]))
			r = AddScaled(r, x.TB.LinOf(w), l.Coef[i])
			var n *Term
			switch c.Op {
			case "le0":
				n = x.TB.le0(r)
			case "fle0":
				n = x.TB.fle0(r)
			case "flt0":
				n = x.TB.flt0(r)
			case "eq0":
				n = x.TB.Eq(x.TB.FromLin(r), x.TB.Int(0), true)
			}
			if neg {
				n = x.TB.Not(n)
			}
			return n
		}
	}
	return nil
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// inductive finds linear loop invariants over single loop variables.
func (x *Exec) inductive(st *State, rec *LoopRec) []*Term {
	var res []*Term
	if len(rec.Backs) == 0 {
		return nil
	}
	tb := x.TB
	for _, v := range rec.Vars {
		if v.LV.Typ == nil || !isInt(v.LV.Typ) {
			continue
		}
		up, down := true, true
		for _, p := range rec.Backs {
			b := rec.Back(p, v)
			if up && !p.St.F.Entails(tb.Le(v.LV, b)) {
				// the invariant may be needed to show that it is kept
				f := p.St.F.clone()
				f.Assume(tb.Le(v.Entry, v.LV))
				up = f.Entails(tb.Le(v.Entry, b))
			}
			if down && !p.St.F.Entails(tb.Le(b, v.LV)) {
				f := p.St.F.clone()
				f.Assume(tb.Le(v.LV, v.Entry))
				down = f.Entails(tb.Le(b, v.Entry))
			}
		}
		if up {
			res = append(res, tb.Le(v.Entry, v.LV))
		}
		if down {
			res = append(res, tb.Le(v.LV, v.Entry))
		}
		// candidates: branch conditions on the first iteration path, shifted by one step
		seen := map[*Term]bool{}
		for _, e := range rec.Backs[0].Events {
			if e.Kind != "branch" || e.Cond.Op != "le0" {
				continue
			}
			d := tb.Sub(v.LV, tb.Sub(rec.Back(rec.Backs[0], v), v.LV))
			for _, cand := range []*Term{e.Cond, x.subst(e.Cond, v.LV, d)} {
				if cand == nil || seen[cand] || cand.Op == "true" || cand.Op == "false" {
					continue
				}
				seen[cand] = true
				ce := x.subst(cand, v.LV, v.Entry)
				if ce == nil || !st.F.Entails(ce) {
					continue
				}
				ok := true
				for _, p := range rec.Backs {
					cb := x.subst(cand, v.LV, rec.Back(p, v))
					if cb == nil || !p.St.F.Entails(cb) {
						ok = false
					}
				}
				// the rest of the condition must not change from iteration to iteration
				for _, a := range Atoms(cand) {
					if a != v.LV && a.Op == "lv" && rec.Var(a) != nil {
						ok = false
					}
				}
				if ok {
					res = append(res, cand)
				}
			}
		}
	}
	return append(res, x.linked(rec)...)
}

// linked finds linear equalities between loop variables (or lengths of loop
// variables) that each change by a constant in every iteration.
func (x *Exec) linked(rec *LoopRec) []*Term {
	tb := x.TB
	type meas struct {
		m, e *Term
		d    *big.Rat
	}
	var ms []meas
	for _, v := range rec.Vars {
		if v.LV.Typ == nil {
			continue
		}
		f := func(t *Term) *Term { return t }
		if !isInt(v.LV.Typ) {
			if _, ok := v.LV.Typ.Underlying().(*types.Slice); !ok {
				continue
			}
			f = tb.Len
		}
		var d *big.Rat
		for _, p := range rec.Backs {
			n := tb.Sub(f(rec.Back(p, v)), f(v.LV))
			if n.Op != "num" || n.Num.Sign() == 0 || d != nil && d.Cmp(n.Num) != 0 {
				d = nil
				break
			}
			d = n.Num
		}
		if d != nil {
			ms = append(ms, meas{f(v.LV), f(v.Entry), d})
		}
	}
	var res []*Term
	for i := 1; i < len(ms) && i < 6; i++ {
		a, b := ms[0], ms[i]
		res = append(res, tb.Eq(tb.Scale(tb.Sub(a.m, a.e), b.d), tb.Scale(tb.Sub(b.m, b.e), a.d), true))
	}
	return res
}

// mapClears finds maps that are ranged over with every visited key deleted.
func (x *Exec) mapClears(rec *LoopRec, lp *natLoop, snap *State) []*Term {
	var nx *ssa.Next
	for _, in := range lp.header.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			nx = n
		}
	}
	if nx == nil || len(rec.Backs) == 0 {
		return nil
	}
	it := x.val(snap, nx.Iter)
	if it.Op != "range" {
		return nil
	}
	ref := it.Args[0]
	loc := snap.mapLoc(ref)
	for _, p := range rec.Backs {
		c := p.St.Peek(loc)
		t := p.St.regs[nx]
		if t == nil || t.Op != "tuple" || c.Op != "mdel" || c.Args[1] != t.Args[1] {
			return nil
		}
	}
	return []*Term{ref}
}

func (x *Exec) val(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return x.TB.Const(v.Value, v.Type())
	case *ssa.Global:
		return x.TB.MkT(v.Type(), "global", v.RelString(nil))
	case *ssa.Function:
		f := v
		return x.TB.mk("func", FnKey(f), nil, func(t *Term) { t.Typ = v.Type(); t.Obj = f })
	case *ssa.Builtin:
		return x.TB.Mk("builtin", v.Name())
	}
	if t, ok := st.regs[v]; ok {
		return t
	}
	t := st.fresh("sym", "undef:"+v.Name(), v.Type())
	x.problem("undefined value %s in %s", v.Name(), FnKey(v.Parent()))
	return t
}

func instrName(fn *ssa.Function, in ssa.Instruction) string {
	idx := 0
	for i, o := range in.Block().Instrs {
		if o == in {
			idx = i
		}
	}
	return fmt.Sprintf("%s.%d.%d", fn.Name(), in.Block().Index, idx)
}

func (x *Exec) execFrom(fr *frame, ctx *loopCtx, st *State, b *ssa.BasicBlock, i int) []out {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		x.steps++
		if x.steps > 20_000_000 {
			x.problem("step limit")
			return nil
		}
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.Phi:
		case *ssa.Jump:
			return x.enterBlock(fr, ctx, st, b.Succs[0], b)
		case *ssa.If:
			c := x.val(st, in.Cond)
			if v, k := st.F.Value(c); k {
				s := b.Succs[1]
				cc := x.TB.Not(c)
				if v {
					s = b.Succs[0]
					cc = c
				}
				_ = cc
				return x.enterBlock(fr, ctx, st, s, b)
			}
			pos := in.Cond.Pos()
			s2 := st.clone()
			var res []out
			if st.F.Assume(c) {
				st.emit(&Event{Kind: "branch", Cond: c, Pos: pos, Fn: fr.fn})
				res = append(res, x.enterBlock(fr, ctx, st, b.Succs[0], b)...)
			}
			nc := x.TB.Not(c)
			if s2.F.Assume(nc) {
				s2.emit(&Event{Kind: "branch", Cond: nc, Pos: pos, Fn: fr.fn})
				res = append(res, x.enterBlock(fr, ctx, s2, b.Succs[1], b)...)
			}
			x.PathCnt++
			if x.PathCnt > x.MaxPaths {
				x.problem("path limit in %s", FnKey(fr.fn))
				return nil
			}
			return res
		case *ssa.Return:
			var vals []*Term
			for _, r := range in.Results {
				vals = append(vals, x.val(st, r))
			}
			return []out{{kind: "return", st: st, vals: vals, pos: in.Pos(), fn: fr.fn}}
		case *ssa.Panic:
			v := x.val(st, in.X)
			st.emit(&Event{Kind: "panic", Pos: in.Pos(), Fn: fr.fn, Args: []*Term{v}})
			return []out{{kind: "panic", st: st, pos: in.Pos(), fn: fr.fn, vals: []*Term{v}}}
		case *ssa.RunDefers:
			rs := x.runDefers(fr, st)
			if len(rs) == 1 && rs[0].kind == "" {
				st = rs[0].st
				continue
			}
			var res []out
			for _, r := range rs {
				if r.kind == "" {
					res = append(res, x.execFrom(fr, ctx, r.st, b, i+1)...)
				} else {
					res = append(res, r)
				}
			}
			return res
		default:
			rs := x.step(fr, st, in)
			if len(rs) == 1 && rs[0].Kind == "" {
				st = rs[0].St
				if v, ok := in.(ssa.Value); ok && rs[0].Val != nil {
					st.regs[v] = rs[0].Val
				}
				continue
			}
			var res []out
			for _, r := range rs {
				if r.Kind != "" {
					res = append(res, out{kind: r.Kind, st: r.St, pos: in.Pos(), fn: fr.fn})
					continue
				}
				if v, ok := in.(ssa.Value); ok && r.Val != nil {
					r.St.regs[v] = r.Val
				}
				res = append(res, x.execFrom(fr, ctx, r.St, b, i+1)...)
			}
			return res
		}
	}
	x.problem("fell off block in %s", FnKey(fr.fn))
	return nil
}

func (x *Exec) runDefers(fr *frame, st *State) []out {
	cur := []out{{st: st}}
	for {
		d := cur[0].st.defers
		any := false
		for _, c := range cur {
			if c.kind == "" && c.st.defers != nil {
				any = true
				d = c.st.defers
			}
		}
		if !any {
			return cur
		}
		_ = d
		var next []out
		for _, c := range cur {
			if c.kind != "" || c.st.defers == nil {
				next = append(next, c)
				continue
			}
			dd := c.st.defers
			c.st.defers = dd.next
			for _, r := range x.callWith(fr.fn, c.st, dd.call, dd.fnval, dd.args, dd.pos, nil, nil) {
				next = append(next, out{kind: r.Kind, st: r.St, fn: fr.fn, pos: dd.pos})
			}
		}
		cur = next
	}
}

func one1(st *State, v *Term) []CallResult { return []CallResult{{St: st, Val: v}} }

func (x *Exec) step(fr *frame, st *State, in ssa.Instruction) []CallResult {
	tb := x.TB
	switch in := in.(type) {
	case *ssa.Alloc:
		nm := in.Comment
		if nm == "" {
			nm = in.Name()
		}
		t := st.fresh("alloc", nm+"@"+instrName(fr.fn, in), in.Type())
		elem := in.Type().Underlying().(*types.Pointer).Elem()
		st.initZero(t, elem)
		return one1(st, t)
	case *ssa.UnOp:
		return x.unop(fr, st, in)
	case *ssa.BinOp:
		return one1(st, x.binop(in, x.val(st, in.X), x.val(st, in.Y)))
	case *ssa.ChangeInterface:
		return one1(st, x.val(st, in.X))
	case *ssa.ChangeType:
		return one1(st, x.val(st, in.X))
	case *ssa.Convert:
		return one1(st, x.convert(x.val(st, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		return one1(st, x.convert(x.val(st, in.X), in.X.Type(), in.Type()))
	case *ssa.Extract:
		t := x.val(st, in.Tuple)
		if t.Op == "tuple" {
			return one1(st, t.Args[in.Index])
		}
		return one1(st, tb.MkT(in.Type(), "extract", fmt.Sprint(in.Index), t))
	case *ssa.Field:
		return one1(st, tb.Field(x.val(st, in.X), in.X.Type(), in.Field))
	case *ssa.FieldAddr:
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		return one1(st, x.FieldAddr(x.val(st, in.X), pt, in.Field))
	case *ssa.Index:
		a, i := x.val(st, in.X), x.val(st, in.Index)
		return one1(st, tb.MkT(in.Type(), "elem", "", a, i))
	case *ssa.IndexAddr:
		elem := in.Type().Underlying().(*types.Pointer).Elem()
		return one1(st, st.IndexAddr(x.val(st, in.X), x.val(st, in.Index), elem))
	case *ssa.Lookup:
		m, k := x.val(st, in.X), x.val(st, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			return one1(st, tb.MkT(in.Type(), "elem", "", m, k))
		}
		elem := in.X.Type().Underlying().(*types.Map).Elem()
		c := st.MapContent(m)
		if !in.CommaOk && !nilCompared(in) {
			return one1(st, st.MapGet(c, k, elem))
		}
		if !in.CommaOk {
			// the value tells whether the key is there
			has := st.MapHas(c, k)
			if v, known := st.F.Value(has); known {
				if !v {
					return one1(st, tb.Zero(elem))
				}
				return one1(st, st.MapGet(c, k, elem))
			}
			s2 := st.clone()
			st.F.Assume(has)
			s2.F.Assume(tb.Not(has))
			st.emit(&Event{Kind: "branch", Cond: has, Pos: in.Pos(), Fn: fr.fn})
			s2.emit(&Event{Kind: "branch", Cond: tb.Not(has), Pos: in.Pos(), Fn: fr.fn})
			x.PathCnt++
			return []CallResult{{St: st, Val: st.MapGet(c, k, elem)}, {St: s2, Val: tb.Zero(elem)}}
		}
		has := st.MapHas(c, k)
		v, known := st.F.Value(has)
		if known {
			if !v {
				return one1(st, tb.Mk("tuple", "", tb.Zero(elem), tb.Bool(false)))
			}
			return one1(st, tb.Mk("tuple", "", st.MapGet(c, k, elem), tb.Bool(true)))
		}
		// partition on presence so that the value is precise on both sides
		s2 := st.clone()
		st.F.Assume(has)
		s2.F.Assume(tb.Not(has))
		st.emit(&Event{Kind: "branch", Cond: has, Pos: in.Pos(), Fn: fr.fn})
		s2.emit(&Event{Kind: "branch", Cond: tb.Not(has), Pos: in.Pos(), Fn: fr.fn})
		x.PathCnt++
		return []CallResult{
			{St: st, Val: tb.Mk("tuple", "", st.MapGet(c, k, elem), tb.Bool(true))},
			{St: s2, Val: tb.Mk("tuple", "", tb.Zero(elem), tb.Bool(false))},
		}
	case *ssa.MakeChan:
		return one1(st, tb.MkT(in.Type(), "makechan", st.fresh("sym", "chan@"+instrName(fr.fn, in), nil).Aux, x.val(st, in.Size)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			t := x.val(st, b)
			bs = append(bs, t)
			st.markEscape(t)
		}
		fn := in.Fn.(*ssa.Function)
		return one1(st, tb.mk("closure", FnKey(fn), bs, func(t *Term) { t.Typ = in.Type(); t.Obj = fn }))
	case *ssa.MakeInterface:
		v := x.val(st, in.X)
		st.markEscape(v)
		return one1(st, tb.MkT(in.X.Type(), "iface", TypeKey(in.X.Type()), v))
	case *ssa.MakeMap:
		t := st.fresh("alloc", "map@"+instrName(fr.fn, in), in.Type())
		st.mem[st.mapLoc(t)] = tb.Mk("mempty", "")
		return one1(st, t)
	case *ssa.MakeSlice:
		id := st.fresh("sym", "mk@"+instrName(fr.fn, in), nil)
		t := tb.MkT(in.Type(), "makeslice", id.Aux, x.val(st, in.Len))
		st.created = &atomNode{t, st.created}
		return one1(st, t)
	case *ssa.MapUpdate:
		m, k, v := x.val(st, in.Map), x.val(st, in.Key), x.val(st, in.Value)
		c := st.MapContent(m)
		st.poke(st.mapLoc(m), tb.Mk("mput", "", c, k, v))
		st.markEscape(v)
		st.emit(&Event{Kind: "mapset", Pos: in.Pos(), Fn: fr.fn, Args: []*Term{m, k, v, c}})
		return one1(st, nil)
	case *ssa.Range:
		v := x.val(st, in.X)
		id := st.fresh("sym", "range@"+instrName(fr.fn, in), nil)
		return one1(st, tb.Mk("range", "", v, id))
	case *ssa.Next:
		return x.next(fr, st, in)
	case *ssa.Select:
		return x.sel(fr, st, in)
	case *ssa.Send:
		c, v := x.val(st, in.Chan), x.val(st, in.X)
		st.markEscape(v)
		st.emit(&Event{Kind: "send", Pos: in.Pos(), Fn: fr.fn, Args: []*Term{c, v}, Instr: in})
		return one1(st, nil)
	case *ssa.Slice:
		return one1(st, x.slice(st, in))
	case *ssa.SliceToArrayPointer:
		return one1(st, tb.MkT(in.Type(), "s2ap", "", x.val(st, in.X)))
	case *ssa.Store:
		a, v := x.val(st, in.Addr), x.val(st, in.Val)
		t := in.Val.Type()
		var old *Term
		if !Decomposable(t) {
			old = st.Peek(a)
		}
		st.Store(a, v, t)
		st.arrayWrite(a)
		st.emit(&Event{Kind: "store", Pos: in.Pos(), Fn: fr.fn, Args: []*Term{a, v, old}, Instr: in})
		return one1(st, nil)
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, in)
	case *ssa.Defer:
		cc := in.Call
		d := &deferred{call: &cc, pos: in.Pos(), next: st.defers}
		if cc.IsInvoke() {
			d.args = append(d.args, x.val(st, cc.Value))
		} else {
			d.fnval = x.val(st, cc.Value)
		}
		for _, a := range cc.Args {
			d.args = append(d.args, x.val(st, a))
		}
		st.defers = d
		st.emit(&Event{Kind: "defer", Pos: in.Pos(), Fn: fr.fn, Callee: calleeKey(&cc), Args: d.args, Res: d.fnval, Instr: in})
		return one1(st, nil)
	case *ssa.Go:
		cc := in.Call
		var args []*Term
		var fv *Term
		if cc.IsInvoke() {
			args = append(args, x.val(st, cc.Value))
		} else {
			fv = x.val(st, cc.Value)
			st.markEscape(fv)
		}
		for _, a := range cc.Args {
			t := x.val(st, a)
			st.markEscape(t)
			args = append(args, t)
		}
		ev := &Event{Kind: "go", Pos: in.Pos(), Fn: fr.fn, Callee: calleeKey(&cc), Args: args, Res: fv, Instr: in}
		st.emit(ev)
		if x.Spawn {
			for _, r := range x.callWith(fr.fn, st.clone(), &cc, fv, args, in.Pos(), nil, in) {
				k := r.Kind
				if k == "" {
					k = "return"
				}
				p := x.path(out{kind: k, st: r.St}, nil)
				p.Go = ev
				x.Spawned = append(x.Spawned, p)
			}
		}
		if fv != nil && fv.Op == "closure" {
			st.escapeHavoc(fv)
		}
		return one1(st, nil)
	case *ssa.Call:
		cc := in.Common()
		var args []*Term
		var fv *Term
		if cc.IsInvoke() {
			args = append(args, x.val(st, cc.Value))
		} else {
			fv = x.val(st, cc.Value)
		}
		for _, a := range cc.Args {
			args = append(args, x.val(st, a))
		}
		return x.callWith(fr.fn, st, cc, fv, args, in.Pos(), in.Type(), in)
	}
	x.problem("unsupported instruction %T in %s", in, FnKey(fr.fn))
	if v, ok := in.(ssa.Value); ok {
		return one1(st, st.fresh("sym", "unk@"+instrName(fr.fn, in), v.Type()))
	}
	return one1(st, nil)
}

func (st *State) initZero(a *Term, typ types.Type) {
	if Decomposable(typ) {
		s := typ.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			st.initZero(st.ex.FieldAddr(a, typ, i), s.Field(i).Type())
		}
		return
	}
	st.mem[a] = st.ex.TB.Zero(typ)
}

// arrayWrite keeps whole-array values consistent with element writes.
func (st *State) arrayWrite(a *Term) {
	for a.Op == "faddr" {
		a = a.Args[0]
	}
	if a.Op != "iaddr" {
		return
	}
	b := a.Args[0]
	if b.Typ == nil {
		return
	}
	if p, ok := b.Typ.Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Array); ok {
			st.poke(b, st.fresh("sym", "arr:"+b.String(), p.Elem()))
		}
	}
}

func (x *Exec) unop(fr *frame, st *State, in *ssa.UnOp) []CallResult {
	tb := x.TB
	v := x.val(st, in.X)
	switch in.Op {
	case token.MUL:
		r := st.loadAt(v, in.Type())
		if x.TraceLoads {
			st.emit(&Event{Kind: "load", Pos: in.Pos(), Fn: fr.fn, Args: []*Term{v}, Res: r, Instr: in})
		}
		return one1(st, r)
	case token.NOT:
		return one1(st, tb.Not(v))
	case token.SUB:
		return one1(st, tb.Scale(v, minusOne))
	case token.XOR:
		return one1(st, tb.MkT(in.Type(), "compl", "", v))
	case token.ARROW:
		elem := in.X.Type().Underlying().(*types.Chan).Elem()
		r := st.fresh("sym", "recv@"+instrName(fr.fn, in), elem)
		var ok *Term
		if in.CommaOk {
			ok = st.fresh("sym", "recvok@"+instrName(fr.fn, in), types.Typ[types.Bool])
		}
		st.emit(&Event{Kind: "recv", Pos: in.Pos(), Fn: fr.fn, Args: []*Term{v}, Res: r, Instr: in, Ok: ok})
		if in.CommaOk {
			return one1(st, tb.Mk("tuple", "", r, ok))
		}
		return one1(st, r)
	}
	x.problem("unsupported unary %s", in.Op)
	return one1(st, st.fresh("sym", "unop", in.Type()))
}

// loadAt loads, resolving array elements out of whole-array values.
func (st *State) loadAt(a *Term, typ types.Type) *Term {
	if a.Op == "iaddr" && !Decomposable(typ) {
		if _, ok := st.mem[a]; !ok && isArrayAddr(a.Args[0]) {
			if ver, k := st.version(a); ver == st.ex.v0 && k == nil {
				whole := st.Peek(a.Args[0])
				if whole.Op == "zero" {
					return st.ex.TB.Zero(typ)
				}
				if !strings.HasPrefix(whole.Aux, "arr:") {
					return st.ex.TB.MkT(typ, "elem", "", whole, a.Args[1])
				}
			}
		}
	}
	return st.Load(a, typ)
}

func isArrayAddr(b *Term) bool {
	if b.Typ == nil {
		return false
	}
	p, ok := b.Typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

func isFloat(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isNumeric(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}
func isString(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) binop(in *ssa.BinOp, a, b *Term) *Term {
	tb := x.TB
	t := in.X.Type()
	flt := isFloat(t)
	switch in.Op {
	case token.ADD:
		if isString(t) {
			return tb.MkT(in.Type(), "concat", "", a, b)
		}
		return retype(tb.Add(a, b), in.Type())
	case token.SUB:
		return retype(tb.Sub(a, b), in.Type())
	case token.MUL:
		return retype(tb.Mul(a, b), in.Type())
	case token.QUO:
		if flt {
			if b.Op == "num" && b.Num.Sign() != 0 {
				return tb.Scale(a, new(big.Rat).Inv(b.Num))
			}
			return tb.MkT(in.Type(), "fdiv", "", a, b)
		}
		if a.Op == "num" && b.Op == "num" && b.Num.Sign() != 0 && a.Num.IsInt() && b.Num.IsInt() {
			return tb.Num(new(big.Rat).SetInt(new(big.Int).Quo(a.Num.Num(), b.Num.Num())))
		}
		return tb.MkT(in.Type(), "quo", "", a, b)
	case token.REM:
		return tb.MkT(in.Type(), "rem", "", a, b)
	case token.AND, token.OR, token.AND_NOT:
		if in.Op != token.AND_NOT && a.ID > b.ID {
			a, b = b, a
		}
		return tb.MkT(in.Type(), "bit"+in.Op.String(), "", a, b)
	case token.XOR:
		return tb.xorset("xor", in.Type(), a, b)
	case token.SHL:
		if b.Op == "num" && b.Num.IsInt() && b.Num.Sign() >= 0 && b.Num.Num().IsInt64() {
			return tb.Scale(a, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(b.Num.Num().Int64()))))
		}
		return tb.MkT(in.Type(), "shl", "", a, b)
	case token.SHR:
		if b.Op == "num" && b.Num.IsInt() && b.Num.Sign() >= 0 && b.Num.Num().IsInt64() && isUnsigned(in.Type()) {
			return tb.MkT(in.Type(), "quo", "", a, tb.Num(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(b.Num.Num().Int64())))))
		}
		return tb.MkT(in.Type(), "shr", "", a, b)
	case token.EQL, token.NEQ:
		var r *Term
		if isNumeric(t) && !flt {
			r = tb.Eq(a, b, true)
		} else if flt {
			if a == b {
				r = tb.Bool(true)
			} else {
				l := tb.Sub(a, b)
				if ll := tb.LinOf(l); len(ll.Vars) > 0 && ll.Coef[0].Sign() < 0 {
					l = tb.Scale(l, minusOne)
				}
				r = tb.Mk("feq0", "", l)
			}
		} else {
			r = tb.Eq(a, b, false)
		}
		if in.Op == token.NEQ {
			r = tb.Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if in.Op == token.GTR || in.Op == token.GEQ {
			a, b = b, a
		}
		strict := in.Op == token.LSS || in.Op == token.GTR
		if !isNumeric(t) {
			if strict {
				return tb.Mk("slt", "", a, b)
			}
			return tb.Not(tb.Mk("slt", "", b, a))
		}
		if flt {
			if strict {
				return tb.FLt(a, b)
			}
			return tb.FLe(a, b)
		}
		if strict {
			return tb.Lt(a, b)
		}
		return tb.Le(a, b)
	}
	x.problem("unsupported binary %s", in.Op)
	return tb.MkT(in.Type(), "bin"+in.Op.String(), "", a, b)
}

func retype(t *Term, typ types.Type) *Term {
	if t.Typ == nil {
		t.Typ = typ
	}
	return t
}

func (x *Exec) convert(v *Term, from, to types.Type) *Term {
	tb := x.TB
	fb, ok1 := from.Underlying().(*types.Basic)
	tbk, ok2 := to.Underlying().(*types.Basic)
	if _, isTP := to.(*types.TypeParam); isTP {
		ok2 = false
	}
	if ok1 && ok2 && fb.Info()&types.IsNumeric != 0 && tbk.Info()&types.IsNumeric != 0 {
		fi, ti := fb.Info()&types.IsInteger != 0, tbk.Info()&types.IsInteger != 0
		if v.Op == "num" && (!ti || v.Num.IsInt()) {
			return v
		}
		if fi && ti {
			fs, ts := size(fb), size(tbk)
			fu := fb.Info()&types.IsUnsigned != 0
			tu := tbk.Info()&types.IsUnsigned != 0
			if ts >= 64 && fs >= 64 {
				return v
			}
			if ts >= fs && (fu == tu || (fu && ts > fs)) {
				return v
			}
			if v.Op == "bit&" && len(v.Args) == 2 && tu {
				// masking bits the conversion keeps changes nothing
				low := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(ts)), big.NewInt(1))
				for i, a := range v.Args {
					if a.Op == "num" && a.Num.IsInt() && a.Num.Sign() >= 0 && new(big.Int).And(a.Num.Num(), low).Cmp(low) == 0 {
						return x.convert(v.Args[1-i], from, to)
					}
				}
			}
			return tb.MkT(to, "conv", TypeKey(to.Underlying()), v)
		}
		if !fi && !ti {
			return v
		}
		return tb.MkT(to, "conv", TypeKey(to.Underlying()), v)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return tb.MkT(to, "conv", TypeKey(to), v)
}

func size(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (x *Exec) next(fr *frame, st *State, in *ssa.Next) []CallResult {
	tb := x.TB
	it := x.val(st, in.Iter)
	nm := instrName(fr.fn, in)
	if in.IsString || it.Op != "range" {
		ok := st.fresh("sym", "nextok@"+nm, types.Typ[types.Bool])
		k := st.fresh("sym", "key@"+nm, types.Typ[types.Int])
		v := st.fresh("sym", "rune@"+nm, types.Typ[types.Rune])
		return one1(st, tb.Mk("tuple", "", ok, k, v))
	}
	ref := it.Args[0]
	mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	s2 := st.clone()
	k := st.fresh("sym", "key@"+nm, mt.Key())
	c := st.MapContent(ref)
	has := st.MapHas(c, k)
	st.F.Assume(has)
	v := st.MapGet(c, k, mt.Elem())
	more := tb.Mk("more", "", it, k)
	st.emit(&Event{Kind: "branch", Cond: more, Pos: in.Pos(), Fn: fr.fn})
	s2.emit(&Event{Kind: "branch", Cond: tb.Mk("done", "", it), Pos: in.Pos(), Fn: fr.fn})
	return []CallResult{
		{St: st, Val: tb.Mk("tuple", "", tb.Bool(true), k, v)},
		{St: s2, Val: tb.Mk("tuple", "", tb.Bool(false), tb.Zero(mt.Key()), tb.Zero(mt.Elem()))},
	}
}

func (x *Exec) sel(fr *frame, st *State, in *ssa.Select) []CallResult {
	tb := x.TB
	var res []CallResult
	nm := instrName(fr.fn, in)
	n := len(in.States)
	for i := 0; i < n+1; i++ {
		if i == n && in.Blocking {
			break
		}
		s := st.clone()
		var recvs []*Term
		idx := int64(i)
		ev := &Event{Kind: "select", Pos: in.Pos(), Fn: fr.fn, Instr: in, Case: i}
		if i == n {
			idx = -1
		}
		okT := tb.Bool(false)
		for j, ss := range in.States {
			if ss.Dir != types.RecvOnly {
				continue
			}
			elem := ss.Chan.Type().Underlying().(*types.Chan).Elem()
			if j == i {
				r := s.fresh("sym", fmt.Sprintf("recv%d@%s", j, nm), elem)
				recvs = append(recvs, r)
				okT = s.fresh("sym", fmt.Sprintf("recvok%d@%s", j, nm), types.Typ[types.Bool])
				ev.Args = []*Term{x.val(s, ss.Chan)}
				ev.Res = r
				ev.Ok = okT
				ev.Callee = "recv"
			} else {
				recvs = append(recvs, tb.Zero(elem))
			}
		}
		if i < n && in.States[i].Dir == types.SendOnly {
			ev.Callee = "send"
			ev.Args = []*Term{x.val(s, in.States[i].Chan), x.val(s, in.States[i].Send)}
			s.markEscape(ev.Args[1])
		}
		if i == n {
			ev.Callee = "default"
			for _, ss := range in.States {
				ev.Args = append(ev.Args, x.val(s, ss.Chan))
			}
		}
		s.emit(ev)
		args := append([]*Term{tb.Int(idx), okT}, recvs...)
		res = append(res, CallResult{St: s, Val: tb.Mk("tuple", "", args...)})
	}
	x.PathCnt += n
	return res
}

func (x *Exec) slice(st *State, in *ssa.Slice) *Term {
	tb := x.TB
	v := x.val(st, in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = x.val(st, in.Low)
	}
	if in.High != nil {
		hi = x.val(st, in.High)
	}
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		arr := p.Elem().Underlying().(*types.Array)
		if lo == nil {
			lo = tb.Int(0)
		}
		if hi == nil {
			hi = tb.Int(arr.Len())
		}
		// composite literal / varargs: snapshot the elements
		if v.Op == "alloc" && (strings.HasPrefix(v.Aux, "slicelit") || strings.HasPrefix(v.Aux, "varargs")) && lo == tb.Int(0) && hi == tb.Int(arr.Len()) && arr.Len() < 256 {
			var es []*Term
			for i := int64(0); i < arr.Len(); i++ {
				es = append(es, st.loadAt(st.IndexAddr(v, tb.Int(i), arr.Elem()), arr.Elem()))
			}
			r := tb.Append(tb.Nil(), es...)
			return retype(r, in.Type())
		}
		return tb.mk("slicearr", "", []*Term{v, lo, hi}, func(t *Term) { t.Typ = in.Type() })
	}
	if isString(in.X.Type()) {
		args := []*Term{v}
		if lo == nil {
			lo = tb.Int(0)
		}
		args = append(args, lo)
		if hi != nil {
			args = append(args, hi)
		}
		return tb.MkT(in.Type(), "substr", "", args...)
	}
	if v.Op == "slicearr" {
		if lo == nil {
			lo = tb.Int(0)
		}
		if hi == nil {
			hi = tb.Len(v)
		}
		return tb.mk("slicearr", "", []*Term{v.Args[0], tb.Add(v.Args[1], lo), tb.Add(v.Args[1], hi)}, func(t *Term) { t.Typ = in.Type() })
	}
	// s[:k] of an append whose prefix length is provable
	if v.Op == "append" && (lo == nil || lo == tb.Int(0)) && hi != nil {
		for n := len(v.Args) - 1; n >= 0; n-- {
			p := v.Args[0]
			if n > 0 {
				p = tb.Append(v.Args[0], v.Args[1:n+1]...)
			}
			if st.F.Entails(tb.Eq(hi, tb.Len(p), true)) {
				return p
			}
		}
	}
	if hi != nil && (lo == nil || lo == tb.Int(0)) && st.F.Entails(tb.Eq(hi, tb.Len(v), true)) {
		return v
	}
	return tb.Slice(v, lo, hi)
}

func (x *Exec) typeAssert(fr *frame, st *State, in *ssa.TypeAssert) []CallResult {
	tb := x.TB
	v := x.val(st, in.X)
	at := in.AssertedType
	if v.Op == "iface" && !types.IsInterface(at) {
		same := v.Aux == TypeKey(at)
		if in.CommaOk {
			if same {
				return one1(st, tb.Mk("tuple", "", v.Args[0], tb.Bool(true)))
			}
			return one1(st, tb.Mk("tuple", "", tb.Zero(at), tb.Bool(false)))
		}
		if same {
			return one1(st, v.Args[0])
		}
	}
	var val *Term
	if v.Op == "poolget" && !in.CommaOk {
		// an object from a pool is nobody else's, and its content is unknown
		if _, ok := at.Underlying().(*types.Pointer); ok {
			o := tb.MkT(at, "alloc", "pool:"+v.Aux)
			st.created = &atomNode{o, st.created}
			return one1(st, o)
		}
		return one1(st, v)
	}
	if types.IsInterface(at) {
		val = v
	} else {
		val = tb.MkT(at, "tval", TypeKey(at), v)
	}
	is := tb.MkT(at, "typeis", TypeKey(at), v)
	if !in.CommaOk {
		st.F.Assume(is)
		return one1(st, val)
	}
	if b, k := st.F.Value(is); k {
		if b {
			return one1(st, tb.Mk("tuple", "", val, tb.Bool(true)))
		}
		return one1(st, tb.Mk("tuple", "", tb.Zero(at), tb.Bool(false)))
	}
	s2 := st.clone()
	st.F.Assume(is)
	s2.F.Assume(tb.Not(is))
	st.emit(&Event{Kind: "branch", Cond: is, Pos: in.Pos(), Fn: fr.fn})
	s2.emit(&Event{Kind: "branch", Cond: tb.Not(is), Pos: in.Pos(), Fn: fr.fn})
	x.PathCnt++
	return []CallResult{
		{St: st, Val: tb.Mk("tuple", "", val, tb.Bool(true))},
		{St: s2, Val: tb.Mk("tuple", "", tb.Zero(at), tb.Bool(false))},
	}
}

func calleeKey(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + TypeKey(c.Value.Type()) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return FnKey(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "dynamic"
}

func (x *Exec) callWith(in *ssa.Function, st *State, cc *ssa.CallCommon, fv *Term, args []*Term, pos token.Pos, typ types.Type, instr ssa.Instruction) []CallResult {
	tb := x.TB
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return x.builtin(in, st, b, cc, args, pos, typ, instr)
	}
	key := calleeKey(cc)
	var fn *ssa.Function
	var binds []*Term
	if !cc.IsInvoke() {
		fn = cc.StaticCallee()
		if fv != nil && (fv.Op == "closure" || fv.Op == "func") {
			fn = fv.Obj.(*ssa.Function)
			key = FnKey(fn)
			binds = fv.Args
		}
	}
	if fn != nil && fn.Origin() != nil {
		fn = fn.Origin()
	}
	if _, ok := cc.Value.Type().(*types.TypeParam); ok && cc.IsInvoke() {
		key = "(T)." + cc.Method.Name()
	}
	ci := &CallInfo{Key: key, Fn: fn, Common: cc, Args: args, Pos: pos, In: in, Typ: typ, Instr: instr}
	if m := x.Models[key]; m != nil {
		return m(st, ci)
	}
	if fn != nil && fn.Blocks != nil && x.Inline != nil && x.Inline(fn) {
		if st.depth > 24 {
			x.problem("inlining depth exceeded at %s", key)
			return nil
		}
		st.emit(&Event{Kind: "enter", Pos: pos, Fn: in, Callee: key, CallFn: fn, Args: args, Instr: instr})
		outs := x.runFunc(fn, st, args, binds)
		var res []CallResult
		for _, o := range outs {
			switch o.kind {
			case "return":
				o.st.emit(&Event{Kind: "leave", Pos: pos, Fn: in, Callee: key, CallFn: fn})
				var v *Term
				switch len(o.vals) {
				case 0:
					v = tb.Nil()
				case 1:
					v = o.vals[0]
				default:
					v = tb.Mk("tuple", "", o.vals...)
				}
				res = append(res, CallResult{St: o.st, Val: v})
			default:
				res = append(res, CallResult{St: o.st, Kind: o.kind})
			}
		}
		return res
	}
	return x.opaque(st, ci)
}

// Opaque records a call whose body is not analysed: a fresh result, and memory
// reachable from pointer and slice arguments is forgotten.
func (x *Exec) opaque(st *State, ci *CallInfo) []CallResult {
	var pre, post []*Term
	var at *State
	if x.Snap != nil && x.Snap(ci) {
		at = st.clone()
	}
	set := x.setter(ci)
	for i, a := range ci.Args {
		pre = append(pre, st.Content(a))
		if set >= 0 {
			continue
		}
		// io.Writer: Write must not modify the slice data, even temporarily
		if !printFns[ci.Key] && !(i == len(ci.Args)-1 && i > 0 && a.Op == "slicearr" && strings.HasSuffix(ci.Key, ".Write")) {
			if a.Op == "closure" || x.Reads == nil || !x.Reads(ci) {
				st.escapeHavoc(a)
			}
		}
		st.markEscape(a)
	}
	for _, a := range ci.Args {
		post = append(post, st.Content(a))
	}
	var res *Term
	if ci.Typ != nil {
		if ex, ok := pureFns[ci.Key]; ok && ex {
			res = x.TB.MkT(ci.Typ, "call", ci.Key, ci.Args...)
		} else if t, ok := ci.Typ.(*types.Tuple); !ok || t.Len() > 0 {
			nm := ci.Key
			res = st.fresh("sym", nm+"()@"+x.posKey(ci), ci.Typ)
		}
	}
	if _, ok := flagVar(ci); ok {
		// each flag has a variable of its own
		res = st.fresh("alloc", ci.Key+"@"+x.posKey(ci), ci.Typ)
		st.poke(res, ci.Args[len(ci.Args)-2])
	}
	if isFlagSetter(ci.Key) && len(ci.Args) == 4 {
		st.poke(ci.Args[0], ci.Args[2])
	}
	if ci.Key == "flag.Parse" || ci.Key == "(*flag.FlagSet).Parse" {
		for _, e := range st.eventsSince(nil) {
			if e.Kind != "call" || !isFlagSetter(e.Callee) || len(e.Args) != 4 || e.Args[0].Typ == nil || e.Instr == nil {
				continue
			}
			if p, ok := e.Args[0].Typ.Underlying().(*types.Pointer); ok {
				st.poke(e.Args[0], st.fresh("sym", "flag@"+instrName(e.Fn, e.Instr), p.Elem()))
			}
		}
		// from here on every flag has the value given on the command line
		var fl []*Term
		for k := range st.mem {
			if k.Op == "alloc" && isFlagAlloc(k.Aux) {
				fl = append(fl, k)
			}
		}
		sort.Slice(fl, func(i, j int) bool { return fl[i].ID < fl[j].ID })
		for _, k := range fl {
			t := k.Typ.Underlying().(*types.Pointer).Elem()
			st.poke(k, st.fresh("sym", "flag@"+k.Aux[strings.Index(k.Aux, "@")+1:], t))
		}
	}
	if set >= 0 {
		n := ci.Args[0].Typ.Underlying().(*types.Pointer).Elem()
		v, ft := ci.Args[1], n.Underlying().(*types.Struct).Field(set).Type()
		if p, ok := ft.Underlying().(*types.Pointer); ok && !types.Identical(ft, ci.Common.Signature().Params().At(0).Type()) {
			v = st.fresh("alloc", ci.Key+"@"+x.posKey(ci), ft)
			st.poke(v, ci.Args[1])
			_ = p
		}
		st.poke(x.FieldAddr(ci.Args[0], n, set), v)
		res = ci.Args[0]
	}
	if res == nil {
		res = x.TB.Nil()
	}
	st.emit(&Event{Kind: "call", Pos: ci.Pos, Fn: ci.In, Callee: ci.Key, CallFn: ci.Fn, Args: ci.Args, Res: res, Instr: ci.Instr, Pre: pre, Post: post, St: at})
	return one1(st, res)
}

// setter: the call is one of the methods of the AWS interface that set a field
// and return what they were called on; the number of the field, or -1.
func (x *Exec) setter(ci *CallInfo) int {
	if ci.Fn == nil || ci.Fn.Pkg == nil || len(ci.Args) != 2 || !strings.Contains(ci.Fn.Pkg.Pkg.Path(), "aws-sdk-go/service/") || !strings.HasPrefix(ci.Fn.Name(), "Set") || ci.Fn.Signature.Recv() == nil || ci.Args[0].Typ == nil {
		return -1
	}
	p, ok := ci.Args[0].Typ.Underlying().(*types.Pointer)
	if !ok || !types.Identical(p, ci.Fn.Signature.Recv().Type()) || ci.Fn.Signature.Results().Len() != 1 || !types.Identical(p, ci.Fn.Signature.Results().At(0).Type()) {
		return -1
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if "Set"+s.Field(i).Name() != ci.Fn.Name() {
			continue
		}
		a := ci.Fn.Signature.Params().At(0).Type()
		q, ok := s.Field(i).Type().Underlying().(*types.Pointer)
		if types.Identical(a, s.Field(i).Type()) || ok && types.Identical(a, q.Elem()) {
			return i
		}
	}
	return -1
}

// flagVar: the call registers a command-line flag and returns its variable.
func flagVar(ci *CallInfo) (*types.Pointer, bool) {
	if !strings.HasPrefix(ci.Key, "flag.") && !strings.HasPrefix(ci.Key, "(*flag.FlagSet).") || ci.Typ == nil {
		return nil, false
	}
	p, ok := ci.Typ.Underlying().(*types.Pointer)
	if !ok || len(ci.Args) < 3 {
		return nil, false
	}
	_, ok = p.Elem().Underlying().(*types.Basic)
	return p, ok
}

// isFlagSetter: flag.IntVar and the like.
func isFlagSetter(key string) bool {
	return strings.HasPrefix(key, "flag.") && strings.HasSuffix(key, "Var")
}

func isFlagAlloc(aux string) bool {
	return strings.HasPrefix(aux, "flag.") || strings.HasPrefix(aux, "(*flag.FlagSet).")
}

func (x *Exec) posKey(ci *CallInfo) string {
	if ci.Instr != nil {
		return instrName(ci.In, ci.Instr)
	}
	return ci.In.Name()
}

// escapeHavoc forgets memory an unknown callee may change through argument a.
func (st *State) escapeHavoc(a *Term) {
	switch a.Op {
	case "alloc", "faddr", "iaddr", "global":
		// the object at this address and everything inside it
		for k := range st.mem {
			if under(k, a) {
				st.havoc(k, nil)
			}
		}
		st.havoc(a, nil)
	case "slicearr":
		st.havoc(a.Args[0], nil)
		for k := range st.mem {
			if under(k, a.Args[0]) {
				st.havoc(k, nil)
			}
		}
	case "iface":
		st.escapeHavoc(a.Args[0])
	case "closure":
		// the variables it may change when it is called
		fn, _ := a.Obj.(*ssa.Function)
		if st.within[a] {
			return
		}
		if st.within == nil {
			st.within = map[*Term]bool{}
		}
		st.within[a] = true
		defer delete(st.within, a)
		for i, b := range a.Args {
			// what it calls may change variables as well
			if v := st.Peek(b); v != nil && v.Op == "closure" {
				st.escapeHavoc(v)
			}
			if fn == nil || i >= len(fn.FreeVars) || changes(fn.FreeVars[i], 0) {
				st.escapeHavoc(b)
			}
			if fn != nil && i < len(fn.FreeVars) && changesMap(fn.FreeVars[i]) {
				st.havoc(st.mapLoc(st.Peek(b)), nil)
			}
			if fn != nil && i < len(fn.FreeVars) {
				if el := changesElems(fn.FreeVars[i]); el != nil {
					st.havoc(st.IndexAddr(st.Peek(b), st.ex.TB.Any(), el), nil)
				}
			}
		}
	case "agg":
		for _, v := range a.Args {
			st.escapeHavoc(v)
		}
	case "slice", "append", "appendsl":
		if a.Op == "append" {
			for _, v := range a.Args[1:] {
				st.escapeHavoc(v)
			}
		}
		r := root(a)
		if r.Op == "alloc" || r.Op == "slicearr" {
			st.escapeHavoc(r)
		}
	}
}

// changes: the variable at address v may be written through it.
func changes(v ssa.Value, depth int) bool {
	if depth > 6 || v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch in := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.Store:
			return true
		case *ssa.FieldAddr:
			if changes(in, depth+1) {
				return true
			}
		case *ssa.IndexAddr:
			if changes(in, depth+1) {
				return true
			}
		case *ssa.MakeClosure:
			fn := in.Fn.(*ssa.Function)
			for i, b := range in.Bindings {
				if b == v && changes(fn.FreeVars[i], depth+1) {
					return true
				}
			}
		case ssa.CallInstruction:
			fn := in.Common().StaticCallee()
			if fn == nil || len(fn.Blocks) == 0 || in.Common().Value == v {
				return true
			}
			for i, a := range in.Common().Args {
				if a == v && (i >= len(fn.Params) || changes(fn.Params[i], depth+1)) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// changesMap: the map held in the variable at address v is written.
func changesMap(v *ssa.FreeVar) bool {
	for _, r := range *v.Referrers() {
		if ld, ok := r.(*ssa.UnOp); ok && ld.Referrers() != nil {
			if _, ok := ld.Type().Underlying().(*types.Map); !ok {
				continue
			}
			for _, q := range *ld.Referrers() {
				if _, ok := q.(*ssa.UnOp); !ok {
					if _, ok := q.(*ssa.Lookup); !ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// changesElems: elements of the slice kept in the variable v are written
// through it; it gives their type.
func changesElems(v *ssa.FreeVar) types.Type {
	for _, r := range *v.Referrers() {
		ld, ok := r.(*ssa.UnOp)
		if !ok || ld.Referrers() == nil {
			continue
		}
		sl, ok := ld.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		for _, q := range *ld.Referrers() {
			if ia, ok := q.(*ssa.IndexAddr); ok && changes(ia, 0) {
				return sl.Elem()
			}
		}
	}
	return nil
}

// nilCompared: the value looked up in a map is compared with nil.
func nilCompared(in *ssa.Lookup) bool {
	if _, ok := in.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	for _, r := range *in.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok {
			for _, o := range []ssa.Value{b.X, b.Y} {
				if k, ok := o.(*ssa.Const); ok && k.IsNil() {
					return true
				}
			}
		}
	}
	return false
}

func under(k, a *Term) bool {
	for k != nil {
		if k == a {
			return true
		}
		if k.Op == "faddr" || k.Op == "iaddr" || k.Op == "mapc" {
			k = k.Args[0]
			continue
		}
		return false
	}
	return false
}

func (x *Exec) builtin(in *ssa.Function, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []*Term, pos token.Pos, typ types.Type, instr ssa.Instruction) []CallResult {
	tb := x.TB
	switch b.Name() {
	case "len":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			return one1(st, tb.MkT(types.Typ[types.Int], "len", "", st.MapContent(args[0])))
		}
		if p, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return one1(st, tb.Int(a.Len()))
			}
		}
		if a, ok := cc.Args[0].Type().Underlying().(*types.Array); ok {
			return one1(st, tb.Int(a.Len()))
		}
		return one1(st, tb.Len(args[0]))
	case "cap":
		return one1(st, tb.MkT(types.Typ[types.Int], "cap", "", args[0]))
	case "append":
		if len(args) == 1 {
			return one1(st, args[0])
		}
		r := retype(tb.AppendSl(args[0], args[1]), typ)
		st.emit(&Event{Kind: "append", Pos: pos, Fn: in, Args: []*Term{args[0], args[1]}, Res: r, Instr: instr})
		for _, a := range args[1:] {
			st.markEscape(a)
		}
		if r.Op == "append" {
			if el, ok := typ.Underlying().(*types.Slice); ok {
				l0 := tb.Len(r.Args[0])
				for i := 1; i < len(r.Args); i++ {
					st.note(st.IndexAddr(r, tb.AddK(l0, int64(i-1)), el.Elem()), r.Args[i], el.Elem())
				}
			}
		}
		return one1(st, r)
	case "copy":
		d, s := args[0], args[1]
		st.emit(&Event{Kind: "copy", Pos: pos, Fn: in, Args: []*Term{d, s}, Instr: instr})
		n := tb.MkT(types.Typ[types.Int], "copied", "", d, s)
		if st.F.Entails(tb.Eq(tb.Len(d), tb.Len(s), true)) {
			n = tb.Len(d)
		} else if st.F.Entails(tb.Le(tb.Len(d), tb.Len(s))) {
			n = tb.Len(d)
		} else if st.F.Entails(tb.Le(tb.Len(s), tb.Len(d))) {
			n = tb.Len(s)
		}
		if d.Op == "slicearr" {
			if d.Args[1] == tb.Int(0) && d.Args[2] == tb.Len(wholeArr(tb, d)) && st.F.Entails(tb.Eq(tb.Len(d), n, true)) {
				src := st.Content(s)
				st.poke(d.Args[0], tb.Mk("bytesof", "", src, n))
			} else if s.Op == "appendsl" && s.Args[0].Op == "nil" && s.Args[1].Op == "digest" && d.Args[1] == tb.Int(0) && d.Args[2] == tb.Len(wholeArr(tb, d)) {
				// a digest copied into an array of its size
				st.poke(d.Args[0], s.Args[1])
			} else {
				st.poke(d.Args[0], st.fresh("sym", "arrcopy", nil))
			}
		} else {
			st.havoc(st.IndexAddr(d, tb.Any(), types.Typ[types.Byte]), nil)
		}
		return one1(st, n)
	case "delete":
		m, k := args[0], args[1]
		c := st.MapContent(m)
		var nv *Term
		if h := st.MapHas(c, k); h.Op == "false" {
			nv = c
		} else if v, kn := st.F.Value(h); kn && !v {
			nv = c
		} else {
			nv = tb.Mk("mdel", "", c, k)
		}
		st.poke(st.mapLoc(m), nv)
		st.emit(&Event{Kind: "mapdel", Pos: pos, Fn: in, Args: []*Term{m, k, c}, Instr: instr})
		return one1(st, tb.Nil())
	case "clear":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			st.poke(st.mapLoc(args[0]), tb.Mk("mempty", ""))
			return one1(st, tb.Nil())
		}
	case "close":
		st.emit(&Event{Kind: "close", Pos: pos, Fn: in, Args: args, Instr: instr})
		return one1(st, tb.Nil())
	case "print", "println":
		return one1(st, tb.Nil())
	case "ssa:wrapnilchk":
		return one1(st, args[0])
	case "min", "max":
		if len(args) == 2 && isNumeric(typ) && !isFloat(typ) {
			le := tb.Le(args[0], args[1])
			a, c := args[0], args[1]
			if b.Name() == "max" {
				a, c = c, a
			}
			if v, k := st.F.Value(le); k {
				if v {
					return one1(st, a)
				}
				return one1(st, c)
			}
			s2 := st.clone()
			st.F.Assume(le)
			s2.F.Assume(tb.Not(le))
			return []CallResult{{St: st, Val: a}, {St: s2, Val: c}}
		}
	case "recover":
		return one1(st, st.fresh("sym", "recover", typ))
	}
	x.problem("unsupported builtin %s", b.Name())
	return one1(st, st.fresh("sym", "builtin:"+b.Name(), typ))
}

func wholeArr(tb *Table, d *Term) *Term {
	p := d.Args[0].Typ.Underlying().(*types.Pointer)
	a := p.Elem().Underlying().(*types.Array)
	return tb.mk("slicearr", "", []*Term{d.Args[0], tb.Int(0), tb.Int(a.Len())}, nil)
}

// Content is the byte content denoted by a []byte argument.
func (st *State) Content(s *Term) *Term {
	tb := st.ex.TB
	if s.Op == "iface" && s.Args[0].Op == "alloc" && s.Args[0].Typ != nil {
		if p, ok := s.Args[0].Typ.Underlying().(*types.Pointer); ok && Decomposable(p.Elem()) {
			return st.loadAt(s.Args[0], p.Elem())
		}
	}
	if s.Op == "slicearr" && isArrayAddr(s.Args[0]) {
		if s.Args[1] == tb.Int(0) && s.Args[2] == tb.Len(wholeArr(tb, s)) {
			return st.Peek(s.Args[0])
		}
		return tb.Mk("subbytes", "", st.Peek(s.Args[0]), s.Args[1], s.Args[2])
	}
	return s
}
