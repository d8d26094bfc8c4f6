package rules

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// groups checks that whoever waits for a group of workers is not left waiting:
// every worker reports its end on all ways out, and as many are added as start.
func (r *races) groups(c *C) int {
	g := r.g
	n := 0
	isWG := func(ci ssa.CallInstruction, m string) bool {
		return !ci.Common().IsInvoke() && calleeName(ci.Common()) == "(*sync.WaitGroup)."+m
	}
	of := func(ci ssa.CallInstruction) map[ssa.Value]bool {
		out := map[ssa.Value]bool{}
		for _, o := range g.origins(ci.Common().Args[0]) {
			out[o] = true
		}
		return out
	}
	meet := func(a, b map[ssa.Value]bool) bool {
		for k := range a {
			if b[k] {
				return true
			}
		}
		return false
	}
	var waits, adds []ssa.CallInstruction
	for _, f := range g.fns {
		for _, ci := range calls(f) {
			if isWG(ci, "Wait") {
				waits = append(waits, ci)
			}
			if isWG(ci, "Add") {
				adds = append(adds, ci)
			}
		}
	}
	// the group each goroutine reports to
	dones := map[*groot]map[ssa.Value]bool{}
	for _, root := range g.roots {
		m := map[ssa.Value]bool{}
		for _, f := range g.fns {
			if !root.reach[f] {
				continue
			}
			for _, ci := range calls(f) {
				if isWG(ci, "Done") {
					for o := range of(ci) {
						m[o] = true
					}
				}
			}
		}
		dones[root] = m
	}
	for _, w := range waits {
		ws := of(w)
		if len(ws) == 0 {
			c.Ob(false, "group", shortFn(w.Parent()), w.Pos(), "the group waited for cannot be told")
			continue
		}
		n++
		var gos []*ssa.Go
		for _, root := range g.roots {
			if !meet(dones[root], ws) {
				continue
			}
			if len(root.goes) == 0 {
				continue
			}
			all := map[ssa.Value]bool{}
			for o := range r.doneAll(root.fn, map[*ssa.Function]bool{}) {
				all[o] = true
			}
			c.Ob(meet(all, ws), "reports", root.name, root.fn.Pos(), "%s may end without reporting it, and %s then waits for ever", root.name, shortFn(w.Parent()))
			for _, x := range root.goes {
				dup := false
				for _, y := range gos {
					dup = dup || x == y
				}
				if !dup {
					gos = append(gos, x)
				}
			}
		}
		c.Ob(len(gos) > 0, "workers", shortFn(w.Parent()), w.Pos(), "%s waits for a group no goroutine reports to", shortFn(w.Parent()))
		var mine []ssa.CallInstruction
		for _, a := range adds {
			if meet(of(a), ws) {
				mine = append(mine, a)
			}
		}
		used := map[ssa.CallInstruction]bool{}
		for _, gi := range gos {
			ok := false
			for _, a := range mine {
				if r.adds(a, gi, mine, gos, waits) {
					ok = true
					used[a] = true
				}
			}
			c.Ob(ok, "added", shortFn(gi.Parent()), gi.Pos(), "a worker is started that is not added to the group exactly once before")
		}
		for _, a := range mine {
			c.Ob(used[a], "added", shortFn(a.Parent()), a.Pos(), "more workers are added to the group than are started, so %s waits for ever", shortFn(w.Parent()))
		}
	}
	return n
}

// doneAll: the groups f reports to on all its ways out.
func (r *races) doneAll(f *ssa.Function, seen map[*ssa.Function]bool) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	if seen[f] {
		return out
	}
	seen[f] = true
	for _, ci := range calls(f) {
		if _, ok := ci.(*ssa.Go); ok || !onAllWays(f, ci) {
			continue
		}
		cc := ci.Common()
		if !cc.IsInvoke() && calleeName(cc) == "(*sync.WaitGroup).Done" {
			for _, o := range r.g.origins(cc.Args[0]) {
				out[o] = true
			}
		}
		fs := r.g.direct(ci)
		if len(fs) == 1 {
			for o := range r.doneAll(fs[0], seen) {
				out[o] = true
			}
		}
	}
	return out
}

// adds: the worker started at gi is counted by a.
func (r *races) adds(a ssa.CallInstruction, gi *ssa.Go, mine []ssa.CallInstruction, gos []*ssa.Go, waits []ssa.CallInstruction) bool {
	if a.Parent() != gi.Parent() || len(a.Common().Args) != 2 {
		return false
	}
	f := gi.Parent()
	n := a.Common().Args[1]
	if cv, ok := n.(*ssa.Convert); ok {
		n = cv.X
	}
	var stop []ssa.Instruction
	for _, m := range mine {
		if m.Parent() == f {
			stop = append(stop, m)
		}
	}
	for _, w := range waits {
		if w.Parent() == f {
			stop = append(stop, w)
		}
	}
	for _, x := range returns(f) {
		stop = append(stop, x)
	}
	if k, ok := n.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
		want, _ := constant.Int64Val(k.Value)
		// the starts that follow before anything is added or waited for
		cnt := int64(0)
		for _, o := range gos {
			if o.Parent() != f || !reachableAvoiding(a, o, without(stop, nil)) {
				continue
			}
			cnt++
			// on every way, and once
			for _, s := range stop {
				if reachableAvoiding(a, s, append(without(stop, s), o)) {
					return false
				}
			}
			if reachableAvoiding(o, o, stop) {
				return false
			}
		}
		return cnt == want && reachableAvoiding(a, gi, without(stop, nil))
	}
	// one for each element of a list the starts run over
	z := lenOf(n)
	if z == nil {
		return false
	}
	for _, b := range f.Blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS {
			continue
		}
		z2 := lenOf(cmp.Y)
		if z2 == nil || !sameList(r.g, z, z2) || !upByOne(cmp.X) {
			continue
		}
		if !a.Block().Dominates(b) || len(b.Succs) != 2 {
			continue
		}
		body := b.Succs[0]
		// every round starts one worker and goes on with the next
		first := body.Instrs[0]
		head := b.Instrs[0]
		if !reachableAvoiding(gi, head, nil) {
			continue
		}
		if first != ssa.Instruction(gi) && reachableAvoiding(first, head, []ssa.Instruction{gi}) {
			continue
		}
		leaves := false
		for _, x := range stop {
			leaves = leaves || first != ssa.Instruction(gi) && reachableAvoiding(first, x, []ssa.Instruction{gi, head}) || reachableAvoiding(gi, x, []ssa.Instruction{head})
		}
		if leaves || reachableAvoiding(gi, gi, []ssa.Instruction{head}) {
			continue
		}
		// the loop runs once
		again := false
		for _, p := range b.Preds {
			if !body.Dominates(p) && p != a.Block() && reachableAvoiding(b.Succs[1].Instrs[0], p.Instrs[0], []ssa.Instruction{a}) {
				again = true
			}
		}
		// and nothing else is started on this count
		for _, o := range gos {
			if o != gi && o.Parent() == f && reachableAvoiding(a, o, without(stop, a)) {
				again = true
			}
		}
		if !again {
			return true
		}
	}
	return false
}

func without(xs []ssa.Instruction, x ssa.Instruction) []ssa.Instruction {
	var out []ssa.Instruction
	for _, y := range xs {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

func lenOf(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

// sameList: both are the same list, or what the same variable, set once, holds.
func sameList(g *conc, a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL || x.X != y.X {
		return false
	}
	al, ok := x.X.(*ssa.Alloc)
	return ok && len(cellStores(g, al)) == 1
}

// upByOne: a loop's index counting up from the first element.
func upByOne(v ssa.Value) bool {
	one := func(v ssa.Value, of ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != of {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		return ok && k.Value != nil && k.Value.ExactString() == "1"
	}
	start := func(v ssa.Value, s string) bool {
		k, ok := v.(*ssa.Const)
		return ok && k.Value != nil && k.Value.ExactString() == s
	}
	if p, ok := v.(*ssa.Phi); ok {
		z, up := false, true
		for _, e := range p.Edges {
			if start(e, "0") {
				z = true
			} else if !one(e, p) {
				up = false
			}
		}
		return z && up
	}
	// the index of a range loop
	if b, ok := v.(*ssa.BinOp); ok {
		if p, ok := b.X.(*ssa.Phi); ok && one(b, p) {
			z, up := false, true
			for _, e := range p.Edges {
				if start(e, "-1") {
					z = true
				} else if e != ssa.Value(b) {
					up = false
				}
			}
			return z && up
		}
	}
	return false
}
