package rules

import (
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

func init() {
	register(&Rule{ID: "C03", Pkgs: []string{"riblt"}, MinObl: 6, Run: ruleC03,
		What: "the generator's new state is a pure term over its old state, its result is the stored position, and interval evaluation of the step (NaN and out-of-range conversions included) bounds it to [1, 2^63-2^31] for every 64-bit state and every position below 2^31"})
	register(&Rule{ID: "C07", Pkgs: []string{"riblt", "lt", "iblt", "ldpc"}, MinObl: 20, Run: ruleC07,
		What: "on every path of every Reset each state field ends in its initial value (zero, or a list or map of length 0) or in the value newly given"})
	register(&Rule{ID: "C09", Pkgs: []string{"riblt"}, MinObl: 20, Run: ruleC09,
		What: "sift-down and sift-up exchange exactly parent and child entries, towards the smaller child, and stop only where the order holds; every change of a queue is followed by the matching repair"})
}

// generator is the position generator interpreted on its own.
func ruleC03(c *C) {
	r := c.rib()
	if !r.ok {
		return
	}
	x := c.exec()
	r.x = x
	tb := x.TB
	fn := r.nextIndex
	s := x.Param("s", fn.Params[0].Type())
	ps := c.Run(x, fn, nil, []*Term{s})
	pa, ia := r.fa(s, r.tMap, r.mPrng), r.fa(s, r.tMap, r.mIdx)
	st0 := x.NewState()
	p0, i0 := st0.Peek(pa), st0.Peek(ia)
	for _, p := range ps {
		if !c.Ob(p.Kind == "return" && len(p.Vals) == 1, "returns", "nextIndex", p.Pos, "the position generator can end without a position") {
			continue
		}
		np, ni := p.St.Peek(pa), p.St.Peek(ia)
		c.Ob(p.Vals[0] == ni, "result", "nextIndex", p.Pos, "the position returned is not the one remembered")
		c.Ob(r.pure(np, p0, i0), "pure", "nextIndex state", p.Pos, "the generator's next state %s depends on more than its state", np)
		c.Ob(r.pure(ni, p0, i0), "pure", "nextIndex position", p.Pos, "the next position %s depends on more than the generator's state", ni)
		for _, e := range p.Events {
			switch e.Kind {
			case "store":
				c.Ob(e.Args[0] == pa || e.Args[0] == ia || isAlloc(e.Args[0]) || e.Args[0] == s, "effects", "nextIndex", e.Pos, "the generator changes %s", e.Args[0])
			case "call":
				c.Ob(absint.Pure(e.Callee), "effects", "nextIndex call", e.Pos, "the generator calls %s", e.Callee)
			case "branch":
				c.Ob(r.pure(e.Cond, p0, i0), "pure", "nextIndex branch", e.Pos, "the generator branches on %s", e.Cond)
			case "loop":
				c.Fail("undecided", "nextIndex loop", e.Loop.Pos, "the generator contains a loop; its positions cannot be bounded")
			case "enter", "leave":
			default:
				c.Fail("effects", "nextIndex "+e.Kind, e.Pos, "the generator performs a %s", e.Kind)
			}
		}
		ev := &intervals{tb: tb, f: p.St.F, memo: map[*Term]iv{}, pre: map[*Term]iv{
			i0: {lo: 0, hi: math.Pow(2, 31) - 1},
			p0: {lo: 0, hi: math.Pow(2, 64)},
		}}
		step := tb.Sub(ni, i0)
		v := ev.eval(step)
		c.Ob(v.lo >= 1 && !v.nan, "advance", "nextIndex", p.Pos, "for some hash values the next position is not larger than the last one (step in [%g, %g]%s)", v.lo, v.hi, nanNote(v))
		c.Ob(v.hi <= math.Pow(2, 63)-math.Pow(2, 31) && !v.nan && v.bad == "", "bounded", "nextIndex", p.Pos, "for some hash values the next position wraps around or becomes negative (step in [%g, %g]%s)", v.lo, v.hi, nanNote(v))
	}
	// nothing else writes generator state of a given symbol: C02 decides who starts and advances sequences
}

func nanNote(v iv) string {
	s := ""
	if v.nan {
		s += ", possibly NaN"
	}
	if v.bad != "" {
		s += ", " + v.bad
	}
	return s
}

// pure: the term is built from the given loads, constants and pure functions.
func (r *rib) pure(t *Term, loads ...*Term) bool {
	for _, l := range loads {
		if t == l {
			return true
		}
	}
	switch t.Op {
	case "num", "true", "false", "str":
		return true
	case "load", "sym", "param", "lv", "alloc", "global", "ver", "any":
		return false
	case "call":
		if !absint.Pure(t.Aux) {
			return false
		}
	}
	if t.Op == "lin" {
		for _, v := range r.x.TB.LinOf(t).Vars {
			if !r.pure(v, loads...) {
				return false
			}
		}
		return true
	}
	for _, a := range t.Args {
		if !r.pure(a, loads...) {
			return false
		}
	}
	return len(t.Args) > 0
}

// ruleC07: Reset restores the initial state.
func ruleC07(c *C) {
	r := c.rib()
	if !r.ok {
		return
	}
	for _, n := range []string{"Encoder", "Decoder"} {
		fn := c.Fn("riblt", n, "Reset")
		if fn == nil {
			continue
		}
		x := c.exec()
		recv := x.Param("r", fn.Params[0].Type())
		for _, p := range c.Run(x, fn, nil, []*Term{recv}) {
			if !c.Ob(p.Kind == "return", "returns", "riblt."+n+".Reset", p.Pos, "Reset can end without returning") {
				continue
			}
			c.zeroFields(x, p, recv, fn.Params[0].Type(), "riblt."+n, nil)
		}
	}
	for _, rel := range []string{"lt", "iblt", "ldpc"} {
		c.Safe(rel, func() { c.resetEncoder(rel) })
	}
}

// zeroFields: every leaf field of the struct at base is in its initial state at the end of p.
func (c *C) zeroFields(x *absint.Exec, p *Path, base *Term, t types.Type, where string, skip func(types.Type, string, *Term) bool) {
	s, ok := structOf(t)
	if !ok {
		return
	}
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = q.Elem()
	}
	tb := x.TB
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		a := x.FieldAddr(base, t, i)
		w := where + "." + f.Name()
		v := func() *Term { return p.St.Peek(a) }
		if skip != nil && skip(f.Type(), f.Name(), a) {
			continue
		}
		ok := false
		switch u := f.Type().Underlying().(type) {
		case *types.Struct:
			if absint.Decomposable(f.Type()) {
				c.zeroFields(x, p, a, f.Type(), w, skip)
				continue
			}
		case *types.Slice:
			ok = p.St.F.Entails(tb.Le(tb.Len(v()), tb.Int(0)))
		case *types.Map:
			ok = v().Op == "nil" || p.St.F.Entails(tb.Le(tb.MkT(types.Typ[types.Int], "len", "", p.St.MapContent(v())), tb.Int(0))) || p.St.MapContent(v()).Op == "mempty"
		case *types.Basic:
			switch {
			case u.Info()&types.IsNumeric != 0:
				ok = p.St.F.ProveEq(v(), tb.Int(0))
			case u.Info()&types.IsBoolean != 0:
				b, k := p.St.F.Value(v())
				ok = k && !b
			}
		default:
			ok = v() == tb.Zero(f.Type())
		}
		c.Ob(ok, "initial", w, p.Pos, "Reset leaves %s at %s, not in its initial state", w, v())
	}
}

// resetEncoder: Reset of a windowed encoder.
func (c *C) resetEncoder(rel string) {
	fn := c.Fn(rel, "Encoder", "Reset")
	if fn == nil {
		return
	}
	if !c.Ob(len(fn.Params) == 3, "signature", rel+".Encoder.Reset", fn.Pos(), "Reset does not take a degree distribution and a window size") {
		return
	}
	x := c.exec()
	recv := x.Param("e", fn.Params[0].Type())
	dist, ws := x.Param("dist", fn.Params[1].Type()), x.Param("ws", fn.Params[2].Type())
	ps := c.Run(x, fn, nil, []*Term{recv, dist, ws})
	scratch := c.scratchFields(rel)
	for _, p := range ps {
		if !c.Ob(p.Kind == "return", "returns", rel+".Encoder.Reset", p.Pos, "Reset can end without returning") {
			continue
		}
		nd, nw := 0, 0
		c.zeroFields(x, p, recv, fn.Params[0].Type(), rel+".Encoder", func(t types.Type, name string, a *Term) bool {
			v := p.St.Peek(a)
			switch {
			case types.Identical(t, fn.Params[1].Type()):
				nd++
				c.Ob(v == dist, "given", rel+".Encoder."+name, p.Pos, "Reset does not install the new degree distribution")
				return true
			case types.Identical(t, fn.Params[2].Type()):
				nw++
				c.Ob(v == ws, "given", rel+".Encoder."+name, p.Pos, "Reset does not install the new window size")
				return true
			case scratch[name]:
				return true
			}
			switch t.Underlying().(type) {
			case *types.Interface, *types.Pointer:
				// the hasher and the random source are kept
				c.Ob(v == x.NewState().Peek(a), "kept", rel+".Encoder."+name, p.Pos, "Reset replaces %s", name)
				return true
			}
			return false
		})
		c.Ob(nd == 1 && nw == 1, "given", rel+".Encoder", p.Pos, "Reset installs %d degree distributions and %d window sizes", nd, nw)
	}
}

// scratchFields: slice fields of the encoder whose content from before a call
// never matters, because every method empties them before use.
func (c *C) scratchFields(rel string) map[string]bool {
	out := map[string]bool{}
	enc := c.Type(rel, "Encoder")
	s, ok := structOf(enc)
	if !ok {
		return out
	}
	type cand struct{ name string }
	bad := map[string]bool{}
	for _, f := range c.P.Funcs(rel) {
		rc := f.Signature.Recv()
		if rc == nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Name() == "Reset" {
			continue
		}
		if p, ok := rc.Type().(*types.Pointer); !ok || absint.TypeKey(p.Elem()) != absint.TypeKey(enc) {
			continue
		}
		x := c.exec()
		var args []*Term
		for _, p := range f.Params {
			args = append(args, x.Param(p.Name(), p.Type()))
		}
		ps := c.Run(x, f, nil, args)
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Slice); !ok {
				continue
			}
			old := x.NewState().Peek(x.FieldAddr(args[0], enc, i))
			for _, sg := range c.Segs(ps) {
				for _, e := range sg.P.Events {
					if e.Kind == "store" && len(e.Args) > 1 && !mentions(e.Args[1], old) && !(e.Args[0].Op == "iaddr" && mentions(e.Args[0], old)) {
						continue
					}
					for _, a := range append(append([]*Term{}, e.Args...), e.Cond) {
						if a != nil && mentions(a, old) {
							bad[s.Field(i).Name()] = true
						}
					}
				}
				for _, v := range sg.P.Vals {
					if v != nil && mentions(v, old) {
						bad[s.Field(i).Name()] = true
					}
				}
			}
			out[s.Field(i).Name()] = true
		}
	}
	for n := range bad {
		delete(out, n)
	}
	return out
}

// mentions: the value depends on the old content or length of a list.
func mentions(t, old *Term) bool {
	if t == old {
		return true
	}
	if t.Op == "slice" && t.Args[0] == old {
		if hi, ok := numOf(t.Args[2]); ok && hi == 0 {
			return false
		}
	}
	if t.Op == "faddr" && t.Args[0] != old && !mentions(t.Args[0], old) {
		return false
	}
	for _, a := range t.Args {
		if mentions(a, old) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- the heap

// heapLoop analyses a repair function on its own.
func (r *rib) heapRun(fn *ssa.Function) (q *Term, ps []*Path) {
	c := r.c
	r.x = c.exec()
	q = r.x.Param("m", fn.Params[0].Type())
	return q, c.Run(r.x, fn, nil, []*Term{q})
}

func (r *rib) entry(st *State, q, i *Term) (src, pos *Term) {
	a := st.IndexAddr(q, i, r.tSM)
	return st.Peek(r.fa(a, r.tSM, r.smSrc)), st.Peek(r.fa(a, r.tSM, r.smIdx))
}

// swapped: the two indices whose entries a step exchanges.
func (r *rib) swapped(sg Seg, q *Term) (a, b *Term, ok bool) {
	var ix []*Term
	seen := map[*Term]bool{}
	for _, f := range []int{r.smSrc, r.smIdx} {
		for _, e := range storesField(sg, r.tSM, f) {
			ad := e.Args[0]
			for ad.Op == "faddr" {
				ad = ad.Args[0]
			}
			if ad.Op != "iaddr" || ad.Args[0] != q {
				return nil, nil, false
			}
			if !seen[ad.Args[1]] {
				seen[ad.Args[1]] = true
				ix = append(ix, ad.Args[1])
			}
		}
	}
	if len(ix) != 2 {
		return nil, nil, false
	}
	from := r.start(sg)
	s0, p0 := r.entry(from, q, ix[0])
	s1, p1 := r.entry(from, q, ix[1])
	n0, m0 := r.entry(sg.P.St, q, ix[0])
	n1, m1 := r.entry(sg.P.St, q, ix[1])
	return ix[0], ix[1], n0 == s1 && m0 == p1 && n1 == s0 && m1 == p0
}

func ruleC09(c *C) {
	r := c.rib()
	if !r.ok {
		return
	}
	rs := r.roots()
	if !r.ok {
		return
	}
	// users
	n := map[string]int{}
	for _, rt := range rs {
		if strings.HasSuffix(rt.name, ".Reset") {
			continue
		}
		idx := c.lvIndex(rt.paths)
		for _, sg := range c.Segs(rt.paths) {
			if !complete(sg) {
				continue
			}
			dirty := token.NoPos
			var appended, tails int
			for _, e := range sg.P.Events {
				switch {
				case e.Kind == "store" && !isAlloc(e.Args[0]) && r.queueField(e.Args[0]):
					ad := e.Args[0]
					for ad.Op == "faddr" {
						ad = ad.Args[0]
					}
					c.Ob(ad.Op == "iaddr" && ad.Args[1] == r.x.TB.Int(0), "head-only", rt.name, e.Pos, "%s changes a queue entry that is not the first", rt.name)
					dirty = e.Pos
				case e.Kind == "call" && e.Callee == "fixHead":
					n["head"]++
					c.Ob(dirty.IsValid(), "repair", rt.name+" head", e.Pos, "%s repairs an unchanged queue", rt.name)
					dirty = token.NoPos
				case e.Kind == "call" && e.Callee == "fixTail":
					n["tail"]++
					tails++
					c.Ob(!dirty.IsValid(), "repair", rt.name+" order", e.Pos, "%s inserts into a queue whose head is out of order", rt.name)
				case e.Kind == "append" && e.Res != nil && absint.TypeKey(elemOf2(e.Res.Typ)) == absint.TypeKey(r.tSM):
					appended++
				}
			}
			c.Ob(!dirty.IsValid(), "repair", rt.name, sg.P.Pos, "%s leaves a changed queue unrepaired", rt.name)
			for wn, w := range r.windows(rt) {
				q, ok := r.listDelta(sg, idx, r.wloc(w, r.wQ))
				c.Ob(ok && len(q) <= 1, "insert", rt.name+" "+wn, sg.P.Pos, "%s changes the %s queue other than by one new entry at its end", rt.name, wn)
			}
			c.Ob(appended == tails, "repair", rt.name+" tail", sg.P.Pos, "%s adds %d queue entries but restores the order %d times", rt.name, appended, tails)
		}
	}
	c.Ob(n["head"] > 0 && n["tail"] > 0, "instances", "uses", token.NoPos, "no uses of the queue repairs found")
	// sift-down
	q, ps := r.heapRun(r.fixHead)
	tb := r.x.TB
	steps := 0
	c.EachLoop(ps, func(outer []*Loop, l *Loop, _ *Path) {
		if !c.Ob(len(outer) == 0, "sift-down", "shape", l.Pos, "nested loops in the queue repair") {
			return
		}
		cur := r.cursor(l, func(e *Term) bool { return e == tb.Int(0) })
		if !c.Ob(cur != nil, "sift-down", "start", l.Pos, "the repair of the first entry does not start at the first entry") {
			return
		}
		cv := cur.LV
		lc := tb.AddK(tb.Scale(cv, bigTwo), 1)
		rc := tb.AddK(lc, 1)
		n := tb.Len(q)
		h := l.HeadSt
		_, kc := r.entry(h, q, cv)
		_, kl := r.entry(h, q, lc)
		_, kr := r.entry(h, q, rc)
		for _, b := range l.Backs {
			steps++
			sg := Seg{P: b, From: l.HeadSt, Loop: l}
			x, y, ok := r.swapped(sg, q)
			if !c.Ob(ok, "sift-down", "exchange", l.Pos, "a step of the repair of the first entry does not exchange exactly two whole entries") {
				continue
			}
			if y == cv {
				x, y = y, x
			}
			f := b.St.F
			c.Ob(x == cv && (y == lc || y == rc), "sift-down", "parent-child", l.Pos, "a step exchanges entries %s and %s, which are not an entry and its child", x, y)
			c.Ob(f.Entails(tb.Lt(y, n)), "sift-down", "bounds", l.Pos, "a step exchanges an entry with one beyond the queue")
			_, ky := r.entry(h, q, y)
			c.Ob(f.Entails(tb.Lt(ky, kc)), "sift-down", "smaller", l.Pos, "a step exchanges entries that may be in order")
			if y == lc {
				c.Ob(f.Entails(tb.Le(kl, kr)) || f.Entails(tb.Le(n, rc)), "sift-down", "smallest child", l.Pos, "the left child moves up although the right one may be smaller")
			} else {
				c.Ob(f.Entails(tb.Le(kr, kl)), "sift-down", "smallest child", l.Pos, "the right child moves up although the left one may be smaller")
			}
			c.Ob(l.Back(b, cur) == y, "sift-down", "descend", l.Pos, "the repair does not follow the entry it moves")
		}
		for _, p := range c.Exits(ps, l) {
			if p.Kind != "return" {
				continue
			}
			f := p.St.F
			leaf := f.Entails(tb.Le(n, lc))
			ord := f.Entails(tb.Le(kc, kl)) && (f.Entails(tb.Le(n, rc)) || f.Entails(tb.Le(kc, kr)))
			c.Ob(leaf || ord, "sift-down", "stop", l.Pos, "the repair of the first entry can stop while the entry is larger than a child")
		}
	})
	c.Ob(steps > 0, "instances", "sift-down", r.fixHead.Pos(), "no step of the repair of the first entry found")
	for _, p := range ps {
		c.Ob(p.Kind == "return", "sift-down", "returns", p.Pos, "the repair of the first entry can abort")
		for _, f := range []int{r.smSrc, r.smIdx} {
			c.Ob(len(storesField(Seg{P: p}, r.tSM, f)) == 0, "sift-down", "frame", p.Pos, "the repair of the first entry changes entries outside its steps")
		}
	}
	// sift-up
	q, ps = r.heapRun(r.fixTail)
	tb = r.x.TB
	steps = 0
	c.EachLoop(ps, func(outer []*Loop, l *Loop, _ *Path) {
		if !c.Ob(len(outer) == 0, "sift-up", "shape", l.Pos, "nested loops in the queue repair") {
			return
		}
		n := tb.Len(q)
		cur := r.cursor(l, func(e *Term) bool { return e == tb.AddK(n, -1) })
		if !c.Ob(cur != nil, "sift-up", "start", l.Pos, "the repair of the last entry does not start at the last entry") {
			return
		}
		cv := cur.LV
		h := l.HeadSt
		_, kc := r.entry(h, q, cv)
		for _, b := range l.Backs {
			steps++
			sg := Seg{P: b, From: l.HeadSt, Loop: l}
			x, y, ok := r.swapped(sg, q)
			if !c.Ob(ok, "sift-up", "exchange", l.Pos, "a step of the repair of the last entry does not exchange exactly two whole entries") {
				continue
			}
			if y == cv {
				x, y = y, x
			}
			f := b.St.F
			par := r.isParent(f, y, cv)
			c.Ob(x == cv && par, "sift-up", "parent-child", l.Pos, "a step exchanges entries %s and %s, which are not an entry and its parent", x, y)
			_, ky := r.entry(h, q, y)
			c.Ob(f.Entails(tb.Lt(kc, ky)), "sift-up", "smaller", l.Pos, "a step exchanges entries that may be in order")
			c.Ob(l.Back(b, cur) == y, "sift-up", "ascend", l.Pos, "the repair does not follow the entry it moves")
		}
		// the parent of the cursor, as the code computes it
		var pars []*Term
		for _, b := range l.Backs {
			if _, y, ok := r.swapped(Seg{P: b, From: l.HeadSt, Loop: l}, q); ok {
				if x, _, _ := r.swapped(Seg{P: b, From: l.HeadSt, Loop: l}, q); x != cv {
					y = x
				}
				pars = append(pars, y)
			}
		}
		for _, p := range c.Exits(ps, l) {
			if p.Kind != "return" {
				continue
			}
			f := p.St.F
			ok := f.Entails(tb.Le(cv, tb.Int(0)))
			for _, y := range pars {
				_, ky := r.entry(h, q, y)
				// an index equal to its own parent is the root (or the queue is empty)
				ok = ok || f.Entails(tb.Le(ky, kc)) || f.ProveEq(y, cv)
			}
			c.Ob(ok, "sift-up", "stop", l.Pos, "the repair of the last entry can stop while the entry is smaller than its parent")
		}
	})
	c.Ob(steps > 0, "instances", "sift-up", r.fixTail.Pos(), "no step of the repair of the last entry found")
	for _, p := range ps {
		c.Ob(p.Kind == "return", "sift-up", "returns", p.Pos, "the repair of the last entry can abort")
		for _, f := range []int{r.smSrc, r.smIdx} {
			c.Ob(len(storesField(Seg{P: p}, r.tSM, f)) == 0, "sift-up", "frame", p.Pos, "the repair of the last entry changes entries outside its steps")
		}
	}
}

func elemOf2(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	if e := elemOf(t); e != nil {
		return e
	}
	return types.Typ[types.Invalid]
}

func (r *rib) queueField(a *Term) bool {
	ss, _ := structOf(r.tSM)
	if a.Op == "faddr" {
		for i := 0; i < ss.NumFields(); i++ {
			if a.Aux == absint.FieldKey(ss.Field(i)) {
				return true
			}
		}
	}
	t := pointee(a)
	return t != nil && absint.TypeKey(t) == absint.TypeKey(r.tSM)
}

// cursor: the loop variable that starts at the given place.
func (r *rib) cursor(l *Loop, entry func(*Term) bool) *absint.LVInfo {
	for _, v := range l.Vars {
		if v.LV.Typ != nil && isBasic(types.Int)(v.LV.Typ) && entry(v.Entry) && (v.Phi != nil || isAlloc(v.Loc)) {
			return v
		}
	}
	return nil
}

// isParent: y is (x-1)/2 for x >= 1, by its form.
func (r *rib) isParent(f *absint.Facts, y, x *Term) bool {
	tb := r.x.TB
	if y.Op == "quo" || y.Op == "shr" {
		d, ok := numOf(y.Args[1])
		if ok && y.Args[0] == tb.AddK(x, -1) && (y.Op == "quo" && d == 2 || y.Op == "shr" && d == 1) {
			return true
		}
	}
	return false
}

var bigTwo = big.NewRat(2, 1)
