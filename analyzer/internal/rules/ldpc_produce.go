package rules

import (
	"go/types"
	"math"
	"strings"

	"rsrcheck/internal/absint"
)

// ---------------------------------------------------------------- C19

// reals bounds a term, taking floating-point values for the real numbers they
// stand for.
type reals struct {
	tb  *absint.Table
	pre map[*Term]iv
}

func (e *reals) eval(t *Term) iv {
	if v, ok := e.pre[t]; ok {
		return v
	}
	all := iv{lo: math.Inf(-1), hi: math.Inf(1)}
	if t.Typ != nil && strings.HasPrefix(t.Typ.String(), "uint") {
		all.lo = 0
	}
	times := func(x, y float64) float64 {
		if x == 0 || y == 0 {
			return 0
		}
		return x * y
	}
	switch t.Op {
	case "num":
		x, _ := t.Num.Float64()
		return iv{lo: x, hi: x}
	case "sym":
		if strings.HasPrefix(t.Aux, "rand.Float64()") || strings.HasPrefix(t.Aux, "(*rand.Rand).Float64()") {
			return iv{lo: 0, hi: 1}
		}
		if strings.HasPrefix(t.Aux, "rand.ExpFloat64()") || strings.HasPrefix(t.Aux, "(*rand.Rand).ExpFloat64()") {
			return iv{lo: 0, hi: math.Inf(1)}
		}
	case "lin":
		l := e.tb.LinOf(t)
		k, _ := l.K.Float64()
		r := iv{lo: k, hi: k}
		for i, v := range l.Vars {
			x := e.eval(v)
			c, _ := l.Coef[i].Float64()
			a, b := times(x.lo, c), times(x.hi, c)
			r.lo += math.Min(a, b)
			r.hi += math.Max(a, b)
		}
		return r
	case "mul":
		r := e.eval(t.Args[0])
		for _, a := range t.Args[1:] {
			r = corners(r, e.eval(a), times)
		}
		return r
	case "fdiv":
		a, b := e.eval(t.Args[0]), e.eval(t.Args[1])
		switch {
		case a.hi <= 0 && b.hi <= 0 || a.lo >= 0 && b.lo >= 0:
			return iv{lo: 0, hi: math.Inf(1)}
		case a.hi <= 0 && b.lo >= 0 || a.lo >= 0 && b.hi <= 0:
			return iv{lo: math.Inf(-1), hi: 0}
		}
	case "conv":
		x := e.eval(t.Args[0])
		if _, _, isInt := typeRange(t.Typ); isInt {
			return iv{lo: math.Trunc(x.lo), hi: math.Trunc(x.hi)}
		}
		return x
	case "len":
		return iv{lo: 0, hi: math.Inf(1)}
	case "call":
		x := all
		if len(t.Args) > 0 {
			x = e.eval(t.Args[0])
		}
		switch t.Aux {
		case "math.Log":
			return iv{lo: math.Log(math.Max(x.lo, 0)), hi: math.Log(math.Max(x.hi, 0))}
		case "math.Log1p":
			return iv{lo: math.Log1p(math.Max(x.lo, -1)), hi: math.Log1p(math.Max(x.hi, -1))}
		case "math.Exp":
			return iv{lo: math.Exp(x.lo), hi: math.Exp(x.hi)}
		case "math.Expm1":
			return iv{lo: math.Expm1(x.lo), hi: math.Expm1(x.hi)}
		case "math.Floor":
			return iv{lo: math.Floor(x.lo), hi: math.Floor(x.hi)}
		case "math.Ceil":
			return iv{lo: math.Ceil(x.lo), hi: math.Ceil(x.hi)}
		case "math.Trunc":
			return iv{lo: math.Trunc(x.lo), hi: math.Trunc(x.hi)}
		case "math.Abs":
			return iv{lo: math.Max(0, math.Max(x.lo, -x.hi)), hi: math.Max(math.Abs(x.lo), math.Abs(x.hi))}
		case "math.Pow":
			y := e.eval(t.Args[1])
			if x.lo >= 0 && x.hi <= 1 && y.lo >= 0 {
				return iv{lo: 0, hi: 1}
			}
			if x.lo >= 0 {
				return iv{lo: 0, hi: math.Inf(1)}
			}
		}
	}
	return all
}

// unit: the loop's floating-point variables that stay within [0,1].
func (e *reals) unit(lp *Loop) {
	cand := map[*Term]*absint.LVInfo{}
	for _, v := range lp.Vars {
		if isFloatT(v.LV.Typ) {
			x := e.eval(v.Entry)
			if x.lo >= 0 && x.hi <= 1 {
				cand[v.LV] = v
			}
		}
	}
	for {
		for lv := range cand {
			e.pre[lv] = iv{lo: 0, hi: 1}
		}
		var bad *Term
		for lv, v := range cand {
			for _, b := range lp.Backs {
				if x := e.eval(lp.Back(b, v)); x.lo < 0 || x.hi > 1 {
					bad = lv
				}
			}
		}
		if bad == nil {
			return
		}
		delete(cand, bad)
		delete(e.pre, bad)
	}
}

func ruleC19(l *ltp) {
	c, tb := l.c, l.x.TB
	rt := l.run("Encoder", "ProduceCodeword", nil)
	if rt == nil {
		return
	}
	name, e := rt.name, rt.args[0]
	winLoc := l.fa(e, l.tEnc, l.eWin)
	win := rt.st0.Peek(winLoc)
	L := tb.Len(win)
	u32 := types.Typ[types.Uint32]
	nEmpty, nFull := 0, 0
	for _, p := range rt.ps {
		f := p.St.F
		deg := l.degree(p)
		if !c.Ob(deg != nil, "degree", name, p.Pos, "a codeword is not produced from exactly one draw of the degree distribution") {
			continue
		}
		var N *Term
		switch {
		case f.Entails(tb.Le(deg, L)):
			N = deg
		case f.Entails(tb.Le(L, deg)):
			N = L
		}
		if !c.Ob(p.Kind == "return" && len(p.Vals) == 1 && p.Vals[0].Op == "alloc", "returns", name, p.Pos, "producing a codeword can end without a codeword of its own") {
			continue
		}
		if !c.Ob(N != nil, "members-number", name, p.Pos, "the number of members does not depend on which of degree %s and window size is smaller", deg) {
			continue
		}
		// the window stays as it is
		c.Ob(p.St.Peek(winLoc) == win, "window-kept", name, p.Pos, "producing a codeword replaces the window")
		kept := len(touched(p, win)) == 0
		for _, ev := range evs(p, "loop", "") {
			kept = kept && !l.touches(ev.Loop, win)
		}
		c.Ob(kept, "window-kept", name, p.Pos, "producing a codeword changes entries of the window")

		cw := p.Vals[0]
		symLoc, memLoc := l.fa(cw, l.tCW, l.cwSym), l.fa(cw, l.tCW, l.cwMem)
		sym, mem := p.St.Peek(symLoc), p.St.Peek(memLoc)
		if f.ProveEq(N, tb.Int(0)) {
			nEmpty++
			c.Ob(sym.Op == "zero" && f.Entails(tb.Le(tb.Len(mem), tb.Int(0))), "empty", name, p.Pos, "a codeword of degree zero has data or members")
			continue
		}
		nFull++
		// the loop that adds up and lists the picks
		var T *Loop
		var symV *absint.LVInfo
		for _, x := range rt.idx[sym] {
			if onPath(p, x.l) {
				T, symV = x.l, x.v
			}
		}
		if !c.Ob(T != nil, "sum", name, p.Pos, "the codeword's data is %s, not a sum accumulated over the picks", sym) {
			continue
		}
		c.Ob(symV.Entry.Op == "zero", "sum", name, T.Pos, "the sum starts from %s, not from the empty value", symV.Entry)
		memLV := false
		for _, x := range rt.idx[mem] {
			if x.l == T {
				memLV = true
				c.Ob(f.ProveEq(tb.Len(x.v.Entry), tb.Int(0)), "members", name, T.Pos, "the list of members does not start empty")
			}
		}
		if !memLV {
			c.Ob(f.ProveEq(tb.Len(mem), N), "members", name, T.Pos, "the codeword lists %s members", tb.Len(mem))
		}
		others := false
		for _, ev := range evs(p, "loop", "") {
			others = others || ev.Loop != T && l.touches(ev.Loop, mem)
		}
		c.Ob(!others && len(touched(p, mem)) == 0, "members", name, T.Pos, "the members are changed outside the loop that adds up the picks")
		// the list of picks it reads
		sel, selT, idxs := l.picks(p, T, symV)
		if !c.Ob(sel != nil, "sum", name, T.Pos, "what is added to the codeword's data is not the transaction of one pick after the other") {
			continue
		}
		n, okLen := l.listLen(p, rt.idx, sel)
		idx, cov := []*Term(nil), false
		if okLen && f.ProveEq(n, N) {
			if idx, cov = l.counter(T, []*Path{p}, N); !cov {
				idx, cov = l.counter(T, []*Path{p}, tb.Len(sel))
			}
		}
		if !c.Ob(cov, "members-number", name, T.Pos, "the codeword does not add up exactly min(degree, window size) picks") {
			continue
		}
		for _, b := range T.Backs {
			i := idx[0]
			at := l.at(T.HeadSt, sel, i, selT)
			ok := false
			for _, j := range idxs {
				ok = ok || b.St.F.ProveEq(i, j)
			}
			c.Ob(ok, "sum", name, b.Pos, "the picks are not added up one after the other")
			var xs []*Event
			for _, ev := range b.Events {
				if ev.Kind == "xor" {
					xs = append(xs, ev)
				}
			}
			want := l.fieldAt(T.HeadSt, at)
			c.Ob(len(xs) == 1 && T.Back(b, symV) == tb.XorT(symV.LV, want), "sum", name, b.Pos, "the sum becomes %s where the data of one pick is to be added once", T.Back(b, symV))
			wantK := T.HeadSt.Peek(l.fa(at, l.tST, l.stKey))
			var m *Term
			if memLV {
				v := T.Var(mem)
				if w := T.Back(b, v); w.Op == "append" && len(w.Args) == 2 && w.Args[0] == mem {
					m = w.Args[1]
				}
			} else if t := touched(b, mem); len(t) == 1 && b.St.F.ProveEq(t[0], i) {
				m = b.St.Peek(l.at(b.St, mem, t[0], u32))
			}
			c.Ob(m == wantK, "members", name, b.Pos, "the member listed is %s, not the salted hash of the pick added", m)
			for _, j := range touched(b, sel) {
				c.Ob(b.St.F.ProveEq(i, j), "picks", name, b.Pos, "adding a pick changes another one")
			}
		}
		l.reservoir(rt, p, sel, selT, win, N, T)
	}
	c.Ob(nEmpty > 0 && nFull > 0, "instances", name, rt.fn.Pos(), "empty and other codewords are not distinguished")
}

// picks: the list whose elements' transactions loop T adds up.
func (l *ltp) picks(p *Path, T *Loop, symV *absint.LVInfo) (sel *Term, elem types.Type, idx []*Term) {
	for _, b := range T.Backs {
		for _, x := range absint.XorArgs(T.Back(b, symV), "xorT") {
			for _, s := range subterms(x) {
				if s.Op == "faddr" && s.Args[0].Op == "iaddr" && (fname(s) == fname(l.fa(s.Args[0], l.tST, l.stTx))) {
					a := s.Args[0]
					if sel != nil && sel != a.Args[0] {
						return nil, nil, nil
					}
					sel, elem = a.Args[0], l.tST
					idx = append(idx, a.Args[1])
				}
			}
		}
	}
	return
}

// listLen: the length of a list filled element by element.
func (l *ltp) listLen(p *Path, idx map[*Term][]lvRec, sel *Term) (*Term, bool) {
	tb := l.x.TB
	n := tb.Int(0)
	for k := 0; k < 50; k++ {
		switch sel.Op {
		case "append":
			n = tb.AddK(n, int64(len(sel.Args)-1))
			sel = sel.Args[0]
			continue
		case "appendsl":
			n = tb.Add(n, tb.Len(sel.Args[1]))
			sel = sel.Args[0]
			continue
		case "nil":
			return n, true
		}
		moved := false
		for _, x := range idx[sel] {
			if !onPath(p, x.l) {
				continue
			}
			// appended to once per round: as many rounds as the counter says
			if c := l.rounds(p, x.l, sel); c != nil {
				n = tb.Add(n, c)
				sel = x.v.Entry
				moved = true
				break
			}
		}
		if !moved {
			return tb.Add(n, tb.Len(sel)), true
		}
	}
	return nil, false
}

// rounds: the number of rounds of loop lp, each of which appends one element to list.
func (l *ltp) rounds(p *Path, lp *Loop, list *Term) *Term {
	tb := l.x.TB
	v := lp.Var(list)
	if v == nil {
		return nil
	}
	for _, b := range lp.Backs {
		if w := lp.Back(b, v); w.Op != "append" || len(w.Args) != 2 || w.Args[0] != list {
			return nil
		}
	}
	for _, k := range lp.Vars {
		if k.LV.Typ == nil || !isBasicInt(k.LV.Typ) {
			continue
		}
		// the counter's value after the loop, when it counts rounds from its entry
		ok := len(lp.Backs) > 0
		for _, b := range lp.Backs {
			ok = ok && tb.Sub(lp.Back(b, k), k.LV) == tb.Int(1)
		}
		if ok {
			return tb.Sub(k.LV, k.Entry)
		}
	}
	return nil
}

// reservoir: the picks are the first N window entries, some replaced by later
// ones, each at most once and each later one possibly.
func (l *ltp) reservoir(rt *ltRoot, p *Path, sel *Term, selT types.Type, win, N *Term, T *Loop) {
	c, tb, name := l.c, l.x.TB, rt.name
	L := tb.Len(win)
	// the first N
	filled := false
	var fill *Loop
	switch {
	case sel.Op == "appendsl" && p.St.F.Entails(tb.Le(tb.Len(sel.Args[0]), tb.Int(0))) && l.prefix(p, sel.Args[1], win, N):
		filled = true
	default:
		for _, x := range rt.idx[sel] {
			if onPath(p, x.l) && p.St.F.Entails(tb.Le(tb.Len(x.v.Entry), tb.Int(0))) {
				fill = x.l
				is, cov := l.counter(x.l, []*Path{p}, N)
				ok := cov
				for _, b := range x.l.Backs {
					w := x.l.Back(b, x.v)
					good := false
					for _, i := range is {
						good = good || w == tb.Append(sel, x.l.HeadSt.Load(l.at(x.l.HeadSt, win, i, l.tST), l.tST))
					}
					ok = ok && good
				}
				filled = ok
			}
		}
	}
	if !filled && fill == nil {
		// by position into a list of the right length
		for _, ev := range evs(p, "loop", "") {
			if ev.Loop == T || len(ev.Loop.Backs) == 0 || !l.touches(ev.Loop, sel) {
				continue
			}
			is, cov := l.counter(ev.Loop, []*Path{p}, N)
			if !cov {
				break
			}
			ok := true
			for _, b := range ev.Loop.Backs {
				t := touched(b, sel)
				good := len(t) > 0
				for _, j := range t {
					good = good && b.St.F.ProveEq(j, is[0])
				}
				ok = ok && good && b.St.Load(l.at(b.St, sel, t[0], l.tST), l.tST) == ev.Loop.HeadSt.Load(l.at(ev.Loop.HeadSt, win, is[0], l.tST), l.tST)
			}
			filled, fill = ok, ev.Loop
			break
		}
		if fill == nil {
			for _, ev := range evs(p, "copy", "") {
				if ev.Args[0] == sel && l.prefix(p, ev.Args[1], win, N) && p.St.F.ProveEq(tb.Len(sel), N) {
					filled = true
				}
			}
		}
	}
	if !c.Ob(filled, "picks", name+" first", p.Pos, "the picks do not start out as the first entries of the window") {
		return
	}
	c.Ob(len(touched(p, sel)) == 0, "picks", name, p.Pos, "a pick is changed outside the sampling loop")
	// replacements
	inst := false
	for _, ev := range evs(p, "loop", "") {
		R := ev.Loop
		if R == T || R == fill || len(R.Backs) == 0 || !l.touches(R, sel) {
			continue
		}
		if !c.Ob(!inst, "picks", name, R.Pos, "picks are replaced in more than one loop") {
			return
		}
		inst = true
		ev := &reals{tb: tb, pre: map[*Term]iv{}}
		ev.unit(R)
		// the position taken in the round
		good := false
		why := "the replacing window position is not a new one every time"
		for _, v := range R.Vars {
			if v.LV.Typ == nil || !isBasicInt(v.LV.Typ) {
				continue
			}
			ok := true
			least := math.Inf(1) // how far the first position lies above the entry value
			for _, b := range R.Backs {
				ts := touched(b, sel)
				nv := R.Back(b, v)
				if len(ts) == 0 {
					// a round without replacement: on past the end only
					ok = ok && (nv == v.LV || ev.eval(tb.Sub(nv, v.LV)).lo >= 0)
					past := b.St.F.Entails(tb.Le(L, nv))
					if !past {
						ok, why = false, "a window position is passed over although it may be picked"
					}
					continue
				}
				var m *Term
				for _, j := range ts {
					m2 := l.position(R, b, sel, j, win)
					if m2 == nil || m != nil && m2 != m || ts[0] != j {
						m = nil
						break
					}
					m = m2
				}
				if m == nil {
					ok, why = false, "a pick is replaced by something else than one entry of the window"
					continue
				}
				if !b.St.F.Entails(tb.Lt(m, L)) {
					ok, why = false, "a replacing position may lie past the window's end"
				}
				// the slot: any of the N
				slot := false
				for _, d := range b.Events {
					slot = slot || isIntn(d) && d.Res == ts[0] && b.St.F.ProveEq(d.Args[len(d.Args)-1], N)
				}
				if !slot {
					ok, why = false, "the pick to replace is not drawn from all picks"
				}
				up := ev.eval(tb.Sub(m, v.LV)) // distance from the previous position's mark
				rest := tb.Sub(nv, m)          // new mark relative to the position taken
				if up.lo == math.Inf(-1) {
					ok = false
					continue
				}
				k, isK := numOf(rest)
				if !isK || float64(k)+up.lo != 1 {
					ok = false
					if isK && float64(k)+up.lo > 1 {
						why = "a window position can never be picked because it is skipped over"
					}
					continue
				}
				if up.lo < least {
					least = up.lo
				}
			}
			if !ok || math.IsInf(least, 1) {
				continue
			}
			first := tb.AddK(v.Entry, int64(least))
			if !p.St.F.ProveEq(first, N) {
				why = "the first position that can replace a pick is " + first.String() + ", not the one after the first picks"
				continue
			}
			good = true
		}
		c.Ob(good, "replace", name, R.Pos, "%s", why)
	}
	c.Ob(inst || p.St.F.Entails(tb.Le(L, N)), "replace", name, p.Pos, "only the first entries of the window are ever picked")
}

// prefix: list is the window's first n entries.
func (l *ltp) prefix(p *Path, list, win, n *Term) bool {
	tb := l.x.TB
	if list == win {
		return p.St.F.ProveEq(tb.Len(win), n)
	}
	return list.Op == "slice" && list.Args[0] == win && list.Args[1] == tb.Int(0) && p.St.F.ProveEq(list.Args[2], n)
}

// position: element j of sel has become window entry m.
func (l *ltp) position(R *Loop, b *Path, sel, j, win *Term) *Term {
	a := l.at(b.St, sel, j, l.tST)
	key := b.St.Peek(l.fa(a, l.tST, l.stKey))
	var m *Term
	for _, s := range subterms(key) {
		if s.Op == "iaddr" && s.Args[0] == win {
			m = s.Args[1]
			break
		}
	}
	if m == nil || b.St.Load(a, l.tST) != R.HeadSt.Load(l.at(R.HeadSt, win, m, l.tST), l.tST) {
		return nil
	}
	return m
}
