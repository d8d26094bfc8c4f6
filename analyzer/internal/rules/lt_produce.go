package rules

import (
	"go/types"
	"strings"

	"rsrcheck/internal/absint"
)

// ---------------------------------------------------------------- C11

func isIntn(e *Event) bool {
	return e.Kind == "call" && (strings.HasSuffix(e.Callee, "rand.Intn") || strings.HasPrefix(e.Callee, "(*rand.Rand).Int") && strings.HasSuffix(e.Callee, "n") ||
		strings.HasPrefix(e.Callee, "rand.Int") && strings.HasSuffix(e.Callee, "n"))
}

// leaves lists the addresses of the scalar parts of the value of type t at a.
func (l *ltp) leaves(a *Term, t types.Type) []*Term {
	if _, tp := t.(*types.TypeParam); !tp {
		if s, ok := t.Underlying().(*types.Struct); ok {
			var out []*Term
			for i := 0; i < s.NumFields(); i++ {
				out = append(out, l.leaves(l.x.FieldAddr(a, t, i), s.Field(i).Type())...)
			}
			return out
		}
	}
	return []*Term{a}
}

// touched: the indices of list elements stored to directly on p.
func touched(p *Path, list *Term) []*Term {
	var out []*Term
	for _, e := range evs(p, "store", "") {
		a := e.Args[0]
		for a.Op == "faddr" {
			a = a.Args[0]
		}
		if a.Op == "iaddr" && a.Args[0] == list {
			out = append(out, a.Args[1])
		}
	}
	return out
}

// exchanged: on b, list elements i and r have changed places and no other element is touched.
func (l *ltp) exchanged(b *Path, head *State, list, i, r *Term, elem types.Type) bool {
	f := b.St.F
	for _, x := range touched(b, list) {
		if !f.ProveEq(x, i) && !f.ProveEq(x, r) {
			return false
		}
	}
	for _, e := range evs(b, "loop", "") {
		if len(e.Loop.Backs) > 0 && l.touches(e.Loop, list) {
			return false
		}
	}
	ai, ar := l.leaves(l.at(b.St, list, i, elem), elem), l.leaves(l.at(b.St, list, r, elem), elem)
	hi, hr := l.leaves(l.at(head, list, i, elem), elem), l.leaves(l.at(head, list, r, elem), elem)
	same := f.ProveEq(i, r)
	for k := range ai {
		if same && len(touched(b, list)) == 0 {
			continue
		}
		if b.St.Peek(ai[k]) != head.Peek(hr[k]) || b.St.Peek(ar[k]) != head.Peek(hi[k]) {
			return false
		}
	}
	return true
}

func (l *ltp) touches(lp *Loop, list *Term) bool {
	for _, b := range lp.Backs {
		if len(touched(b, list)) > 0 {
			return true
		}
		for _, e := range evs(b, "loop", "") {
			if l.touches(e.Loop, list) {
				return true
			}
		}
	}
	return false
}

// counter: the loop's index variable, which runs over 0..n-1 on every iteration path.
func (l *ltp) counter(lp *Loop, exits []*Path, n *Term) (idx []*Term, ok bool) {
	tb := l.x.TB
	try := func(cur *Term) {
		// a range loop's variable lags by one
		for _, off := range []int64{0, 1, -1} {
			i := tb.AddK(cur, off)
			good := len(lp.Backs) > 0
			for _, b := range lp.Backs {
				good = good && l.c.covers(lp, b, exits, i, n)
			}
			if good {
				idx = append(idx, i)
			}
		}
	}
	for _, v := range lp.Vars {
		if v.LV.Typ != nil && isBasicInt(v.LV.Typ) {
			try(v.LV)
		}
	}
	if len(idx) == 0 {
		// the length of a list may count
		for _, v := range lp.Vars {
			if v.LV.Typ != nil && isSliceT(v.LV.Typ) {
				try(tb.Len(v.LV))
			}
		}
	}
	return idx, len(idx) > 0
}

func isBasicInt(t types.Type) bool {
	if _, tp := t.(*types.TypeParam); tp {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func ruleC11(l *ltp) {
	c, tb := l.c, l.x.TB
	rt := l.run("Encoder", "ProduceCodeword", nil)
	if rt == nil {
		return
	}
	name, e := rt.name, rt.args[0]
	winLoc := l.fa(e, l.tEnc, l.eWin)
	win := rt.st0.Peek(winLoc)
	L := tb.Len(win)
	nRet := 0
	for _, p := range rt.ps {
		f := p.St.F
		deg := l.degree(p)
		if !c.Ob(deg != nil, "degree", name, p.Pos, "a codeword is not produced from exactly one draw of the degree distribution") {
			continue
		}
		// the wanted number of members
		var N *Term
		switch {
		case f.Entails(tb.Le(deg, L)):
			N = deg
		case f.Entails(tb.Le(L, deg)):
			N = L
		}
		zero := f.Entails(tb.Le(deg, tb.Int(0))) || f.Entails(tb.Le(L, tb.Int(0)))
		if p.Kind != "return" {
			c.Ob(p.Kind == "panic" && zero, "panic", name, p.Pos, "producing a codeword fails although the degree and the window are not known to be empty")
			continue
		}
		nRet++
		if !c.Ob(N != nil, "members-number", name, p.Pos, "the number of members does not depend on which of degree %s and window size is smaller", deg) {
			continue
		}
		if !c.Ob(len(p.Vals) == 1 && (f.Entails(tb.Le(tb.Int(1), N)) || f.ProveNe(N, tb.Int(0))), "empty", name, p.Pos, "a codeword without members can be produced") {
			continue
		}
		sym, mem := tb.Field(p.Vals[0], l.tCW, l.cwSym), tb.Field(p.Vals[0], l.tCW, l.cwMem)
		c.Ob(p.St.Peek(winLoc) == win, "window-kept", name, p.Pos, "producing a codeword replaces the window")
		c.Ob(len(touched(p, win)) == 0, "window-kept", name, p.Pos, "producing a codeword changes the window outside the sampling and reverting loops")
		// the sampling loop
		var S *Loop
		var symV *absint.LVInfo
		for _, x := range rt.idx[sym] {
			if onPath(p, x.l) {
				S, symV = x.l, x.v
			}
		}
		if !c.Ob(S != nil, "sum", name, p.Pos, "the codeword's data is %s, not a sum accumulated over the members", sym) {
			continue
		}
		c.Ob(symV.Entry.Op == "zero", "sum", name, S.Pos, "the sum starts from %s, not from the empty value", symV.Entry)
		idxs, ok := l.counter(S, []*Path{p}, N)
		if !c.Ob(ok, "members-number", name, S.Pos, "the sampling loop does not run over exactly min(degree, window size) positions") {
			continue
		}
		// members: filled by position or by appending
		memLV := false
		for _, x := range rt.idx[mem] {
			if x.l == S {
				memLV = true
				c.Ob(f.ProveEq(tb.Len(x.v.Entry), tb.Int(0)), "members", name, S.Pos, "the list of members does not start empty")
			}
		}
		split := map[*Loop]bool{} // loops listing the members after the sampling
		if !memLV {
			c.Ob(f.ProveEq(tb.Len(mem), N), "members", name, S.Pos, "the codeword lists %s members", tb.Len(mem))
			for _, ev := range evs(p, "loop", "") {
				if ev.Loop != S && len(ev.Loop.Backs) > 0 && l.touches(ev.Loop, mem) {
					if l.lists(p, S, ev.Loop, win, mem, N) {
						split[ev.Loop] = true
						continue
					}
					c.Fail("members", name, ev.Loop.Pos, "the members are changed after sampling")
				}
			}
			c.Ob(len(touched(p, mem)) == 0, "members", name, p.Pos, "the members are changed outside the sampling loop")
		}
		// where the picks are noted
		type note struct {
			list *Term
			lv   *absint.LVInfo
		}
		var hist []note
		first := true
		for _, b := range S.Backs {
			i := idxs[0]
			var draws []*Event
			for _, ev := range b.Events {
				if isIntn(ev) {
					draws = append(draws, ev)
				}
			}
			if !c.Ob(len(draws) == 1, "pick", name, b.Pos, "%d random draws are made for one member", len(draws)) {
				continue
			}
			res := draws[0].Res
			n := draws[0].Args[len(draws[0].Args)-1]
			// position: every one of those not picked yet
			c.Ob(n == tb.Sub(L, i), "pick", name, draws[0].Pos, "the draw ranges over %s positions where %s are not picked yet", n, tb.Sub(L, i))
			r := tb.Add(res, i)
			head := S.HeadSt
			c.Ob(l.exchanged(b, head, win, i, r, l.tST), "pick", name, b.Pos, "the picked entry is not exchanged with the one at position %s", i)
			// sum and member are the picked entry's
			pick := l.at(head, win, r, l.tST)
			if f := b.St.F; f.ProveEq(r, i) && len(touched(b, win)) == 0 {
				pick = l.at(head, win, i, l.tST)
			}
			wantD := l.fieldAt(head, pick)
			wantK := head.Peek(l.fa(pick, l.tST, l.stKey))
			altD, altK := wantD, wantK
			if b.St.F.ProveEq(r, i) {
				o := l.at(head, win, i, l.tST)
				altD, altK = l.fieldAt(head, o), head.Peek(l.fa(o, l.tST, l.stKey))
			}
			var xs []*Event
			for _, ev := range b.Events {
				if ev.Kind == "xor" {
					xs = append(xs, ev)
				}
			}
			sum := S.Back(b, symV)
			c.Ob(len(xs) == 1 && (sum == tb.XorT(symV.LV, wantD) || sum == tb.XorT(symV.LV, altD)), "sum", name, b.Pos, "the sum becomes %s where the data of the picked entry is to be added once", sum)
			var m *Term
			if memLV {
				v := S.Var(mem)
				if w := S.Back(b, v); w.Op == "append" && len(w.Args) == 2 && w.Args[0] == mem {
					m = w.Args[1]
				}
			} else {
				t := touched(b, mem)
				if len(t) == 1 && b.St.F.ProveEq(t[0], i) {
					m = b.St.Peek(l.at(b.St, mem, t[0], types.Typ[types.Uint32]))
				}
			}
			c.Ob(len(split) > 0 && len(touched(b, mem)) == 0 || m != nil && (m == wantK || m == altK), "members", name, b.Pos, "the member listed is %s, not the picked entry's salted hash", m)
			// notes of r
			var here []note
			for _, v := range S.Vars {
				if w := S.Back(b, v); w.Op == "append" && len(w.Args) == 2 && w.Args[0] == v.LV && w.Args[1] == r && p.St.F.ProveEq(tb.Len(v.Entry), tb.Int(0)) {
					here = append(here, note{v.LV, v})
				}
			}
			for _, ev := range evs(b, "store", "") {
				if a := ev.Args[0]; a.Op == "iaddr" && a.Args[0] != win && ev.Args[1] == r && b.St.F.ProveEq(a.Args[1], i) {
					here = append(here, note{a.Args[0], nil})
				}
			}
			if first {
				hist = here
				first = false
			} else {
				var keep []note
				for _, h := range hist {
					for _, g := range here {
						if g.list == h.list {
							keep = append(keep, h)
							break
						}
					}
				}
				hist = keep
			}
		}
		// the reverting loop
		reverted := false
		after := false
		bad := false
		for _, ev := range evs(p, "loop", "") {
			R := ev.Loop
			if R == S {
				after = true
				continue
			}
			if len(R.Backs) == 0 || !l.touches(R, win) {
				continue
			}
			okR := after && !reverted
			js, cov := l.counter(R, []*Path{p}, N)
			okR = okR && cov
			for _, b := range R.Backs {
				if !okR {
					break
				}
				good := false
				for _, j := range js {
					var lv *absint.LVInfo
					for _, v := range tb.LinOf(j).Vars {
						if x := R.Var(v); x != nil {
							lv = x
						}
					}
					if lv == nil || tb.Sub(R.Back(b, lv), lv.LV) != tb.Int(-1) {
						continue
					}
					for _, h := range hist {
						partner := R.HeadSt.Peek(l.at(R.HeadSt, h.list, j, types.Typ[types.Int]))
						good = good || l.exchanged(b, R.HeadSt, win, j, partner, l.tST)
					}
				}
				okR = good
			}
			if okR {
				reverted = true
			} else {
				bad = true
				c.Fail("revert", name, R.Pos, "a loop changes the window otherwise than by undoing the exchanges of the sampling in reverse order")
			}
		}
		if !bad {
			c.Ob(reverted, "revert", name, p.Pos, "the exchanges made while sampling are not undone")
		}
	}
	c.Ob(nRet > 0, "instances", name, rt.fn.Pos(), "no codeword is ever produced")
}

// lists: loop M, run after the sampling and before anything else changes the
// window, lists the salted hash of window position i as member i for all i < n.
func (l *ltp) lists(p *Path, S, M *Loop, win, mem, n *Term) bool {
	after := false
	for _, ev := range evs(p, "loop", "") {
		if ev.Loop == M {
			break
		}
		if after && len(ev.Loop.Backs) > 0 && l.touches(ev.Loop, win) {
			return false
		}
		after = after || ev.Loop == S
	}
	idxs, ok := l.counter(M, []*Path{p}, n)
	if !after || !ok || l.touches(M, win) {
		return false
	}
	for _, b := range M.Backs {
		t := touched(b, mem)
		if len(t) != 1 || !b.St.F.ProveEq(t[0], idxs[0]) {
			return false
		}
		if b.St.Peek(l.at(b.St, mem, t[0], types.Typ[types.Uint32])) != M.HeadSt.Peek(l.fa(l.at(M.HeadSt, win, idxs[0], l.tST), l.tST, l.stKey)) {
			return false
		}
	}
	return true
}

// fieldAt: the data of the transaction of the window entry at address a.
func (l *ltp) fieldAt(st *State, a *Term) *Term {
	d, _ := l.txParts(st, l.txAt(st, a, l.tST, l.stTx))
	return d
}

// degree: the only draw of the degree distribution on the path.
func (l *ltp) degree(p *Path) *Term {
	var deg *Term
	n := 0
	for _, sg := range l.c.Segs([]*Path{p}) {
		for _, e := range sg.P.Events {
			if e.Kind == "call" && strings.HasSuffix(e.Callee, "DegreeDistribution).Uint64") {
				n++
				if sg.Loop == nil {
					deg = e.Res
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return deg
}
