package rules

import (
	"go/token"
	"go/types"

	"rsrcheck/internal/absint"
)

// peeler decides C12, C13 and C14 on one package; each obligation belongs to
// one of the three.
type peeler struct {
	*ltp
	rt   *ltRoot
	d    *Term // the decoder
	recv types.Type
	inst map[string]int
}

func (l *peeler) ob(prop string, ok bool, rule, construct string, pos token.Pos, f string, a ...any) bool {
	if l.c.ID != prop {
		return ok
	}
	return l.c.Ob(ok, rule, construct, pos, f, a...)
}

func (l *peeler) rt0(name string) *ltRoot {
	fn := l.c.Fn(l.rel, "Decoder", name)
	if fn == nil {
		return nil
	}
	l.rt = l.runFn(fn, nil)
	l.d = l.rt.args[0]
	return l.rt
}

func (l *peeler) pc(cw *Term, i int) *Term { return l.fa(cw, l.tPC, i) }
func (l *peeler) blk(r *Term) *Term        { return l.fa(r, l.tPT, l.ptBlk) }

func (l *peeler) empty(st *State, s *Term) bool {
	return s.Op == "nil" || st.F.Entails(l.x.TB.Le(l.x.TB.Len(s), l.x.TB.Int(0)))
}

// xors: additions on p itself (not in its loops).
func xors(p *Path) []*Event { return evs(p, "xor", "") }

// dataOf: the data of a transaction as XOR sees it.
func (l *peeler) dataOf(st *State, t *Term) *Term {
	d, _ := l.txParts(st, t)
	return absint.Undup(d)
}

// isPCList: a list of pointers to codewords.
func (l *peeler) isPCList(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, tp := t.(*types.TypeParam); tp {
		return false
	}
	e := sliceElem(t)
	if e == nil {
		return false
	}
	p, ok := e.Underlying().(*types.Pointer)
	return ok && absint.TypeKey(p.Elem()) == absint.TypeKey(l.tPC)
}

func (l *peeler) queueVar(lp *Loop) []*absint.LVInfo {
	var out []*absint.LVInfo
	for _, v := range lp.Vars {
		if l.isPCList(v.LV.Typ) {
			out = append(out, v)
		}
	}
	return out
}

// popped: the codeword an iteration takes from the queue and the queue it leaves.
func (l *peeler) popped(b *Path, lp *Loop, q *absint.LVInfo) (cw, rest *Term, ok bool) {
	tb := l.x.TB
	v := lp.Back(b, q)
	for n := 0; n < 20; n++ {
		switch {
		case v.Op == "slice" && v.Args[0] == q.LV:
			L := tb.Len(q.LV)
			e := sliceElem(q.LV.Typ)
			switch {
			case v.Args[1] == tb.Int(0) && v.Args[2] == tb.AddK(L, -1):
				return lp.HeadSt.Peek(l.at(lp.HeadSt, q.LV, tb.AddK(L, -1), e)), v, true
			case v.Args[1] == tb.Int(1) && v.Args[2] == L:
				return lp.HeadSt.Peek(l.at(lp.HeadSt, q.LV, tb.Int(0), e)), v, true
			}
			return nil, nil, false
		case v.Op == "appendsl" || v.Op == "append":
			v = v.Args[0]
		default:
			moved := false
			for _, x := range l.rt.idx[v] {
				if x.v != q && onPath(b, x.l) {
					v, moved = x.v.Entry, true
					break
				}
			}
			if !moved {
				return nil, nil, false
			}
		}
	}
	return nil, nil, false
}

// workLoop: the loop on p that takes codewords off a queue.
func (l *peeler) workLoop(p *Path) (*Loop, *absint.LVInfo) {
	for _, e := range evs(p, "loop", "") {
		for _, q := range l.queueVar(e.Loop) {
			for _, b := range e.Loop.Backs {
				if _, _, ok := l.popped(b, e.Loop, q); ok {
					return e.Loop, q
				}
			}
		}
	}
	return nil, nil
}

// peelLoop: the loops on p that take a record out of the codewords waiting for it.
func (l *peeler) peelLoops(p *Path) []*Loop {
	var out []*Loop
	w, _ := l.workLoop(p)
	for _, e := range evs(p, "loop", "") {
		if e.Loop == w {
			continue
		}
		hit := false
		for _, b := range e.Loop.Backs {
			hit = hit || len(storesField(Seg{P: b}, l.tPC, l.pcMem)) > 0 || len(xors(b)) > 0
		}
		if hit {
			out = append(out, e.Loop)
		}
	}
	return out
}

// removed: on b one entry equal to what, of the list found in head as list0, is gone from list1.
func (l *peeler) removed(b *Path, head *State, list0, list1, what *Term) (ok bool, why string) {
	tb := l.x.TB
	elem := sliceElem(list0.Typ)
	if elem == nil {
		elem = what.Typ
	}
	n := tb.Len(list0)
	var j *Term
	f := b.St.F
	switch {
	case list1.Op == "appendsl" && list1.Args[0].Op == "slice" && list1.Args[1].Op == "slice" && list1.Args[0].Args[0] == list0 && list1.Args[1].Args[0] == list0:
		a, z := list1.Args[0], list1.Args[1]
		j = a.Args[2]
		if a.Args[1] != tb.Int(0) || !f.ProveEq(z.Args[1], tb.AddK(j, 1)) || z.Args[2] != n {
			return false, "more or less than one entry is cut out"
		}
	case list1.Op == "slice" && list1.Args[0] == list0 && list1.Args[1] == tb.Int(0) && f.ProveEq(list1.Args[2], tb.AddK(n, -1)):
		last := tb.AddK(n, -1)
		end := last
		var moved *Term // what was put in the place of the removed entry
		for _, e := range evs(b, "store", "") {
			x := e.Args[0]
			if x.Op != "iaddr" || x.Args[0] != list0 {
				continue
			}
			switch x := x.Args[1]; {
			case x == last:
			case f.ProveEq(x, last):
				end = x
			case j != nil && !f.ProveEq(j, x):
				return false, "several entries are overwritten"
			default:
				j, moved = x, e.Args[1]
			}
		}
		if j == nil { // nothing moved: the last one itself goes
			j = end
		} else if moved != head.Peek(l.at(head, list0, last, elem)) {
			return false, "the last entry does not take the place of the removed one"
		}
	default:
		return false, "the list is not shortened by one entry"
	}
	if el := head.Peek(l.at(head, list0, j, elem)); !f.ProveEq(el, what) {
		return false, "the entry removed is not known to be the one looked for"
	}
	// where the position comes from: the start, or a search from the start
	if _, num := numOf(j); num || f.ProveEq(j, tb.AddK(n, -1)) && j == tb.AddK(n, -1) {
		return true, ""
	}
	for _, v := range tb.LinOf(j).Vars {
		for _, x := range l.rt.idx[v] {
			if !onPath(b, x.l) {
				continue
			}
			first := tb.Add(tb.Sub(j, v), x.v.Entry)
			if first != tb.Int(0) {
				return false, "the search does not start at the first entry"
			}
			for _, bb := range x.l.Backs {
				if tb.Sub(x.l.Back(bb, x.v), v) != tb.Int(1) {
					return false, "the search skips entries"
				}
			}
			return true, ""
		}
	}
	return true, ""
}

// peel checks loop M, run on p, which makes record r, with list blk0 of waiting
// codewords and data d, known. It returns the variable collecting the unlocked codewords.
func (l *peeler) peel(where string, p *Path, M *Loop, r, blk0, d *Term) *absint.LVInfo {
	tb := l.x.TB
	idxs, ok := l.counter(M, []*Path{p}, tb.Len(blk0))
	if !l.ob("C14", ok, "peel-all", where, M.Pos, "the peeling loop does not cover exactly the codewords waiting for the transaction") {
		return nil
	}
	j := idxs[0]
	elem := sliceElem(l.ftype(l.tPT, l.ptBlk))
	x := M.HeadSt.Peek(l.at(M.HeadSt, blk0, j, elem))
	var Q *absint.LVInfo
	for _, v := range l.queueVar(M) {
		Q = v
	}
	l.ob("C14", Q != nil, "unlock", where, M.Pos, "codewords unlocked by peeling are not queued")
	l.inst["peel"]++
	for _, b := range M.Backs {
		f, h := b.St.F, M.HeadSt
		for _, t := range touched(b, blk0) {
			l.ob("C14", f.ProveEq(t, j), "peel-all", where, b.Pos, "an entry of the list of waiting codewords other than the current one is changed")
		}
		m0, m1 := h.Peek(l.pc(x, l.pcMem)), b.St.Peek(l.pc(x, l.pcMem))
		ok, why := l.removed(b, h, m0, m1, r)
		l.ob("C14", ok, "peel-remove", where, b.Pos, "peeling does not remove the known transaction from the waiting codeword's unknown members once: %s", why)
		s0, s1 := h.Peek(l.pc(x, l.pcSym)), b.St.Peek(l.pc(x, l.pcSym))
		n := 0
		for _, sg := range l.c.Segs([]*Path{b}) {
			n += len(xors(sg.P))
		}
		l.ob("C14", n == 1 && s1 == tb.XorT(s0, d), "peel-xor", where, b.Pos, "peeling changes the waiting codeword's sum to %s, not by adding the transaction's data once", s1)
		for _, e := range storesField(Seg{P: b}, l.tPC, l.pcMem) {
			l.ob("C14", e.Args[0] == l.pc(x, l.pcMem), "peel-other", where, e.Pos, "peeling changes a codeword other than the one waiting")
		}
		l.ob("C14", len(storesField(Seg{P: b}, l.tPC, l.pcDec)) == 0, "decoded", where, b.Pos, "a codeword is marked decoded before it is processed")
		if Q == nil {
			continue
		}
		q1 := M.Back(b, Q)
		le1 := f.Entails(tb.Le(tb.Len(m1), tb.Int(1)))
		gt1 := f.Entails(tb.Le(tb.Int(2), tb.Len(m1)))
		was, wk := f.Value(h.Peek(l.pc(x, l.pcQ)))
		now := b.St.Peek(l.pc(x, l.pcQ))
		nv, nk := f.Value(now)
		switch {
		case le1 && wk && !was:
			l.inst["unlock"]++
			l.ob("C14", q1.Op == "append" && q1.Args[0] == Q.LV && len(q1.Args) == 2 && q1.Args[1] == x && nk && nv, "unlock", where, b.Pos, "a codeword left with at most one unknown member is not queued and marked queued exactly once")
		case gt1 || wk && was:
			l.ob("C14", q1 == Q.LV && now == h.Peek(l.pc(x, l.pcQ)), "unlock", where, b.Pos, "a codeword that is queued already or has more than one unknown member is queued")
		default:
			l.ob("C14", false, "unlock", where, b.Pos, "whether a peeled codeword is queued does not depend on its unknown members and on whether it is queued")
		}
	}
	return Q
}

// result: the variable of W collecting the reported transactions.
func (l *peeler) result(W *Loop) *absint.LVInfo {
	for _, v := range W.Vars {
		if v.LV.Typ == nil || l.isPCList(v.LV.Typ) || v.Phi == nil && v.Loc != nil && v.Loc.Op == "faddr" {
			continue
		}
		if _, tp := v.LV.Typ.(*types.TypeParam); tp {
			continue
		}
		e := sliceElem(v.LV.Typ)
		want := l.tTx
		if l.ref {
			want = l.tRes
		}
		if e != nil && absint.TypeKey(e) == absint.TypeKey(want) {
			return v
		}
	}
	return nil
}

// work checks the loop processing queued codewords, run on p from the queue entry.
func (l *peeler) work(where string, p *Path, W *Loop, q *absint.LVInfo, entry *Term) *absint.LVInfo {
	tb, rt := l.x.TB, l.rt
	l.ob("C14", q.Entry == entry, "work-queue", where, W.Pos, "processing starts with the queue %s, not with %s", q.Entry, entry)
	l.ob("C14", p.Kind != "return" || l.empty(p.St, q.LV), "work-all", where, p.Pos, "processing ends while codewords are still queued")
	res := l.result(W)
	if res == nil {
		l.ob("C13", false, "report", where, W.Pos, "decoded transactions are not collected")
	} else {
		l.ob("C13", l.empty(W.HeadSt, res.Entry), "report", where, W.Pos, "the list of decoded transactions does not start empty")
	}
	head := W.HeadSt
	recvRef, pendRef := head.Peek(l.dloc(l.d, l.dRecv)), head.Peek(l.dloc(l.d, l.dPend))
	recv0, pend0 := head.MapContent(recvRef), head.MapContent(pendRef)
	recent0 := head.Peek(l.dloc(l.d, l.dRecent))
	hasher := rt.st0.Peek(l.dloc(l.d, l.dHasher))
	for _, b := range W.Backs {
		f := b.St.F
		c, rest, ok := l.popped(b, W, q)
		if !l.ob("C14", ok, "work-pop", where, b.Pos, "a round of processing does not take exactly one codeword off the queue") || !ok {
			continue
		}
		qv, qk := f.Value(head.Peek(l.pc(c, l.pcQ)))
		_ = qv
		_ = qk
		mem0, sym0 := head.Peek(l.pc(c, l.pcMem)), head.Peek(l.pc(c, l.pcSym))
		q1 := W.Back(b, q)
		pend1, recv1, recent1 := b.St.MapContent(pendRef), b.St.MapContent(recvRef), b.St.Peek(l.dloc(l.d, l.dRecent))
		var res1 *Term
		if res != nil {
			res1 = W.Back(b, res)
		}
		// decoded marks
		dv, dk := f.Value(b.St.Peek(l.pc(c, l.pcDec)))
		l.ob("C14", dk && dv, "decoded", where, b.Pos, "a processed codeword is not marked decoded")
		for _, e := range storesField(Seg{P: b}, l.tPC, l.pcDec) {
			l.ob("C14", e.Args[0] == l.pc(c, l.pcDec), "decoded", where, e.Pos, "a codeword other than the processed one is marked decoded")
		}
		if q0 := storesField(Seg{P: b}, l.tPC, l.pcQ); len(q0) > 0 {
			l.ob("C14", false, "unlock", where, q0[0].Pos, "processing changes the queued mark of a codeword outside peeling")
		}
		quiet := func(what string) {
			l.ob("C13", res == nil || res1 == res.LV, "report", where, b.Pos, "a transaction is reported for %s", what)
			l.ob("C13", recv1 == recv0 && recent1 == recent0, "store", where, b.Pos, "a transaction is stored for %s", what)
			l.ob("C13", q1 == rest, "verify", where, b.Pos, "codewords are unlocked by %s", what)
			l.ob("C13", len(l.peelLoops(b)) == 0 && l.onlyDups(b), "verify", where, b.Pos, "codewords are peeled for %s", what)
		}
		n0 := tb.Len(mem0)
		if f.Entails(tb.Le(n0, tb.Int(0))) {
			l.inst["none"]++
			quiet("a codeword without unknown members")
			l.ob("C13", pend1 == pend0, "record", where, b.Pos, "a codeword without unknown members changes the pending records")
			continue
		}
		one := f.ProveEq(n0, tb.Int(1))
		if !l.ob("C13", one, "one-unknown", where, b.Pos, "a codeword not known to have exactly one unknown member is decoded") || !one {
			continue
		}
		r := head.Peek(l.at(head, mem0, tb.Int(0), sliceElem(l.ftype(l.tPC, l.pcMem))))
		key := head.Peek(l.fa(r, l.tPT, l.ptKey))
		// the salted hash computed from the recovered content
		var sum *Term
		for _, e := range b.Events {
			if e.Kind == "call" && e.Callee == "(hash.Hash64).Sum64" && e.Res.Op == "hsum" && e.Res.Args[0] == hasher {
				if s := e.Res.Args[1]; s.Op == "hwrite" && s.Args[0].Op == "hempty" && l.hashOf(s.Args[1], sym0) {
					sum = tb.MkT(types.Typ[types.Uint32], "conv", absint.TypeKey(types.Typ[types.Uint32]), e.Res)
				}
			}
		}
		if !l.ob("C13", sum != nil, "verify", where, b.Pos, "a codeword with one unknown member is processed without computing the salted hash of its content") || sum == nil {
			continue
		}
		steps, okP := walk(b, rt.idx, pend1, pend0)
		dels := 0
		for _, s := range steps {
			if s.kind == "del" && f.ProveEq(s.xs[0], key) {
				dels++
			} else {
				okP = false
			}
		}
		l.ob("C13", okP, "record", where, b.Pos, "processing a codeword changes pending records other than its unknown member's")
		switch {
		case f.ProveEq(sum, key):
			l.inst["match"]++
			l.ob("C13", dels >= 1, "record", where, b.Pos, "the pending record of a decoded transaction is kept")
			if res != nil {
				ok := res1.Op == "append" && len(res1.Args) == 2 && res1.Args[0] == res.LV
				l.ob("C13", ok, "report", where, b.Pos, "a decoded transaction is not reported exactly once")
				if ok {
					x := res1.Args[1]
					tx := x
					if l.ref {
						tx = tb.Field(x, l.tRes, l.resTx)
						l.ob("C13", tb.Field(x, l.tRes, l.resExp) == head.Peek(l.pc(c, l.pcFreed)), "report", where, b.Pos, "a decoded transaction is marked expired by %s, not by whether its codeword was freed", tb.Field(x, l.tRes, l.resExp))
					}
					l.ob("C13", l.content(b.St, tx, sym0), "report", where, b.Pos, "the transaction reported does not have the content that was verified")
					// stored once
					ss, ok1 := walk(b, rt.idx, recent1, recent0)
					n := 0
					for _, s := range ss {
						if s.kind == "append" {
							for _, el := range s.xs {
								n++
								st := tb.Field(el, l.tRec, l.recTx)
								ok1 = ok1 && (st == tx || l.content(b.St, st, sym0)) && f.ProveEq(tb.Field(el, l.tRec, l.recKey), key)
							}
						}
					}
					l.ob("C13", ok1 && n == 1, "store", where, b.Pos, "the decoded transaction is not stored exactly once under its salted hash")
				}
			}
			ms := l.peelLoops(b)
			if l.ob("C14", len(ms) == 1, "peel-known", where, b.Pos, "a decoded transaction is peeled from the waiting codewords %d times", len(ms)) && len(ms) == 1 {
				blk0 := ms[0].HeadSt.Peek(l.blk(r))
				l.ob("C14", l.sameBlk(b, ms[0], head, r, blk0), "peel-all", where, ms[0].Pos, "the list of codewords waiting for the decoded transaction is changed before they are peeled")
				if Q := l.peel(where, b, ms[0], r, blk0, l.peelData(b, ms[0], sym0)); Q != nil {
					okQ := q1 == Q.LV && Q.Entry == rest || q1.Op == "appendsl" && q1.Args[0] == rest && q1.Args[1] == Q.LV && l.empty(b.St, Q.Entry)
					l.ob("C14", okQ, "work-queue", where, b.Pos, "unlocked codewords do not all join the queue: it becomes %s", q1)
				}
			}
			l.ob("C14", len(xors(b)) == 0 || l.onlyDups(b), "peel-xor", where, b.Pos, "sums are changed outside peeling")
		case f.ProveNe(sum, key):
			l.inst["mismatch"]++
			quiet("a codeword whose content does not verify")
			l.ob("C13", l.empty(b.St, b.St.Peek(l.pc(c, l.pcMem))), "detach", where, b.Pos, "a codeword whose content does not verify keeps its unknown member")
			blk0, blk1 := head.Peek(l.blk(r)), b.St.Peek(l.blk(r))
			ok, why := l.removed(b, head, blk0, blk1, c)
			l.ob("C13", ok, "detach", where, b.Pos, "a codeword whose content does not verify is not removed from those waiting for its member: %s", why)
			n1 := tb.Len(blk1)
			switch {
			case f.Entails(tb.Le(n1, tb.Int(0))):
				l.ob("C13", dels == 1, "record", where, b.Pos, "a pending record no codeword waits for is kept")
			case f.Entails(tb.Le(tb.Int(1), n1)) || f.ProveNe(n1, tb.Int(0)):
				l.ob("C13", dels == 0, "record", where, b.Pos, "a pending record other codewords wait for is dropped")
			default:
				l.ob("C13", false, "record", where, b.Pos, "whether the pending record is dropped does not depend on other codewords waiting for it")
			}
		default:
			l.ob("C13", false, "verify", where, b.Pos, "a codeword is processed whether or not its content has the salted hash listed")
		}
	}
	return res
}

// onlyDups: the only additions on b itself start from the empty value.
func (l *peeler) onlyDups(b *Path) bool {
	for _, e := range xors(b) {
		if e.Args[0].Op != "zero" {
			return false
		}
	}
	return true
}

// sameBlk: the list the peeling loop covers is the one head had.
func (l *peeler) sameBlk(b *Path, M *Loop, head *State, r, blk0 *Term) bool {
	return blk0 == head.Peek(l.blk(r))
}

// peelData: the verified content as the peeling loop adds it.
func (l *peeler) peelData(b *Path, M *Loop, sym0 *Term) *Term {
	for _, bb := range M.Backs {
		for _, e := range xors(bb) {
			if l.isContent(e.Args[1], sym0) {
				return e.Args[1]
			}
		}
	}
	return sym0
}

// isContent: d is the content of the sum s.
func (l *peeler) isContent(d, s *Term) bool {
	d = absint.Undup(d)
	if d == absint.Undup(s) {
		return true
	}
	if d.Op == "bytesof" && d.Args[0] == s {
		return true
	}
	return false
}

func (l *peeler) hashOf(h, s *Term) bool {
	return h.Op == "hash" && l.isContent(h.Args[0], s)
}

// content: transaction t holds the content of s and its hash.
func (l *peeler) content(st *State, t, s *Term) bool {
	d, h := l.txParts(st, t)
	return l.isContent(d, s) && l.hashOf(h, s)
}

// ---------------------------------------------------------------- C12, C13, C14

func rulePeel(lp *ltp) {
	l := &peeler{ltp: lp, inst: map[string]int{}}
	l.recv = l.ftype(l.tDec, l.dRecv).Underlying().(*types.Map).Elem()
	l.addCodeword()
	l.panics(l.rt)
	l.addTransaction()
	l.panics(l.rt)
	want := map[string][]string{"C12": {"link", "create", "held", "decode", "wait"}, "C13": {"none", "match", "mismatch"}, "C14": {"peel", "unlock", "given"}}
	for _, k := range want[l.c.ID] {
		l.ob(l.c.ID, l.inst[k] > 0, "instances", l.rel+" "+k, token.NoPos, "no way through the decoder was found for: %s", k)
	}
}

func (l *peeler) addCodeword() {
	rt := l.rt0("AddCodeword")
	if rt == nil || len(rt.args) != 2 {
		return
	}
	c, tb := l.c, l.x.TB
	name, raw := rt.name, rt.args[1]
	var mems, rsym *Term
	if l.ref {
		mems, rsym = rt.st0.Peek(l.fa(raw, l.tCW, l.cwMem)), rt.st0.Peek(l.fa(raw, l.tCW, l.cwSym))
	} else {
		mems, rsym = tb.Field(raw, l.tCW, l.cwMem), tb.Field(raw, l.tCW, l.cwSym)
	}
	checked := map[*Loop]bool{}
	for _, p := range rt.ps {
		if p.Kind != "return" {
			continue
		}
		if !l.ob("C12", len(p.Vals) == 2, "returns", name, p.Pos, "AddCodeword returns no codeword") || len(p.Vals) != 2 {
			continue
		}
		cw := p.Vals[0]
		if !l.ob("C12", cw.Op == "alloc", "fresh", name, p.Pos, "the codeword kept is %s, not a record of its own", cw) || cw.Op != "alloc" {
			continue
		}
		var A *Loop
		var m *Term
		for _, e := range evs(p, "loop", "") {
			if len(e.Loop.Backs) == 0 {
				continue
			}
			if idxs, ok := l.counter(e.Loop, []*Path{p}, tb.Len(mems)); ok {
				A = e.Loop
				m = A.HeadSt.Peek(l.at(A.HeadSt, mems, idxs[0], types.Typ[types.Uint32]))
				break
			}
		}
		if !l.ob("C12", A != nil, "members", name, p.Pos, "the codeword's listed members are not all gone through") || A == nil {
			continue
		}
		l.ob("C12", p.St.F.ProveEq(tb.Len(mems), tb.Len(mems)), "members", name, p.Pos, "")
		if !checked[A] {
			checked[A] = true
			l.register(name, A, cw, m, rsym)
		}
		after := false
		for _, e := range p.Events {
			if e.Kind == "loop" && e.Loop == A {
				after = true
			}
			if after && e.Kind == "store" && (e.Args[0] == l.pc(cw, l.pcSym) || e.Args[0] == l.pc(cw, l.pcMem)) {
				l.ob("C12", e.Args[1] == e.Args[2], "symbol", name, e.Pos, "a new codeword is changed after it was linked to its members")
			}
		}
		// what happens to it
		st := p.St
		W, q := l.workLoop(p)
		n := tb.Len(l.afterLoop(p, A, l.pc(cw, l.pcMem)))
		switch {
		case st.F.Entails(tb.Le(n, tb.Int(1))):
			l.inst["decode"]++
			if !l.ob("C12", W != nil && q.Entry.Op == "append" && len(q.Entry.Args) == 2 && l.empty(st, q.Entry.Args[0]) && q.Entry.Args[1] == cw, "decode-at-once", name, p.Pos, "a codeword with at most one unknown member is not decoded at once") || W == nil {
				continue
			}
			marked := false
			for _, e := range p.Events {
				if e.Kind == "loop" && e.Loop == W {
					break
				}
				if e.Kind == "store" && e.Args[0] == l.pc(cw, l.pcQ) {
					v, k := st.F.Value(e.Args[1])
					marked = k && v
				}
			}
			l.ob("C12", marked, "decode-at-once", name, p.Pos, "a codeword decoded at once is not marked queued")
			res := l.work(name, p, W, q, q.Entry)
			l.ob("C12", res != nil && p.Vals[1] == res.LV, "returned", name, p.Pos, "what the codeword yields is not what is returned: %s", p.Vals[1])
		case st.F.Entails(tb.Le(tb.Int(2), n)):
			l.inst["wait"]++
			l.ob("C12", W == nil || l.empty(st, q.Entry), "wait", name, p.Pos, "a codeword with several unknown members is decoded")
			ok := l.empty(st, p.Vals[1])
			if W != nil {
				if res := l.result(W); res != nil && p.Vals[1] == res.LV {
					ok = true
				}
			}
			l.ob("C12", ok, "wait", name, p.Pos, "a codeword with several unknown members yields %s", p.Vals[1])
			if W == nil {
				for _, i := range []int{l.pcQ, l.pcDec} {
					v, k := st.F.Value(st.Peek(l.pc(cw, i)))
					l.ob("C12", k && !v, "wait", name, p.Pos, "a waiting codeword is marked queued or decoded")
				}
			}
		default:
			l.ob("C12", false, "decode-at-once", name, p.Pos, "whether the codeword is decoded does not depend on the number of its unknown members")
		}
	}
	_ = c
}

// afterLoop: the value of a location right after loop A on p.
func (l *peeler) afterLoop(p *Path, A *Loop, loc *Term) *Term {
	for _, v := range A.Vars {
		if v.Loc == loc {
			return v.LV
		}
	}
	return A.HeadSt.Peek(loc)
}

// register checks the loop linking a new codeword to its members.
func (l *peeler) register(name string, A *Loop, cw, m, rsym *Term) {
	tb, h := l.x.TB, A.HeadSt
	symLoc, memLoc := l.pc(cw, l.pcSym), l.pc(cw, l.pcMem)
	entry := func(loc *Term) *Term {
		for _, v := range A.Vars {
			if v.Loc == loc {
				return v.Entry
			}
		}
		return h.Peek(loc)
	}
	l.ob("C12", entry(symLoc) == rsym, "symbol", name, A.Pos, "the codeword's sum starts as %s, not as the data received", entry(symLoc))
	l.ob("C12", l.empty(h, entry(memLoc)), "start", name, A.Pos, "a new codeword starts with unknown members %s", entry(memLoc))
	for _, i := range []int{l.pcQ, l.pcDec, l.pcFreed} {
		if i >= 0 {
			v, k := h.F.Value(h.Peek(l.pc(cw, i)))
			l.ob("C12", k && !v, "start", name, A.Pos, "a new codeword starts marked queued, decoded or freed")
		}
	}
	recvC, pendC := l.table(h, l.d, l.dRecv), l.table(h, l.d, l.dPend)
	pendT := l.ftype(l.tDec, l.dPend).Underlying().(*types.Map).Elem()
	for _, b := range A.Backs {
		st := b.St
		has, known := l.present(st, recvC, m, l.recv)
		if !l.ob("C12", known, "member", name, b.Pos, "a listed member is handled without looking whether it is held") || !known {
			continue
		}
		sym0, sym1 := h.Peek(symLoc), st.Peek(symLoc)
		mem0, mem1 := h.Peek(memLoc), st.Peek(memLoc)
		pend1 := l.table(st, l.d, l.dPend)
		links := storesField(Seg{P: b}, l.tPT, l.ptBlk)
		l.ob("C12", l.table(st, l.d, l.dRecv) == recvC, "member", name, b.Pos, "registering a codeword changes the known transactions")
		if has {
			l.inst["held"]++
			d := l.dataOf(h, h.MapGet(recvC, m, l.recv))
			l.ob("C12", len(xors(b)) == 1 && absint.Undup(xors(b)[0].Args[1]) == d && sym1 == tb.XorT(sym0, xors(b)[0].Args[1]), "held-xor", name, b.Pos, "a member that is held is not XORed out of the codeword exactly once: its sum becomes %s", sym1)
			l.ob("C12", mem1 == mem0 && pend1 == pendC && len(links) == 0, "held-link", name, b.Pos, "a member that is held is linked to the codeword")
			continue
		}
		l.ob("C12", len(xors(b)) == 0 && sym1 == sym0, "unknown-xor", name, b.Pos, "the codeword's sum changes for a member that is not held")
		ph, pk := l.present(st, pendC, m, pendT)
		if !l.ob("C12", pk, "record", name, b.Pos, "an unknown member is linked without looking for its pending record") || !pk {
			continue
		}
		if ph && st.F.ProveEq(h.MapGet(pendC, m, pendT), tb.Nil()) {
			continue // no record is nil
		}
		var r *Term
		var blk0 *Term
		if ph {
			l.inst["link"]++
			r = h.MapGet(pendC, m, pendT)
			blk0 = h.Peek(l.blk(r))
			l.ob("C12", pend1 == pendC, "record", name, b.Pos, "the pending record of an unknown member is replaced")
		} else {
			l.inst["create"]++
			ok := pend1.Op == "mput" && pend1.Args[0] == pendC && st.F.ProveEq(pend1.Args[1], m) && pend1.Args[2].Op == "alloc"
			if !l.ob("C12", ok, "record", name, b.Pos, "no new pending record is kept under the salted hash of a member never heard of") || !ok {
				continue
			}
			r = pend1.Args[2]
			l.ob("C12", st.F.ProveEq(st.Peek(l.fa(r, l.tPT, l.ptKey)), m), "record", name, b.Pos, "the new pending record has salted hash %s", st.Peek(l.fa(r, l.tPT, l.ptKey)))
		}
		blk1 := st.Peek(l.blk(r))
		ok := blk1.Op == "append" && len(blk1.Args) == 2 && blk1.Args[1] == cw && (blk0 != nil && blk1.Args[0] == blk0 || blk0 == nil && l.empty(st, blk1.Args[0]))
		l.ob("C12", ok, "link-back", name, b.Pos, "the codeword is not added once to those waiting for an unknown member: %s", blk1)
		l.ob("C12", mem1.Op == "append" && len(mem1.Args) == 2 && mem1.Args[0] == mem0 && mem1.Args[1] == r, "link", name, b.Pos, "the pending record is not added once to the codeword's unknown members: %s", mem1)
		for _, e := range links {
			l.ob("C12", e.Args[0] == l.blk(r), "link-back", name, e.Pos, "the codeword is linked to another pending record")
		}
	}
}

func (l *peeler) addTransaction() {
	rt := l.rt0("AddTransaction")
	if rt == nil || len(rt.args) != 2 {
		return
	}
	tb, name, t := l.x.TB, rt.name, rt.args[1]
	st0 := rt.st0
	_, th := l.txParts(st0, t)
	key := l.key(st0.Peek(l.dloc(l.d, l.dHasher)), th)
	recv0, pend0 := l.table(st0, l.d, l.dRecv), l.table(st0, l.d, l.dPend)
	recent0 := st0.Peek(l.dloc(l.d, l.dRecent))
	pendT := l.ftype(l.tDec, l.dPend).Underlying().(*types.Map).Elem()
	for _, p := range rt.ps {
		if p.Kind != "return" {
			continue
		}
		st := p.St
		if !l.ob("C14", len(p.Vals) == 1, "returns", name, p.Pos, "AddTransaction returns nothing") || len(p.Vals) != 1 {
			continue
		}
		has, known := l.present(st, recv0, key, l.recv)
		if !l.ob("C14", known, "given", name, p.Pos, "a transaction is added without looking whether it is held") || !known {
			continue
		}
		W, q := l.workLoop(p)
		ms := l.peelLoops(p)
		stored := func(want int) bool {
			ss, ok := walk(p, rt.idx, st.Peek(l.dloc(l.d, l.dRecent)), recent0)
			if W != nil { // what the work loop stores is judged there
				for _, v := range W.Vars {
					if v.Loc == l.dloc(l.d, l.dRecent) {
						ss, ok = walk(p, rt.idx, v.Entry, recent0)
					}
				}
			}
			n := 0
			for _, s := range ss {
				if s.kind == "append" {
					for _, el := range s.xs {
						n++
						ok = ok && tb.Field(el, l.tRec, l.recTx) == t && st.F.ProveEq(tb.Field(el, l.tRec, l.recKey), key)
					}
				}
			}
			return ok && n == want
		}
		pend1 := l.table(st, l.d, l.dPend)
		if W != nil {
			for _, v := range W.Vars {
				if v.Loc != nil && v.LV == pend1 {
					pend1 = v.Entry
				}
			}
		}
		none := func(what string) {
			l.ob("C14", len(ms) == 0 && len(xors(p)) == 0 && (W == nil || l.empty(st, q.Entry)), "given-peel", name, p.Pos, "codewords are peeled for %s", what)
			ok := l.empty(st, p.Vals[0])
			if W != nil {
				if res := l.result(W); res != nil && p.Vals[0] == res.LV {
					ok = true
				}
			}
			l.ob("C14", ok, "given-peel", name, p.Pos, "transactions are returned for %s", what)
			l.ob("C14", pend1 == pend0, "given-record", name, p.Pos, "pending records change for %s", what)
		}
		if has {
			e := st0.MapGet(recv0, key, l.recv)
			same, sk := l.sameTx(st, st0, e, t)
			if !l.ob("C14", sk, "given", name, p.Pos, "a transaction whose salted hash is held is handled without comparing it with the one held") || !sk {
				continue
			}
			if same {
				none("a transaction that is held already")
				l.ob("C14", stored(0) && l.table(st, l.d, l.dRecv) == recv0, "given-held", name, p.Pos, "a transaction that is held already is stored again")
			} else {
				none("a transaction in conflict with one held")
				l.ob("C14", stored(1), "given-store", name, p.Pos, "a transaction in conflict with one held is not stored")
			}
			continue
		}
		l.ob("C14", stored(1), "given-store", name, p.Pos, "a transaction not held is not stored exactly once under its salted hash")
		ph, pk := l.present(st, pend0, key, pendT)
		if !l.ob("C14", pk, "given", name, p.Pos, "a transaction is added without looking for codewords waiting for it") || !pk {
			continue
		}
		if !ph {
			none("a transaction no codeword waits for")
			continue
		}
		r := st0.MapGet(pend0, key, pendT)
		if st.F.ProveEq(r, tb.Nil()) {
			continue // a record is stored after it was given its key, so it is not nil
		}
		l.inst["given"]++
		l.ob("C14", pend1.Op == "mdel" && pend1.Args[0] == pend0 && st.F.ProveEq(pend1.Args[1], key), "given-record", name, p.Pos, "the pending record of a transaction now known is not removed")
		if !l.ob("C14", len(ms) == 1, "given-peel", name, p.Pos, "a transaction now known is peeled from the waiting codewords %d times", len(ms)) || len(ms) != 1 {
			continue
		}
		blk0 := ms[0].HeadSt.Peek(l.blk(r))
		l.ob("C14", blk0 == st0.Peek(l.blk(r)), "peel-all", name, ms[0].Pos, "the list of waiting codewords is changed before they are peeled")
		td, _ := l.txParts(st0, t)
		Q := l.peel(name, p, ms[0], r, blk0, td)
		if Q == nil {
			continue
		}
		l.ob("C14", l.empty(st0, Q.Entry), "work-queue", name, ms[0].Pos, "the queue of unlocked codewords does not start empty")
		if !l.ob("C14", W != nil, "work-all", name, p.Pos, "codewords unlocked by a transaction are not processed") || W == nil {
			continue
		}
		res := l.work(name, p, W, q, Q.LV)
		l.ob("C14", res != nil && p.Vals[0] == res.LV, "returned", name, p.Pos, "what the unlocked codewords yield is not what is returned: %s", p.Vals[0])
	}
}

// sameTx: are the transactions equal, as far as the path established.
func (l *peeler) sameTx(st, at *State, a, b *Term) (same, known bool) {
	d1, h1 := l.txParts(at, a)
	d2, h2 := l.txParts(at, b)
	for t := range st.F.AtomList() {
		if t.Op == "call:bytes.Equal" || t.Op == "call" && t.Aux == "bytes.Equal" {
			if t.Args[0] == h1 && t.Args[1] == h2 || t.Args[0] == h2 && t.Args[1] == h1 {
				return st.F.Value(t)
			}
		}
	}
	for _, x := range [][2]*Term{{h1, h2}, {d1, d2}} {
		if !l.ref && x[0] == h1 {
			continue // hashes are slices
		}
		if st.F.ProveEq(x[0], x[1]) {
			return true, true
		}
		if st.F.ProveNe(x[0], x[1]) {
			return false, true
		}
	}
	return false, false
}

// panics: a way through root that gives up must need a state that the links
// between codewords and records exclude.
func (l *peeler) panics(rt *ltRoot) {
	if rt == nil {
		return
	}
	for _, p := range rt.ps {
		if p.Kind != "panic" {
			continue
		}
		W, q := l.workLoop(p)
		ok := l.impossible(rt, p, W, q)
		const f = "decoding gives up (panics) in a state that can occur"
		switch {
		case W != nil:
			l.ob("C13", ok, "panic", rt.name, p.Pos, f)
			l.ob("C14", ok, "panic", rt.name, p.Pos, f)
		case rt.fn.Name() == "AddCodeword":
			l.ob("C12", ok, "panic", rt.name, p.Pos, f)
		default:
			l.ob("C14", ok, "panic", rt.name, p.Pos, f)
		}
	}
}

func (l *peeler) impossible(rt *ltRoot, p *Path, W *Loop, q *absint.LVInfo) bool {
	tb, f := l.x.TB, p.St.F
	pendT := l.ftype(l.tDec, l.dPend).Underlying().(*types.Map).Elem()
	heads := []*State{rt.st0}
	var last *Loop
	for _, e := range evs(p, "loop", "") {
		if len(e.Loop.Backs) > 0 {
			heads = append(heads, e.Loop.HeadSt)
			last = e.Loop
		}
	}
	not := func(c *Term) bool { v, k := f.Value(c); return k && !v }
	// a transaction is never held and pending at once
	for _, h := range heads {
		rc, pc := l.table(h, l.d, l.dRecv), l.table(h, l.d, l.dPend)
		for t, v := range f.AtomList() {
			if v && t.Op == "mhas" && t.Args[0] == rc {
				if has, known := l.present(p.St, pc, t.Args[1], pendT); has && known {
					return true
				}
			}
			// a record is kept under its own salted hash
			if v && t.Op == "mhas" && t.Args[0] == pc {
				r := h.MapGet(pc, t.Args[1], pendT)
				if f.ProveNe(h.Peek(l.fa(r, l.tPT, l.ptKey)), t.Args[1]) {
					return true
				}
			}
		}
	}
	// a search for an entry that is linked does not fail
	if last != nil && l.searches(p, last) {
		return true
	}
	if W == nil {
		return false
	}
	for _, b := range W.Backs {
		c, _, ok := l.popped(b, W, q)
		if !ok {
			continue
		}
		h := W.HeadSt
		mem0 := h.Peek(l.pc(c, l.pcMem))
		n0 := tb.Len(mem0)
		r := h.Peek(l.at(h, mem0, tb.Int(0), sliceElem(l.ftype(l.tPC, l.pcMem))))
		key := h.Peek(l.fa(r, l.tPT, l.ptKey))
		if not(h.Peek(l.pc(c, l.pcQ))) || f.Entails(tb.Le(tb.Int(2), n0)) {
			return true
		}
		if f.Entails(tb.Le(tb.Int(1), n0)) {
			if has, known := l.present(p.St, l.table(h, l.d, l.dRecv), key, l.recv); known && has {
				return true
			}
			if has, known := l.present(p.St, l.table(h, l.d, l.dPend), key, pendT); known && !has {
				return true
			}
			// peeling its only unknown member empties it
			for _, M := range l.peelLoops(p) {
				blk := M.HeadSt.Peek(l.blk(r))
				if _, ok := l.counter(M, []*Path{p}, tb.Len(blk)); ok {
					n1 := tb.Len(p.St.Peek(l.pc(c, l.pcMem)))
					if f.Entails(tb.Le(tb.Int(1), n1)) || f.ProveNe(n1, tb.Int(0)) {
						return true
					}
				}
			}
		}
		break
	}
	return false
}

// searches: S looks through a list of links for one entry, and on p has seen all of it in vain.
func (l *peeler) searches(p *Path, S *Loop) bool {
	tb := l.x.TB
	seen := false
	for _, e := range p.Events { // nothing is done after the search
		if e.Kind == "loop" && e.Loop == S {
			seen = true
		} else if seen && (e.Kind == "store" || e.Kind == "loop") {
			return false
		}
	}
	for _, b := range S.Backs {
		found := false
		for t, v := range b.St.F.AtomList() {
			if v || t.Op != "eq" {
				continue
			}
			for k := 0; k < 2; k++ {
				el, what := t.Args[k], t.Args[1-k]
				if el.Op != "load" || el.Args[0].Op != "iaddr" || !l.isLinks(el.Args[0].Args[0].Typ) {
					continue
				}
				own := false
				for _, x := range S.Vars {
					own = own || mentions(what, x.LV)
				}
				if _, ok := l.counter(S, []*Path{p}, tb.Len(el.Args[0].Args[0])); ok && !own {
					found = true
				}
			}
		}
		if !found || len(evs(b, "store", "")) > 0 {
			return false
		}
	}
	return len(S.Backs) > 0
}

// isLinks: a list of pointers to codewords or to pending records.
func (l *peeler) isLinks(t types.Type) bool {
	if l.isPCList(t) {
		return true
	}
	if t == nil || sliceElem(t) == nil {
		return false
	}
	p, ok := sliceElem(t).Underlying().(*types.Pointer)
	return ok && absint.TypeKey(p.Elem()) == absint.TypeKey(l.tPT)
}
