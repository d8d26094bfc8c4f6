package rules

import (
	"go/token"
	"go/types"
	"strings"

	"rsrcheck/internal/absint"
)

// accum splits a list value into the base list and the elements appended to it
// on path p, looking through loops summarised on p that do not change the list
// other than as their own iterations account for.
func accum(p *Path, idx map[*Term][]lvRec, v, base *Term) ([]*Term, bool) {
	var rev []*Term
	for n := 0; n < 100; n++ {
		if v == base {
			out := make([]*Term, len(rev))
			for i := range rev {
				out[i] = rev[len(rev)-1-i]
			}
			return out, true
		}
		if v.Op == "append" {
			for i := len(v.Args) - 1; i >= 1; i-- {
				rev = append(rev, v.Args[i])
			}
			v = v.Args[0]
			continue
		}
		moved := false
		for _, x := range idx[v] {
			if onPath(p, x.l) {
				v = x.v.Entry
				moved = true
				break
			}
		}
		if !moved {
			return nil, false
		}
	}
	return nil, false
}

func (r *rib) start(sg Seg) *State {
	if sg.From != nil {
		return sg.From
	}
	return r.x.NewState()
}

// listDelta: the elements a segment itself appends to the list at loc.
func (r *rib) listDelta(sg Seg, idx map[*Term][]lvRec, loc *Term) ([]*Term, bool) {
	return accum(sg.P, idx, sg.P.St.Peek(loc), r.start(sg).Peek(loc))
}

// complete reports whether a piece runs to its end (is not an abort).
func complete(sg Seg) bool { return sg.P.Kind == "return" || sg.P.Kind == "back" }

func decoderRoots(rs []*ribRoot) []*ribRoot {
	var out []*ribRoot
	for _, rt := range rs {
		if strings.HasPrefix(rt.name, "Decoder.") {
			out = append(out, rt)
		}
	}
	return out
}

// storesField lists the stores of a segment to a field of a heap object
// (not of a local temporary), whole-struct stores included.
func storesField(sg Seg, st types.Type, i int) []*Event {
	ss, _ := structOf(st)
	key := absint.FieldKey(ss.Field(i))
	var out []*Event
	for _, e := range sg.P.Events {
		if e.Kind != "store" || isAlloc(e.Args[0]) {
			continue
		}
		if e.Args[0].Op == "faddr" && e.Args[0].Aux == key {
			out = append(out, e)
			continue
		}
		if t := pointee(e.Args[0]); t != nil && holds(t, st, 0) {
			out = append(out, e)
		}
	}
	return out
}

func pointee(a *Term) types.Type {
	if a.Typ == nil {
		return nil
	}
	if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// holds: a value of type t contains a value of struct type st.
func holds(t, st types.Type, d int) bool {
	if absint.TypeKey(t) == absint.TypeKey(st) {
		return true
	}
	if d > 4 {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holds(u.Field(i).Type(), st, d+1) {
				return true
			}
		}
	case *types.Array:
		return holds(u.Elem(), st, d+1)
	}
	return false
}

// window locations
func (r *rib) wloc(win *Term, f int) *Term { return r.fa(win, r.tWin, f) }
func (r *rib) dwin(recv *Term, f int) *Term {
	return r.fa(recv, r.tDec, f)
}

// qhead reads the first queue entry of a window in a state.
func (r *rib) qhead(st *State, win *Term) (q, src, pos *Term) {
	q = st.Peek(r.wloc(win, r.wQ))
	h := st.IndexAddr(q, r.x.TB.Int(0), r.tSM)
	return q, st.Peek(r.fa(h, r.tSM, r.smSrc)), st.Peek(r.fa(h, r.tSM, r.smIdx))
}

func (r *rib) windows(rt *ribRoot) map[string]*Term {
	switch {
	case strings.HasPrefix(rt.name, "Encoder."):
		return map[string]*Term{"encoder": rt.recv}
	case strings.HasPrefix(rt.name, "Decoder."):
		return map[string]*Term{"given": r.dwin(rt.recv, r.dWin), "remote": r.dwin(rt.recv, r.dRem), "local": r.dwin(rt.recv, r.dLoc)}
	}
	return nil
}

func ruleC02(c *C) {
	r := c.rib()
	if !r.ok {
		return
	}
	tb := r.x.TB
	rs := r.roots()
	if !r.ok {
		return
	}
	nwin, nseq := map[string]int{}, map[string]int{}
	for _, rt := range rs {
		if strings.HasSuffix(rt.name, ".Reset") {
			continue
		}
		idx := c.lvIndex(rt.paths)
		wins := r.windows(rt)
		for _, sg := range c.Segs(rt.paths) {
			if !complete(sg) {
				continue
			}
			r.windowFrame(c, rt, sg, idx, wins)
			chs := r.changes(sg)
			steps := evs(sg.P, "call", "nextIndex")
			if len(chs) == 1 && r.isSubtraction(chs[0]) && len(steps) == 0 {
				continue
			}
			if !c.Ob(len(chs) == len(steps) && len(chs) <= 1, "one-per-step", rt.name, sg.P.Pos,
				"%s applies %d symbols and advances %d position sequences in one step", rt.name, len(chs), len(steps)) || len(chs) == 0 {
				continue
			}
			ch, step := chs[0], steps[0]
			if !c.Ob(sg.Loop != nil, "one-per-step", rt.name+" loop", ch.pos, "%s applies a symbol outside a loop over its positions", rt.name) {
				continue
			}
			s, _, _, ok := r.delta(ch)
			if !ok {
				c.Fail("applied", rt.name, ch.pos, "%s changes a coded symbol other than by one symbol", rt.name)
				continue
			}
			if w := r.windowOf(sg.Loop); w != nil {
				nwin[r.role(w)]++
				r.windowStep(c, rt, sg, w, s, step)
				continue
			}
			nseq[rt.name]++
			r.sequenceStep(c, rt, sg, ch, s, step)
		}
		// each coded symbol takes one position in every window
		if rt.name == "Encoder.ProduceNextCodedSymbol" || rt.name == "Decoder.AddCodedSymbol" {
			for _, p := range rt.paths {
				if p.Kind != "return" {
					continue
				}
				for n, w := range wins {
					was := r.x.NewState().Peek(r.wloc(w, r.wNext))
					is := p.St.Peek(r.wloc(w, r.wNext))
					c.Ob(is == tb.AddK(was, 1), "advance", rt.name+" "+n, p.Pos, "%s leaves the position of the %s symbols at %s, not one further", rt.name, n, is)
					visited := false
					for _, e := range evs(p, "loop", "") {
						if r.windowOf(e.Loop) == w {
							visited = true
						}
					}
					q := r.x.NewState().Peek(r.wloc(w, r.wQ))
					c.Ob(visited || p.St.F.Entails(tb.Le(tb.Len(q), tb.Int(0))), "visited", rt.name+" "+n, p.Pos, "a path of %s does not look at the %s symbols due at this position", rt.name, n)
				}
			}
			c.EachLoop(rt.paths, func(_ []*Loop, l *Loop, _ *Path) {
				w := r.windowOf(l)
				if w == nil {
					return
				}
				for _, p := range c.Exits(rt.paths, l) {
					if p.Kind != "return" && p.Kind != "back" {
						continue
					}
					q, _, pos := r.qhead(l.HeadSt, w)
					next := r.x.NewState().Peek(r.wloc(w, r.wNext))
					f := p.St.F
					c.Ob(f.Entails(tb.Not(tb.Eq(pos, next, true))) || f.Entails(tb.Le(tb.Len(q), tb.Int(0))), "all-due", rt.name+" "+r.role(w), l.Pos,
						"%s can stop while a %s symbol due at this position is still queued", rt.name, r.role(w))
				}
			})
		}
	}
	for _, w := range []string{"encoder", "given", "remote", "local"} {
		c.Ob(nwin[w] > 0, "instances", "window "+w, token.NoPos, "no step over the %s symbols found", w)
	}
	for _, n := range []string{"Sketch.AddHashedSymbol", "Decoder.TryDecode"} {
		c.Ob(nseq[n] > 0, "instances", "sequence "+n, token.NoPos, "no step over the positions of a symbol found in %s", n)
	}
	// every way of giving a symbol ends in one window entry or in the sketch loop
	for _, n := range []string{"Encoder.AddSymbol", "Encoder.AddHashedSymbol", "Decoder.AddSymbol", "Decoder.AddHashedSymbol"} {
		rt := find(rs, n)
		idx := c.lvIndex(rt.paths)
		w := r.windows(rt)["encoder"]
		if w == nil {
			w = r.windows(rt)["given"]
		}
		for _, p := range rt.paths {
			sg := Seg{P: p}
			el, ok := r.listDelta(sg, idx, r.wloc(w, r.wSym))
			if !c.Ob(p.Kind == "return" && ok && len(el) == 1, "given", n, p.Pos, "a path of %s does not store the symbol in the window exactly once", n) {
				continue
			}
			s, h := tb.Field(el[0], r.tHS, r.hsSym), tb.Field(el[0], r.tHS, r.hsHash)
			a := rt.args[1]
			if strings.HasSuffix(n, ".AddSymbol") {
				c.Ob(s == a && h == tb.Hash(a), "given", n, p.Pos, "%s stores {%s, %s}, not the symbol and its hash", n, s, h)
			} else {
				c.Ob(s == tb.Field(a, r.tHS, r.hsSym) && h == tb.Field(a, r.tHS, r.hsHash), "given", n, p.Pos, "%s stores {%s, %s}, not the symbol given", n, s, h)
			}
		}
	}
	for _, n := range []string{"Sketch.AddSymbol", "Sketch.AddHashedSymbol"} {
		rt := find(rs, n)
		for _, p := range rt.paths {
			k := 0
			for _, e := range evs(p, "loop", "") {
				for _, b := range e.Loop.Backs {
					for _, ch := range r.changes(Seg{P: b, From: e.Loop.HeadSt, Loop: e.Loop}) {
						s, h, _, ok := r.delta(ch)
						want := rt.args[1]
						var ws, wh *Term
						if n == "Sketch.AddSymbol" {
							ws, wh = want, tb.Hash(want)
						} else {
							ws, wh = tb.Field(want, r.tHS, r.hsSym), tb.Field(want, r.tHS, r.hsHash)
						}
						c.Ob(ok && s == absint.Undup(ws) && h == wh, "given", n, p.Pos, "%s adds {%s, %s}, not the symbol given and its hash", n, s, h)
						k++
					}
				}
			}
			empty := p.St.F.Entails(tb.Le(tb.Len(rt.args[0]), tb.Int(0)))
			c.Ob(p.Kind == "return" && (k > 0 || empty), "given", n+" path", p.Pos, "a path of %s does not add the symbol", n)
		}
	}
}

// windowStep: one step over the symbols of a window.
func (r *rib) windowStep(c *C, rt *ribRoot, sg Seg, w, s *Term, step *Event) {
	tb := r.x.TB
	where := rt.name + " " + r.role(w)
	q, src, pos := r.qhead(sg.From, w)
	next := r.x.NewState().Peek(r.wloc(w, r.wNext))
	f := sg.P.St.F
	c.Ob(f.Entails(tb.Eq(pos, next, true)), "due", where, step.Pos, "%s applies a queued symbol without its position being known equal to the current one", where)
	sw, si := r.symbolSource(s)
	c.Ob(sw == w && si == src, "due", where+" symbol", step.Pos, "%s applies the symbol %s, not the one at the head of the queue", where, s)
	mp := sg.From.Peek(r.wloc(w, r.wMap))
	m := sg.From.IndexAddr(mp, src, r.tMap)
	c.Ob(step.Args[0] == m, "advance-own", where, step.Pos, "%s advances %s, not the sequence of the symbol applied", where, step.Args[0])
	fix := evs(sg.P, "call", "fixHead")
	if c.Ob(len(fix) == 1, "requeue", where, step.Pos, "a step of %s repairs the queue %d times", where, len(fix)) {
		a := fix[0].Args
		c.Ob(a[0] == q && a[1] == src && a[2] == step.Res, "requeue", where+" entry", fix[0].Pos, "%s requeues symbol %s at position %s, not the applied symbol at its next position", where, a[1], a[2])
	}
	c.Ob(sg.P.St.Peek(r.wloc(w, r.wNext)) == sg.From.Peek(r.wloc(w, r.wNext)), "advance", where+" step", step.Pos, "%s moves the current position while symbols due at it are applied", where)
}

// sequenceStep: one step over the positions of a symbol in a sketch or among the received coded symbols.
func (r *rib) sequenceStep(c *C, rt *ribRoot, sg Seg, ch change, s *Term, step *Event) {
	tb := r.x.TB
	where := rt.name
	m := step.Args[0]
	pa, ia := r.fa(m, r.tMap, r.mPrng), r.fa(m, r.tMap, r.mIdx)
	pos := sg.From.Peek(ia)
	base := ch.base
	if base.Op == "faddr" && base.Args[0].Op == "iaddr" {
		base = base.Args[0]
	}
	if !c.Ob(base.Op == "iaddr" && base.Args[1] == pos, "at-position", where, ch.pos, "%s applies the symbol at %s, not at the position %s of its sequence", where, ch.base, pos) {
		return
	}
	list := base.Args[0]
	if rt.name == "Decoder.TryDecode" {
		loc := r.fa(rt.recv, r.tDec, r.dCS)
		c.Ob(locOfValue(list) == loc || list == r.x.NewState().Peek(loc), "at-position", where+" list", ch.pos, "%s peels from %s, not from the received coded symbols", where, list)
	}
	c.Ob(sg.P.St.F.Entails(tb.Lt(pos, tb.Len(list))), "in-range", where, ch.pos, "%s applies the symbol beyond the last coded symbol", where)
	c.Ob(step.Args[2] == pos && step.Args[1] == sg.From.Peek(pa), "own-sequence", where, step.Pos, "%s does not advance the sequence it follows", where)
	var pv, iv *absint.LVInfo
	for _, v := range sg.Loop.Vars {
		if v.Loc == pa {
			pv = v
		}
		if v.Loc == ia {
			iv = v
		}
	}
	if !c.Ob(pv != nil && iv != nil, "own-sequence", where+" carried", step.Pos, "the sequence of %s is not carried from step to step", where) {
		return
	}
	_, h, _, _ := r.delta(ch)
	c.Ob(pv.Entry == h && iv.Entry == tb.Int(0), "own-sequence", where+" start", step.Pos, "%s starts the sequence at {%s, %s}, not at {hash, 0}", where, pv.Entry, iv.Entry)
	ex := c.Exits(rt.paths, sg.Loop)
	for _, p := range ex {
		if p.Kind != "return" && p.Kind != "back" {
			continue
		}
		c.Ob(p.St.F.Entails(tb.Le(tb.Len(list), pos)), "all-positions", where, sg.Loop.Pos, "%s can stop before the last coded symbol", where)
	}
}

// windowFrame: what a piece of execution does to the windows.
func (r *rib) windowFrame(c *C, rt *ribRoot, sg Seg, idx map[*Term][]lvRec, wins map[string]*Term) {
	tb := r.x.TB
	from := r.start(sg)
	tails := evs(sg.P, "call", "fixTail")
	ntail := 0
	for n, w := range wins {
		where := rt.name + " " + n
		sy, ok1 := r.listDelta(sg, idx, r.wloc(w, r.wSym))
		mp, ok2 := r.listDelta(sg, idx, r.wloc(w, r.wMap))
		qu, ok3 := r.listDelta(sg, idx, r.wloc(w, r.wQ))
		if !c.Ob(ok1 && ok2 && ok3, "window-append", where, sg.P.Pos, "%s changes the %s symbols, their sequences or their queue other than by adding entries", rt.name, n) {
			continue
		}
		if !c.Ob(len(sy) == len(mp) && len(sy) == len(qu) && len(sy) <= 1, "window-lockstep", where, sg.P.Pos,
			"%s adds %d symbols, %d sequences and %d queue entries to the %s window", rt.name, len(sy), len(mp), len(qu), n) {
			continue
		}
		was, is := from.Peek(r.wloc(w, r.wNext)), sg.P.St.Peek(r.wloc(w, r.wNext))
		if sg.Loop == nil && (rt.name == "Encoder.ProduceNextCodedSymbol" || rt.name == "Decoder.AddCodedSymbol") {
			// checked as "advance"
		} else {
			c.Ob(was == is, "advance", where+" frame", sg.P.Pos, "%s changes the position of the %s window", rt.name, n)
		}
		if len(sy) == 0 {
			continue
		}
		ntail++
		p, i := tb.Field(mp[0], r.tMap, r.mPrng), tb.Field(mp[0], r.tMap, r.mIdx)
		k := r.lenBefore(sg, idx, r.wloc(w, r.wSym), from)
		// the three lists grow together, so each has the length of the others
		km, kq := r.lenBefore(sg, idx, r.wloc(w, r.wMap), from), r.lenBefore(sg, idx, r.wloc(w, r.wQ), from)
		hit := false
		for _, e := range tails {
			if (e.Args[1] == k || e.Args[1] == km || e.Args[1] == kq) && e.Args[2] == i {
				hit = true
			}
		}
		c.Ob(hit, "enqueue", where, sg.P.Pos, "%s does not queue the new %s symbol (number %s) at the position %s of its sequence", rt.name, n, k, i)
		if n == "given" || n == "encoder" {
			h := tb.Field(sy[0], r.tHS, r.hsHash)
			c.Ob(p == h && i == tb.Int(0), "start", where, sg.P.Pos, "%s starts the sequence of the symbol at {%s, %s}, not at {hash, 0}", rt.name, p, i)
			continue
		}
		// recovered: continues where the peeling loop stopped
		ok := false
		for _, e := range evs(sg.P, "loop", "") {
			var pv, iv *absint.LVInfo
			for _, v := range e.Loop.Vars {
				if v.LV == p {
					pv = v
				}
				if v.LV == i {
					iv = v
				}
			}
			if pv != nil && iv != nil && pv.Loc != nil && iv.Loc != nil && pv.Loc.Op == "faddr" && iv.Loc.Op == "faddr" && pv.Loc.Args[0] == iv.Loc.Args[0] {
				for _, b := range e.Loop.Backs {
					for _, s := range evs(b, "call", "nextIndex") {
						if s.Args[0] == pv.Loc.Args[0] && len(r.changes(Seg{P: b, From: e.Loop.HeadSt, Loop: e.Loop})) == 1 {
							ok = true
						}
					}
				}
				if ok {
					s := absint.Undup(tb.Field(sy[0], r.tHS, r.hsSym))
					for _, b := range e.Loop.Backs {
						for _, ch := range r.changes(Seg{P: b, From: e.Loop.HeadSt, Loop: e.Loop}) {
							s2, _, _, _ := r.delta(ch)
							if s2 != s {
								ok = false
							}
						}
					}
				}
			}
		}
		c.Ob(ok, "continue", where, sg.P.Pos, "%s does not continue the sequence of the recovered symbol where the received coded symbols end: {%s, %s}", rt.name, p, i)
	}
	if wins != nil {
		c.Ob(len(tails) == ntail, "enqueue", rt.name+" repairs", sg.P.Pos, "%s adds %d queue entries but repairs the queue %d times", rt.name, ntail, len(tails))
	}
	// nothing writes into stored symbols or sequences; queue entries change only at the head of a step
	for _, e := range storesField(sg, r.tHS, r.hsSym) {
		if e.Args[0].Op == "faddr" || pointee(e.Args[0]) != nil {
			c.Fail("overwrite", rt.name+" symbol", e.Pos, "%s overwrites a stored symbol at %s", rt.name, e.Args[0])
		}
	}
	for _, f := range []int{r.mPrng, r.mIdx} {
		for _, e := range storesField(sg, r.tMap, f) {
			c.Fail("overwrite", rt.name+" sequence", e.Pos, "%s overwrites a stored sequence at %s", rt.name, e.Args[0])
		}
	}
	inWin := sg.Loop != nil && r.windowOf(sg.Loop) != nil
	for _, f := range []int{r.smSrc, r.smIdx} {
		for _, e := range storesField(sg, r.tSM, f) {
			c.Ob(inWin, "overwrite", rt.name+" queue", e.Pos, "%s overwrites a queue entry at %s outside a step over due symbols", rt.name, e.Args[0])
		}
	}
}

// lenBefore: the length of the list before the piece's own append.
func (r *rib) lenBefore(sg Seg, idx map[*Term][]lvRec, loc *Term, from *State) *Term {
	v := sg.P.St.Peek(loc)
	if v.Op == "append" {
		return r.x.TB.Len(v.Args[0])
	}
	return r.x.TB.Len(from.Peek(loc))
}

// ---------------------------------------------------------------- decoding

// examined describes the loop of TryDecode over the queue of coded symbols to examine.
type examined struct {
	loop *Loop
	out  []*Path // paths containing it
	elem *Term   // index of the coded symbol examined
	addr *Term   // address of the received symbol
	v    cell
	flag *Term
	mode string // index, front, back
	lv   *absint.LVInfo
}

func (r *rib) exams(c *C, rt *ribRoot) []*examined {
	tb := r.x.TB
	var out []*examined
	idx := c.lvIndex(rt.paths)
	dl := r.fa(rt.recv, r.tDec, r.dDirty)
	cl := r.fa(rt.recv, r.tDec, r.dCS)
	c.EachLoop(rt.paths, func(outer []*Loop, l *Loop, in *Path) {
		if len(outer) > 0 || len(l.Backs) == 0 {
			return
		}
		q := l.HeadSt.Peek(dl)
		e := &examined{loop: l, out: c.Exits(rt.paths, l)}
		var at *Term
		for _, v := range l.Vars {
			if v.LV == q && v.Loc == dl {
				switch b := spine(l.Backs[0], idx, l.Back(l.Backs[0], v), q); b {
				case "front":
					at, e.mode = tb.Int(0), b
				case "back":
					at, e.mode = tb.AddK(tb.Len(q), -1), b
				}
			}
		}
		if at == nil {
			// an index stepping through the queue, used to read it
			for _, v := range l.Vars {
				if v.LV.Typ == nil || !isBasic(types.Int)(v.LV.Typ) {
					continue
				}
				ok := true
				for _, b := range l.Backs {
					if l.Back(b, v) != tb.AddK(v.LV, 1) {
						ok = false
					}
				}
				if ok {
					at, e.mode, e.lv = tb.Sub(v.LV, v.Entry), "index", v
				}
			}
		}
		if at == nil {
			return
		}
		// range loops read position index+1
		e.elem = l.HeadSt.Peek(l.HeadSt.IndexAddr(q, at, types.Typ[types.Int]))
		if e.mode == "index" && tb.LinOf(e.lv.Entry).K.Sign() < 0 {
			// ranging: the first element is entry+1
			at = tb.AddK(e.lv.LV, 1)
			e.elem = l.HeadSt.Peek(l.HeadSt.IndexAddr(q, at, types.Typ[types.Int]))
		}
		cs := l.HeadSt.Peek(cl)
		e.addr = l.HeadSt.IndexAddr(cs, e.elem, r.tRecv)
		e.v = r.cellAt(l.HeadSt, r.fa(e.addr, r.tRecv, r.rCS))
		e.flag = r.fa(e.addr, r.tRecv, r.rDirty)
		out = append(out, e)
	})
	return out
}

// spine classifies how a list lost elements: from the front, the back, or not.
func spine(p *Path, idx map[*Term][]lvRec, v, q *Term) string {
	for n := 0; n < 100 && v != q; n++ {
		if v.Op == "append" {
			v = v.Args[0]
			continue
		}
		moved := false
		for _, x := range idx[v] {
			if !moved && onPath(p, x.l) {
				v, moved = x.v.Entry, true
			}
		}
		if !moved {
			break
		}
	}
	if v.Op == "slice" && v.Args[0] == q {
		if n, ok := numOf(v.Args[1]); ok && n == 1 {
			return "front"
		}
		return "back"
	}
	return ""
}

func (r *rib) refuteEmpty(f *absint.Facts, v cell) bool {
	z := r.x.TB.Int(0)
	return f.ProveNe(v.cnt, z) || f.ProveNe(v.chk, z)
}
func (r *rib) isEmpty(f *absint.Facts, v cell) bool {
	z := r.x.TB.Int(0)
	return f.ProveEq(v.cnt, z) && f.ProveEq(v.chk, z)
}
func (r *rib) inRange(f *absint.Facts, n *Term) bool {
	tb := r.x.TB
	return f.Entails(tb.Le(n, tb.Int(1))) && f.Entails(tb.Le(tb.Int(-1), n))
}
func (r *rib) outOfRange(f *absint.Facts, n *Term) bool {
	tb := r.x.TB
	return f.Entails(tb.Lt(tb.Int(1), n)) || f.Entails(tb.Lt(n, tb.Int(-1))) ||
		f.ProveNe(n, tb.Int(-1)) && f.ProveNe(n, tb.Int(0)) && f.ProveNe(n, tb.Int(1))
}

// recovered: the symbols a piece reports.
func (r *rib) recovered(rt *ribRoot, sg Seg, idx map[*Term][]lvRec) (rem, loc []*Term, ok bool) {
	rem, ok1 := r.listDelta(sg, idx, r.wloc(r.dwin(rt.recv, r.dRem), r.wSym))
	loc, ok2 := r.listDelta(sg, idx, r.wloc(r.dwin(rt.recv, r.dLoc), r.wSym))
	return rem, loc, ok1 && ok2
}

func ruleC04(c *C) {
	r := c.rib()
	if !r.ok {
		return
	}
	tb := r.x.TB
	rs := r.roots()
	if !r.ok {
		return
	}
	nrec := map[string]int{}
	for _, rt := range decoderRoots(rs) {
		if rt.name == "Decoder.Reset" {
			continue
		}
		idx := c.lvIndex(rt.paths)
		ex := r.exams(c, rt)
		byLoop := map[*Loop]*examined{}
		for _, e := range ex {
			byLoop[e.loop] = e
		}
		if rt.name == "Decoder.TryDecode" {
			c.Ob(len(ex) > 0, "instances", "examination", rt.fn.Pos(), "no loop over the queue of coded symbols found in TryDecode")
		}
		for _, sg := range c.Segs(rt.paths) {
			if !complete(sg) {
				continue
			}
			rem, loc, ok := r.recovered(rt, sg, idx)
			if !c.Ob(ok, "lists", rt.name, sg.P.Pos, "%s changes a reported list other than by adding symbols at its end", rt.name) {
				continue
			}
			for _, e := range storesField(sg, r.tHS, r.hsSym) {
				c.Fail("lists", rt.name+" overwrite", e.Pos, "%s overwrites a symbol of a list", rt.name)
			}
			e := byLoop[sg.Loop]
			if !c.Ob(len(rem)+len(loc) == 0 || (rt.name == "Decoder.TryDecode" && e != nil), "lists", rt.name+" outside", sg.P.Pos, "%s reports a symbol without examining a coded symbol", rt.name) {
				continue
			}
			if e == nil {
				continue
			}
			f := sg.P.St.F
			if len(rem)+len(loc) == 0 {
				hash := tb.Hash(e.v.sum)
				bad := f.ProveNe(e.v.chk, hash)
				one := bad || f.ProveNe(e.v.cnt, tb.Int(1))
				neg := bad || f.ProveNe(e.v.cnt, tb.Int(-1))
				c.Ob(one && neg, "complete", rt.name, sg.P.Pos, "an examination can leave a verified coded symbol of count +1 or -1 unrecovered")
				for _, ev := range evs(sg.P, "loop", "") {
					for _, b := range ev.Loop.Backs {
						c.Ob(len(r.changes(Seg{P: b, From: ev.Loop.HeadSt, Loop: ev.Loop})) == 0, "peel-only", rt.name, ev.Loop.Pos, "coded symbols are changed although nothing was recovered")
					}
				}
				continue
			}
			if !c.Ob(len(rem)+len(loc) == 1, "once", rt.name, sg.P.Pos, "one examination reports %d remote and %d local symbols", len(rem), len(loc)) {
				continue
			}
			el, k, side := append(append([]*Term{}, rem...), loc...)[0], int64(1), "remote"
			if len(loc) == 1 {
				k, side = -1, "local"
			}
			nrec[side]++
			s, h := tb.Field(el, r.tHS, r.hsSym), tb.Field(el, r.tHS, r.hsHash)
			c.Ob(absint.Undup(s) == absint.Undup(e.v.sum), "content", rt.name+" "+side, sg.P.Pos, "the %s symbol reported is %s, not the remaining sum", side, s)
			hs := tb.Hash(e.v.sum)
			c.Ob(h == hs || f.ProveEq(h, hs), "content", rt.name+" "+side+" hash", sg.P.Pos, "the %s symbol is reported with the hash %s, not the one verified", side, h)
			c.Ob(f.Entails(tb.Eq(e.v.cnt, tb.Int(k), true)), "count", rt.name+" "+side, sg.P.Pos, "a %s symbol is recovered without the remaining count being known to be %d", side, k)
			c.Ob(f.ProveEq(e.v.chk, hs), "verified", rt.name+" "+side, sg.P.Pos, "a %s symbol is recovered without its hash being known equal to the remaining checksum", side)
			peels := 0
			for _, ev := range evs(sg.P, "loop", "") {
				touched := false
				for _, b := range ev.Loop.Backs {
					for _, ch := range r.changes(Seg{P: b, From: ev.Loop.HeadSt, Loop: ev.Loop}) {
						touched = true
						ps, _, d, ok := r.delta(ch)
						c.Ob(ok && ps == absint.Undup(s) && d == tb.Int(-k), "peel", rt.name+" "+side, ch.pos, "the recovered %s symbol is not what is peeled, or not with the count %d", side, -k)
					}
				}
				if touched {
					peels++
				}
			}
			c.Ob(peels == 1, "peel", rt.name+" "+side+" once", sg.P.Pos, "a recovered %s symbol is peeled from the received coded symbols %d times", side, peels)
		}
	}
	for _, s := range []string{"remote", "local"} {
		c.Ob(nrec[s] > 0, "instances", s, token.NoPos, "no recovery of %s symbols found", s)
	}
	for n, f := range map[string]int{"Decoder.Remote": r.dRem, "Decoder.Local": r.dLoc} {
		rt := find(rs, n)
		for _, p := range rt.paths {
			want := r.x.NewState().Peek(r.wloc(r.dwin(rt.recv, f), r.wSym))
			c.Ob(p.Kind == "return" && len(p.Vals) == 1 && p.Vals[0] == want, "report", n, p.Pos, "%s does not return the list of symbols recovered", n)
		}
	}
	r.sketchDecode(c)
}

// sketchDecode: Sketch.Decode runs a fresh decoder over all coded symbols.
func (r *rib) sketchDecode(c *C) {
	fn := c.Fn("riblt", "Sketch", "Decode")
	if fn == nil {
		return
	}
	x := c.exec()
	res := func(dec *Term, m string) *Term {
		switch m {
		case "Remote":
			return x.FieldAddr(x.FieldAddr(dec, r.tDec, r.dRem), r.tWin, r.wSym)
		case "Local":
			return x.FieldAddr(x.FieldAddr(dec, r.tDec, r.dLoc), r.tWin, r.wSym)
		}
		return x.FieldAddr(dec, r.tDec, r.dPend)
	}
	for _, m := range []string{"AddCodedSymbol", "TryDecode"} {
		m := m
		f := c.Fn("riblt", "Decoder", m)
		if f == nil {
			return
		}
		x.Models[absint.FnKey(f)] = func(st *State, ci *absint.CallInfo) []absint.CallResult {
			e := &Event{Kind: "call", Callee: m, Pos: ci.Pos, Fn: ci.In, Args: ci.Args}
			st.Emit(e)
			if m == "TryDecode" {
				// what it found and whether it is done
				for _, m := range []string{"Remote", "Local", "Decoded"} {
					a := res(ci.Args[0], m)
					st.Store(a, x.TB.MkT(a.Typ.Underlying().(*types.Pointer).Elem(), "res", m, ci.Args[0]), a.Typ.Underlying().(*types.Pointer).Elem())
				}
			}
			return absint.Ret(st, x.TB.Nil())
		}
	}
	s := x.Param("s", fn.Params[0].Type())
	ps := c.Run(x, fn, nil, []*Term{s})
	r.x = x // terms of this analysis from here on
	tb := x.TB
	for _, p := range ps {
		if !c.Ob(p.Kind == "return" && len(p.Vals) == 3, "sketch", "Sketch.Decode", p.Pos, "Sketch.Decode can end without a result") {
			continue
		}
		var dec *Term
		for i, m := range []string{"Remote", "Local", "Decoded"} {
			v := p.Vals[i]
			if m == "Decoded" {
				for _, t := range subterms(v) {
					if t.Op == "res" && t.Aux == m {
						want := tb.Eq(t, tb.Int(0), true)
						if b, k := p.St.F.Value(v); v == want {
							v = t
						} else if w, k2 := p.St.F.Value(want); k && k2 && b == w {
							v = t
						}
						break
					}
				}
			}
			c.Ob(v.Op == "res" && v.Aux == m && (dec == nil || dec == v.Args[0]), "sketch", "Sketch.Decode "+m, p.Pos, "Sketch.Decode does not return what the decoder reports as %s", m)
			if v.Op == "res" {
				dec = v.Args[0]
			}
		}
		if dec == nil {
			continue
		}
		c.Ob(dec.Op == "alloc", "sketch", "Sketch.Decode fresh", p.Pos, "Sketch.Decode does not use a decoder of its own")
		state, fed := 0, false
		for _, e := range p.Events {
			switch {
			case e.Kind == "loop":
				feeds := false
				for _, b := range e.Loop.Backs {
					feeds = feeds || len(evs(b, "call", "AddCodedSymbol")) > 0
				}
				for _, b := range e.Loop.Backs {
					add := evs(b, "call", "AddCodedSymbol")
					if !feeds {
						continue
					}
					fed = true
					ok := len(add) == 1 && add[0].Args[0] == dec && state == 0
					if ok {
						el := add[0].Args[1]
						ok = false
						// the element at the loop's position
						for _, v := range e.Loop.Vars {
							for _, at := range []*Term{v.LV, tb.AddK(v.LV, 1)} {
								if !ok && r.sameElem(e.Loop.HeadSt, s, at, el) && c.covers(e.Loop, b, c.Exits(ps, e.Loop), at, tb.Len(s)) {
									ok = true
								}
							}
						}
					}
					c.Ob(ok, "sketch", "Sketch.Decode feed", e.Loop.Pos, "Sketch.Decode does not feed every coded symbol of the sketch, in order, to its decoder before decoding")
				}
			case e.Kind == "call" && e.Callee == "TryDecode":
				state++
			}
		}
		c.Ob(state == 1, "sketch", "Sketch.Decode decode", p.Pos, "Sketch.Decode runs the decoder %d times", state)
		c.Ob(fed || p.St.F.Entails(tb.Le(tb.Len(s), tb.Int(0))), "sketch", "Sketch.Decode fed", p.Pos, "Sketch.Decode does not feed its decoder")
	}
}

// sameElem: el is the coded symbol at index at of list s.
func (r *rib) sameElem(st *State, s, at, el *Term) bool {
	v := r.cellAt(st, st.IndexAddr(s, at, r.tCS))
	e := r.cellOf(el)
	return v == e
}

func ruleC05(c *C) {
	r := c.rib()
	if !r.ok {
		return
	}
	tb := r.x.TB
	rs := r.roots()
	if !r.ok {
		return
	}
	n := map[string]int{}
	for _, rt := range decoderRoots(rs) {
		if rt.name == "Decoder.Reset" {
			continue
		}
		pl := r.fa(rt.recv, r.tDec, r.dPend)
		idx := c.lvIndex(rt.paths)
		byLoop := map[*Loop]*examined{}
		for _, e := range r.exams(c, rt) {
			byLoop[e.loop] = e
		}
		for _, sg := range c.Segs(rt.paths) {
			if !complete(sg) {
				continue
			}
			// through loops on the piece the counter is the loop's own business
			is := sg.P.St.Peek(pl)
			was := r.start(sg).Peek(pl)
			lin := tb.LinOf(is)
			for _, v := range lin.Vars {
				for _, x := range idx[v] {
					if onPath(sg.P, x.l) {
						is = tb.Add(tb.Sub(is, v), x.v.Entry)
					}
				}
			}
			d, num := numOf(tb.Sub(is, was))
			if !c.Ob(num, "counter", rt.name, sg.P.Pos, "%s changes the number of unresolved coded symbols from %s to %s", rt.name, was, is) {
				continue
			}
			e := byLoop[sg.Loop]
			f := sg.P.St.F
			switch {
			case rt.name == "Decoder.AddCodedSymbol" && sg.Loop == nil:
				el := r.appendedCS(rt, sg.P)
				if !c.Ob(el != nil, "arrival", rt.name, sg.P.Pos, "a path does not store exactly one coded symbol") {
					continue
				}
				v := r.cellOf(tb.Field(el, r.tRecv, r.rCS))
				switch d {
				case 1:
					n["arrive"]++
					c.Ob(r.refuteEmpty(f, v), "arrival", rt.name+" counted", sg.P.Pos, "an arriving coded symbol is counted as unresolved although it may be empty")
				case 0:
					n["arrive-empty"]++
					c.Ob(r.isEmpty(f, v), "arrival", rt.name+" uncounted", sg.P.Pos, "an arriving coded symbol that may not be empty is not counted as unresolved")
				default:
					c.Fail("arrival", rt.name+" amount", sg.P.Pos, "an arrival changes the number of unresolved coded symbols by %d", d)
				}
			case e != nil:
				rem, loc, ok := r.recovered(rt, sg, idx)
				if !c.Ob(ok, "examination", rt.name, sg.P.Pos, "the symbols recovered by an examination cannot be determined") {
					continue
				}
				want := int64(0)
				switch {
				case len(rem)+len(loc) > 0:
					want = -1
					n["recover"]++
				case r.isEmpty(f, e.v):
					want = -1
					n["empty"]++
				default:
					n["nothing"]++
					c.Ob(r.refuteEmpty(f, e.v), "examination", rt.name+" empty", sg.P.Pos, "an examination does not establish whether the coded symbol is empty")
				}
				c.Ob(d == want, "examination", rt.name+" amount", sg.P.Pos, "an examination that recovers %d symbols changes the number of unresolved coded symbols by %d instead of %d", len(rem)+len(loc), d, want)
			default:
				c.Ob(d == 0, "frame", rt.name, sg.P.Pos, "%s changes the number of unresolved coded symbols by %d", rt.name, d)
			}
		}
	}
	for _, k := range []string{"arrive", "arrive-empty", "recover", "empty", "nothing"} {
		c.Ob(n[k] > 0, "instances", k, token.NoPos, "no case of kind %s found", k)
	}
	rt := find(rs, "Decoder.Decoded")
	for _, p := range rt.paths {
		want := tb.Eq(r.x.NewState().Peek(r.fa(rt.recv, r.tDec, r.dPend)), tb.Int(0), true)
		ok := p.Kind == "return" && len(p.Vals) == 1
		if ok && p.Vals[0] != want {
			v, k := p.St.F.Value(p.Vals[0])
			w, k2 := p.St.F.Value(want)
			ok = k && k2 && v == w
		}
		c.Ob(ok, "report", rt.name, p.Pos, "Decoded does not report whether the number of unresolved coded symbols is zero")
	}
}

func ruleC06(c *C) {
	r := c.rib()
	if !r.ok {
		return
	}
	tb := r.x.TB
	rs := r.roots()
	if !r.ok {
		return
	}
	n := map[string]int{}
	for _, rt := range decoderRoots(rs) {
		if rt.name == "Decoder.Reset" {
			continue
		}
		ql := r.fa(rt.recv, r.tDec, r.dDirty)
		cl := r.fa(rt.recv, r.tDec, r.dCS)
		idx := c.lvIndex(rt.paths)
		exs := r.exams(c, rt)
		byLoop := map[*Loop]*examined{}
		for _, e := range exs {
			byLoop[e.loop] = e
		}
		for _, sg := range c.Segs(rt.paths) {
			if !complete(sg) {
				continue
			}
			f := sg.P.St.F
			e := byLoop[sg.Loop]
			was := r.start(sg).Peek(ql)
			if e != nil {
				switch e.mode {
				case "front":
					was = tb.Slice(was, tb.Int(1), tb.Len(was))
				case "back":
					was = tb.Slice(was, tb.Int(0), tb.AddK(tb.Len(was), -1))
				}
			}
			add, ok := accum(sg.P, idx, sg.P.St.Peek(ql), was)
			flags := storesField(sg, r.tRecv, r.rDirty)
			// whole coded symbols stored into a received one do not touch the mark
			var fl []*Event
			for _, x := range flags {
				if t := pointee(x.Args[0]); x.Args[0].Op == "faddr" && t != nil && absint.TypeKey(t) == absint.TypeKey(r.tCS) {
					continue
				}
				// nor do copies stored back with the mark they had
				if t := pointee(x.Args[0]); t != nil && absint.TypeKey(t) == absint.TypeKey(r.tRecv) && len(x.Args) > 1 &&
					tb.Field(x.Args[1], r.tRecv, r.rDirty) == r.start(sg).Peek(r.fa(x.Args[0], r.tRecv, r.rDirty)) {
					continue
				}
				fl = append(fl, x)
			}
			final := rt.name == "Decoder.TryDecode" && sg.Loop == nil
			if final {
				// the whole attempt: the queue is empty afterwards
				after := sg.P.St.Peek(ql)
				c.Ob(f.Entails(tb.Le(tb.Len(after), tb.Int(0))), "emptied", rt.name, sg.P.Pos, "TryDecode can return with queued coded symbols left or queued again")
				seen := false
				for _, x := range exs {
					if onPath(sg.P, x.loop) {
						seen = true
					}
				}
				q0 := r.x.NewState().Peek(ql)
				c.Ob(seen || f.Entails(tb.Le(tb.Len(q0), tb.Int(0))), "visited", rt.name, sg.P.Pos, "a path of TryDecode does not examine the queued coded symbols")
				continue
			}
			if !c.Ob(ok, "queue", rt.name, sg.P.Pos, "%s changes the queue of coded symbols to examine other than by adding to its end", rt.name) {
				continue
			}
			switch {
			case rt.name == "Decoder.AddCodedSymbol" && sg.Loop == nil:
				el := r.appendedCS(rt, sg.P)
				if !c.Ob(el != nil, "arrival", rt.name, sg.P.Pos, "a path does not store exactly one coded symbol") {
					continue
				}
				v := r.cellOf(tb.Field(el, r.tRecv, r.rCS))
				mark := tb.Field(el, r.tRecv, r.rDirty)
				// the mark may be set after the append
				old := r.x.NewState().Peek(cl)
				pos := tb.Len(old)
				for _, x := range fl {
					if x.Args[0].Op == "faddr" && x.Args[0].Args[0].Op == "iaddr" && x.Args[0].Args[0].Args[1] == pos {
						mark = x.Args[1]
					}
				}
				mv, known := f.Value(mark)
				if !c.Ob(known, "arrival", rt.name+" mark", sg.P.Pos, "an arriving coded symbol is marked with %s, which does not follow from what was tested", mark) {
					continue
				}
				if len(add) == 0 {
					n["arrive-unqueued"]++
					c.Ob(!mv, "arrival", rt.name+" mark", sg.P.Pos, "an arriving coded symbol is marked as queued but is not queued")
					c.Ob(r.outOfRange(f, v.cnt) || r.isEmpty(f, v), "arrival", rt.name+" missed", sg.P.Pos, "an arriving coded symbol with a count in -1..+1 may not be queued for examination")
				} else {
					n["arrive-queued"]++
					c.Ob(mv, "arrival", rt.name+" mark", sg.P.Pos, "an arriving coded symbol is queued but not marked")
					c.Ob(len(add) == 1 && add[0] == pos, "arrival", rt.name+" entry", sg.P.Pos, "an arriving coded symbol is queued as %v, not as its own position", add)
					c.Ob(r.inRange(f, v.cnt) && r.refuteEmpty(f, v), "arrival", rt.name+" queued", sg.P.Pos, "an arriving coded symbol is queued although its count may lie outside -1..+1 or it may be empty")
				}
			case e != nil:
				c.Ob(len(add) == 0, "queue", rt.name+" examination", sg.P.Pos, "an examination queues coded symbols other than by peeling")
				mv, known := f.Value(sg.P.St.Peek(e.flag))
				c.Ob(known && !mv, "unmark", rt.name, sg.P.Pos, "a coded symbol can stay marked after its examination")
				lastLoop := -1
				for i, x := range sg.P.Events {
					if x.Kind == "loop" {
						lastLoop = i
					}
				}
				for i, x := range sg.P.Events {
					for _, y := range fl {
						if x == y {
							ok := x.Args[0] == e.flag || sg.P.St.F.ProveEq(x.Args[0], e.flag)
							v, k := f.Value(x.Args[1])
							c.Ob(ok && k && !v && i > lastLoop, "unmark", rt.name+" late", x.Pos, "a mark is changed other than by unmarking the examined coded symbol once its examination is over")
						}
					}
				}
				n["examine"]++
			case rt.name == "Decoder.TryDecode":
				chs := r.changes(sg)
				if len(chs) == 0 {
					c.Ob(len(add) == 0 && len(fl) == 0, "frame", rt.name, sg.P.Pos, "TryDecode queues or marks coded symbols without peeling")
					continue
				}
				if !c.Ob(len(chs) == 1, "peel", rt.name, chs[0].pos, "one step of peeling changes several coded symbols") {
					continue
				}
				b := chs[0].base
				if !c.Ob(b.Op == "faddr" && b.Args[0].Op == "iaddr", "peel", rt.name+" place", chs[0].pos, "peeling changes a coded symbol that is not among the received ones") {
					continue
				}
				fa := r.fa(b.Args[0], r.tRecv, r.rDirty)
				pos := b.Args[0].Args[1]
				om := r.start(sg).Peek(fa)
				nm := sg.P.St.Peek(fa)
				ov, oknown := f.Value(om)
				cnt := chs[0].new.cnt
				if len(add) == 0 {
					n["peel-unqueued"]++
					c.Ob(nm == om && len(fl) == 0, "peel", rt.name+" mark", chs[0].pos, "a peeled coded symbol changes its mark without being queued")
					c.Ob((oknown && ov) || r.outOfRange(f, cnt), "peel", rt.name+" missed", chs[0].pos, "a peeled coded symbol whose count reaches -1..+1 may not be queued for examination")
				} else {
					n["peel-queued"]++
					nv, nk := f.Value(nm)
					c.Ob(nk && nv, "peel", rt.name+" mark", chs[0].pos, "a peeled coded symbol is queued but not marked")
					c.Ob(len(add) == 1 && add[0] == pos, "peel", rt.name+" entry", chs[0].pos, "a peeled coded symbol is queued as %v, not as its own position", add)
					c.Ob(oknown && !ov, "peel", rt.name+" twice", chs[0].pos, "a coded symbol that is already queued may be queued again")
					c.Ob(r.inRange(f, cnt), "peel", rt.name+" queued", chs[0].pos, "a peeled coded symbol is queued although its count may lie outside -1..+1")
				}
			default:
				c.Ob(len(add) == 0 && len(fl) == 0, "frame", rt.name, sg.P.Pos, "%s changes the examination queue or a mark", rt.name)
			}
		}
		for _, e := range exs {
			q := e.loop.HeadSt.Peek(ql)
			switch e.mode {
			case "index":
				at := tb.Sub(e.lv.LV, e.lv.Entry)
				if tb.LinOf(e.lv.Entry).K.Sign() < 0 {
					at = tb.AddK(e.lv.LV, 1)
				}
				for _, b := range e.loop.Backs {
					c.Ob(b.St.F.Entails(tb.Lt(at, tb.Len(q))), "all-queued", rt.name+" guard", e.loop.Pos, "an examination reads beyond the queue")
				}
				for _, p := range e.out {
					c.Ob(p.St.F.Entails(tb.Le(tb.Len(q), at)), "all-queued", rt.name, e.loop.Pos, "TryDecode can stop while coded symbols are still queued (those queued while it runs included)")
				}
				entry := entryOf(e.loop, q)
				c.Ob(entry == r.x.NewState().Peek(ql), "all-queued", rt.name+" start", e.loop.Pos, "TryDecode does not start with the whole queue")
			default:
				for _, p := range e.out {
					c.Ob(p.St.F.Entails(tb.Le(tb.Len(q), tb.Int(0))), "all-queued", rt.name, e.loop.Pos, "TryDecode can stop while coded symbols are still queued")
				}
			}
			n["loop"]++
		}
	}
	for _, k := range []string{"arrive-queued", "arrive-unqueued", "peel-queued", "peel-unqueued", "examine", "loop"} {
		c.Ob(n[k] > 0, "instances", k, token.NoPos, "no case of kind %s found", k)
	}
}

func entryOf(l *Loop, v *Term) *Term {
	if x := l.Var(v); x != nil {
		return x.Entry
	}
	return v
}

func ruleC08(c *C) {
	each([]string{"lt", "iblt", "ldpc"}, ruleAlias)(c)
	r := c.rib()
	if !r.ok {
		return
	}
	rs := r.roots()
	if !r.ok {
		return
	}
	ss, _ := structOf(r.tCS)
	sumKey := absint.FieldKey(ss.Field(r.csSum))
	var isSum func(t *Term, d int) bool
	isSum = func(t *Term, d int) bool {
		if d > 20 {
			return false
		}
		switch t.Op {
		case "zero", "dup", "xorT":
			return true
		case "field":
			return t.Aux == sumKey
		}
		l := locOfValue(t)
		return l != nil && l.Op == "faddr" && l.Aux == sumKey
	}
	n := map[string]int{}
	for _, rt := range rs {
		idx := c.lvIndex(rt.paths)
		for _, sg := range c.Segs(rt.paths) {
			for _, e := range evs(sg.P, "xor", "") {
				n["xor"]++
				c.Ob(isSum(e.Args[0], 0), "receiver", rt.name, e.Pos, "%s lets XOR overwrite %s, which is not the sum of a coded symbol", rt.name, e.Args[0])
			}
			for _, e := range sg.P.Events {
				if e.Kind != "store" {
					continue
				}
				var v *Term
				if e.Args[0].Op == "faddr" && e.Args[0].Aux == sumKey {
					v = e.Args[1]
				} else if t := pointee(e.Args[0]); t != nil && absint.TypeKey(t) == absint.TypeKey(r.tCS) {
					v = r.x.TB.Field(e.Args[1], r.tCS, r.csSum)
				}
				if v != nil {
					n["store"]++
					c.Ob(isSum(v, 0), "sum", rt.name, e.Pos, "%s stores %s itself as the sum of a coded symbol; later XORs would overwrite it", rt.name, v)
				}
			}
			if strings.HasPrefix(rt.name, "Decoder.") && complete(sg) && rt.name != "Decoder.Reset" {
				rem, loc, ok := r.recovered(rt, sg, idx)
				c.Ob(ok, "reported", rt.name, sg.P.Pos, "the symbols reported by %s cannot be determined", rt.name)
				for _, el := range append(append([]*Term{}, rem...), loc...) {
					n["report"]++
					s := r.x.TB.Field(el, r.tHS, r.hsSym)
					c.Ob(s.Op == "dup", "reported", rt.name+" copy", sg.P.Pos, "%s reports %s itself instead of a copy; later peeling would overwrite it", rt.name, s)
				}
			}
		}
	}
	for _, k := range []string{"xor", "store", "report"} {
		c.Ob(n[k] > 0, "instances", k, token.NoPos, "no case of kind %s found", k)
	}
}
