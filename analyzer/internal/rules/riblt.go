package rules

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

// rib holds the resolved anchors of package riblt.
type rib struct {
	c                                      *C
	x                                      *absint.Exec
	tWin, tDec, tCS, tHS, tMap, tSM, tRecv types.Type
	// field indices
	wSym, wMap, wQ, wNext         int
	dCS, dLoc, dWin, dRem, dDirty int
	dPend                         int
	csSum, csCnt, csChk           int
	hsSym, hsHash                 int
	mPrng, mIdx                   int
	smSrc, smIdx                  int
	rCS, rDirty                   int
	nextIndex, fixHead, fixTail   *ssa.Function
	ok                            bool
}

func field(t types.Type, name string, pred func(types.Type) bool) int {
	s, ok := structOf(t)
	if !ok {
		return -1
	}
	cand := -1
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
		if pred != nil && pred(s.Field(i).Type()) {
			if cand >= 0 {
				cand = -2
			} else if cand == -1 {
				cand = i
			}
		}
	}
	if cand >= 0 {
		return cand
	}
	return -1
}

func isBasic(k types.BasicKind) func(types.Type) bool {
	return func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		_, tp := t.(*types.TypeParam)
		return ok && !tp && b.Kind() == k
	}
}

func sliceOf(name string) func(types.Type) bool {
	return func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		n, ok := s.Elem().(*types.Named)
		return ok && n.Obj().Name() == name
	}
}

func elemOf(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func (c *C) rib() *rib {
	r := &rib{c: c, ok: true}
	need := func(ok bool, what string) {
		if !ok {
			r.ok = false
			c.Fail("anchor", "riblt "+what, token.NoPos, "%s of package riblt cannot be resolved", what)
		}
	}
	r.tDec, r.tCS, r.tHS = c.Type("riblt", "Decoder"), c.Type("riblt", "CodedSymbol"), c.Type("riblt", "HashedSymbol")
	enc := c.Type("riblt", "Encoder")
	need(r.tDec != nil && r.tCS != nil && r.tHS != nil && enc != nil, "exported types")
	if !r.ok {
		return r
	}
	r.tWin = c.Type("riblt", "codingWindow")
	if r.tWin == nil {
		r.tWin = enc
	}
	get := func(t types.Type, name string, pred func(types.Type) bool, what string) int {
		i := field(t, name, pred)
		need(i >= 0, what)
		return i
	}
	r.wSym = get(r.tWin, "symbols", sliceOf("HashedSymbol"), "window symbols")
	r.wMap = get(r.tWin, "mappings", sliceOf("randomMapping"), "window mappings")
	r.wQ = get(r.tWin, "queue", nil, "window queue")
	r.wNext = get(r.tWin, "nextIdx", isBasic(types.Int), "window position")
	r.dCS = get(r.tDec, "cs", sliceOf("receivedSymbol"), "received coded symbols")
	r.dLoc = get(r.tDec, "local", nil, "local symbols")
	r.dWin = get(r.tDec, "window", nil, "given symbols")
	r.dRem = get(r.tDec, "remote", nil, "remote symbols")
	r.dDirty = get(r.tDec, "dirty", func(t types.Type) bool { e := elemOf(t); return e != nil && isBasic(types.Int)(e) }, "dirty queue")
	r.dPend = get(r.tDec, "pending", isBasic(types.Int), "pending counter")
	r.csSum = get(r.tCS, "sum", nil, "coded symbol sum")
	r.csCnt = get(r.tCS, "count", isBasic(types.Int64), "coded symbol count")
	r.csChk = get(r.tCS, "checksum", isBasic(types.Uint64), "coded symbol checksum")
	r.hsSym = get(r.tHS, "Symbol", nil, "hashed symbol data")
	r.hsHash = get(r.tHS, "Hash", nil, "hashed symbol hash")
	if !r.ok {
		return r
	}
	ws, _ := structOf(r.tWin)
	ds, _ := structOf(r.tDec)
	r.tMap = elemOf(ws.Field(r.wMap).Type())
	r.tSM = elemOf(ws.Field(r.wQ).Type())
	r.tRecv = elemOf(ds.Field(r.dCS).Type())
	need(r.tMap != nil && r.tSM != nil && r.tRecv != nil, "element types")
	if !r.ok {
		return r
	}
	r.mPrng = get(r.tMap, "prng", nil, "generator state")
	r.mIdx = get(r.tMap, "lastIdx", nil, "generator position")
	r.smSrc = get(r.tSM, "sourceIdx", nil, "queue entry symbol")
	r.smIdx = get(r.tSM, "codedIdx", nil, "queue entry position")
	r.rCS = get(r.tRecv, "CodedSymbol", nil, "received symbol content")
	r.rDirty = get(r.tRecv, "dirty", isBasic(types.Bool), "received symbol mark")
	for _, f := range c.P.Funcs("riblt") {
		rc := f.Signature.Recv()
		if rc == nil || f.Parent() != nil {
			continue
		}
		np, nr := f.Signature.Params().Len(), f.Signature.Results().Len()
		rt := rc.Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		switch {
		case types.Identical(rt, r.tMap) && np == 0 && nr == 1 && isBasic(types.Uint64)(f.Signature.Results().At(0).Type()):
			if r.nextIndex == nil || f.Name() == "nextIndex" {
				r.nextIndex = f
			}
		case np == 0 && nr == 0 && types.Identical(rt, ws.Field(r.wQ).Type()):
			if f.Name() == "fixHead" {
				r.fixHead = f
			}
			if f.Name() == "fixTail" {
				r.fixTail = f
			}
		}
	}
	need(r.nextIndex != nil, "position generator")
	need(r.fixHead != nil && r.fixTail != nil, "heap repair functions")
	if r.ok {
		r.x = c.exec()
		c.X = r.x
		r.models()
	}
	return r
}

// models replaces the position generator and the heap repair functions by their
// contracts, which C03 and C09 decide.
func (r *rib) models() {
	x, tb := r.x, r.x.TB
	x.Models[absint.FnKey(r.nextIndex)] = func(st *State, ci *absint.CallInfo) []absint.CallResult {
		m := ci.Args[0]
		pa, ia := r.fa(m, r.tMap, r.mPrng), r.fa(m, r.tMap, r.mIdx)
		p, i := st.Peek(pa), st.Peek(ia)
		np := tb.MkT(types.Typ[types.Uint64], "call", "next.prng", p)
		ni := tb.MkT(types.Typ[types.Uint64], "call", "next.idx", p, i)
		st.Poke(pa, np)
		st.Poke(ia, ni)
		st.Emit(&Event{Kind: "call", Callee: "nextIndex", Pos: ci.Pos, Fn: ci.In, Args: []*Term{m, p, i}, Res: ni})
		return absint.Ret(st, ni)
	}
	heap := func(name string) absint.Model {
		return func(st *State, ci *absint.CallInfo) []absint.CallResult {
			q := ci.Args[0]
			at := func(i *Term, f int) *Term { return st.Peek(r.fa(st.IndexAddr(q, i, r.tSM), r.tSM, f)) }
			var args []*Term
			if name == "fixHead" {
				args = []*Term{q, at(tb.Int(0), r.smSrc), at(tb.Int(0), r.smIdx)}
			} else {
				l := tb.AddK(tb.Len(q), -1)
				args = []*Term{q, at(l, r.smSrc), at(l, r.smIdx)}
			}
			for _, f := range []int{r.smSrc, r.smIdx} {
				a := r.fa(st.IndexAddr(q, tb.Any(), r.tSM), r.tSM, f)
				st.Havoc(a)
			}
			st.Emit(&Event{Kind: "call", Callee: name, Pos: ci.Pos, Fn: ci.In, Args: args})
			return absint.Ret(st, tb.Nil())
		}
	}
	x.Models[absint.FnKey(r.fixHead)] = heap("fixHead")
	x.Models[absint.FnKey(r.fixTail)] = heap("fixTail")
}

func (r *rib) fa(base *Term, t types.Type, i int) *Term { return r.x.FieldAddr(base, t, i) }

// roots are the functions of the package that users can call.
func (c *C) exportedRoots(rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.P.Funcs(rel) {
		if f.Parent() == nil && f.Object() != nil && f.Object().Exported() {
			out = append(out, f)
		}
	}
	return out
}

// cells of coded symbols ---------------------------------------------------

type cell struct{ sum, cnt, chk *Term }

// change is one modification of a coded symbol in a segment.
type change struct {
	seg      Seg
	base     *Term // address of the coded symbol, or the loop variable holding it
	old, new cell
	pos      token.Pos
}

func (r *rib) cellOf(v *Term) cell {
	tb := r.x.TB
	return cell{tb.Field(v, r.tCS, r.csSum), tb.Field(v, r.tCS, r.csCnt), tb.Field(v, r.tCS, r.csChk)}
}

func (r *rib) cellAt(st *State, base *Term) cell {
	return cell{st.Peek(r.fa(base, r.tCS, r.csSum)), st.Peek(r.fa(base, r.tCS, r.csCnt)), st.Peek(r.fa(base, r.tCS, r.csChk))}
}

func isAlloc(t *Term) bool {
	for t.Op == "faddr" || t.Op == "iaddr" {
		t = t.Args[0]
	}
	return t.Op == "alloc"
}

// changes lists every coded symbol changed by a segment (not by loops inside it).
func (r *rib) changes(s Seg) []change {
	var out []change
	if s.Loop != nil {
		for _, v := range s.Loop.Vars {
			if v.Phi != nil && v.LV.Typ != nil && absint.TypeKey(v.LV.Typ) == absint.TypeKey(r.tCS) {
				n := s.Loop.Back(s.P, v)
				if n != v.LV {
					out = append(out, change{s, v.LV, r.cellOf(v.LV), r.cellOf(n), s.Loop.Pos})
				}
			}
		}
	}
	seen := map[*Term]bool{}
	fields := map[string]bool{}
	ss, _ := structOf(r.tCS)
	for i := 0; i < ss.NumFields(); i++ {
		fields[absint.FieldKey(ss.Field(i))] = true
	}
	var bases []*Term
	poss := map[*Term]token.Pos{}
	add := func(b *Term, pos token.Pos) {
		if !seen[b] {
			seen[b] = true
			bases = append(bases, b)
			poss[b] = pos
		}
	}
	var visit func(a *Term, pos token.Pos, t types.Type)
	visit = func(a *Term, pos token.Pos, t types.Type) {
		if a.Op == "faddr" && fields[a.Aux] {
			add(a.Args[0], pos)
			return
		}
		if t == nil {
			return
		}
		if absint.TypeKey(t) == absint.TypeKey(r.tCS) {
			add(a, pos)
			return
		}
		if st, ok := t.Underlying().(*types.Struct); ok && absint.Decomposable(t) {
			for i := 0; i < st.NumFields(); i++ {
				visit(r.fa(a, t, i), pos, st.Field(i).Type())
			}
		}
	}
	for _, e := range s.P.Events {
		if e.Kind == "store" {
			var t types.Type
			if e.Args[0].Typ != nil {
				if p, ok := e.Args[0].Typ.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
			}
			visit(e.Args[0], e.Pos, t)
		}
	}
	for _, b := range bases {
		if isAlloc(b) {
			// a temporary: relevant only if the loop carries it
			carried := false
			if s.Loop != nil {
				for _, v := range s.Loop.Vars {
					if v.Loc != nil && v.Loc.Op == "faddr" && v.Loc.Args[0] == b {
						carried = true
					}
				}
			}
			if !carried {
				continue
			}
		}
		from := s.From
		if from == nil {
			from = r.x.NewState()
		}
		o, n := r.cellAt(from, b), r.cellAt(s.P.St, b)
		if o != n {
			out = append(out, change{s, b, o, n, poss[b]})
		}
	}
	return out
}

// delta splits a change into the symbol, hash and count it adds; ok is false
// when the change is not of that form.
func (r *rib) delta(ch change) (s, h, d *Term, ok bool) {
	diff := func(a, b *Term, op string) []*Term {
		m := map[*Term]int{}
		for _, t := range absint.XorArgs(a, op) {
			m[absint.Undup(t)]++
		}
		for _, t := range absint.XorArgs(b, op) {
			m[absint.Undup(t)]++
		}
		var out []*Term
		for t, n := range m {
			if n%2 == 1 {
				out = append(out, t)
			}
		}
		return out
	}
	ds, dh := diff(ch.old.sum, ch.new.sum, "xorT"), diff(ch.old.chk, ch.new.chk, "xor")
	if len(ds) != 1 || len(dh) != 1 {
		return nil, nil, nil, false
	}
	return ds[0], dh[0], r.x.TB.Sub(ch.new.cnt, ch.old.cnt), true
}

// hashedAddr: the address of the hashed symbol a pair of loads comes from.
func (r *rib) sameHashed(s, h *Term) bool {
	if h.Op == "hash" && absint.Undup(h.Args[0]) == s {
		return true
	}
	loc := func(t *Term) *Term {
		if t.Op == "load" {
			return t.Args[0]
		}
		if t.Op == "lv" {
			if l, ok := t.Obj.(*Term); ok {
				return l
			}
		}
		return nil
	}
	a, b := loc(s), loc(h)
	hs, _ := structOf(r.tHS)
	ks, kh := absint.FieldKey(hs.Field(r.hsSym)), absint.FieldKey(hs.Field(r.hsHash))
	if a != nil && b != nil {
		return a.Op == "faddr" && b.Op == "faddr" && a.Aux == ks && b.Aux == kh && a.Args[0] == b.Args[0]
	}
	return s.Op == "field" && h.Op == "field" && s.Aux == ks && h.Aux == kh && s.Args[0] == h.Args[0]
}

// symbolSource: for a symbol read out of a window, the window's address and the index.
func (r *rib) symbolSource(s *Term) (win, idx *Term) {
	t := s
	if t.Op == "lv" {
		if l, ok := t.Obj.(*Term); ok {
			t = r.x.TB.Mk("load", "", l)
		}
	}
	if t.Op != "load" || t.Args[0].Op != "faddr" || t.Args[0].Args[0].Op != "iaddr" {
		return nil, nil
	}
	ia := t.Args[0].Args[0]
	sl := locOfValue(ia.Args[0])
	ws, _ := structOf(r.tWin)
	if sl == nil || sl.Op != "faddr" || sl.Aux != absint.FieldKey(ws.Field(r.wSym)) {
		return nil, nil
	}
	return sl.Args[0], ia.Args[1]
}

// locOfValue is the location a value was read from (through loop generalisation and slicing).
func locOfValue(t *Term) *Term {
	switch t.Op {
	case "load":
		return t.Args[0]
	case "lv":
		if l, ok := t.Obj.(*Term); ok {
			return l
		}
	case "append", "appendsl", "slice":
		return locOfValue(t.Args[0])
	}
	return nil
}

// role names the coding window at an address: "encoder", "given", "remote", "local".
func (r *rib) role(win *Term) string {
	if win == nil {
		return ""
	}
	if win.Op == "faddr" {
		ds, _ := structOf(r.tDec)
		for i, n := range map[int]string{r.dWin: "given", r.dRem: "remote", r.dLoc: "local"} {
			if win.Aux == absint.FieldKey(ds.Field(i)) {
				return n
			}
		}
		return ""
	}
	return "encoder"
}
