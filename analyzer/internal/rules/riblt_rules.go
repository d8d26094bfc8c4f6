package rules

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

type ribRoot struct {
	fn    *ssa.Function
	name  string // Type.Method
	recv  *Term
	args  []*Term
	paths []*Path
}

// roots analyses every exported function of riblt.
func (r *rib) roots() []*ribRoot {
	var out []*ribRoot
	for _, f := range r.c.exportedRoots("riblt") {
		rt := &ribRoot{fn: f, name: f.Name()}
		if rc := f.Signature.Recv(); rc != nil {
			t := rc.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				rt.name = n.Obj().Name() + "." + f.Name()
				if !n.Obj().Exported() {
					continue
				}
			}
		}
		for _, p := range f.Params {
			rt.args = append(rt.args, r.x.Param(p.Name(), p.Type()))
		}
		if f.Signature.Recv() != nil && len(rt.args) > 0 {
			rt.recv = rt.args[0]
		}
		rt.paths = r.c.Run(r.x, f, nil, rt.args)
		out = append(out, rt)
	}
	for _, want := range []string{"Encoder.AddSymbol", "Encoder.AddHashedSymbol", "Encoder.ProduceNextCodedSymbol", "Encoder.Reset",
		"Sketch.AddHashedSymbol", "Sketch.AddSymbol", "Sketch.Subtract", "Sketch.Decode", "Decoder.Decoded", "Decoder.Local", "Decoder.Remote",
		"Decoder.AddSymbol", "Decoder.AddHashedSymbol", "Decoder.AddCodedSymbol", "Decoder.TryDecode", "Decoder.Reset"} {
		if find(out, want) == nil {
			r.c.Fail("anchor", "riblt."+want, token.NoPos, "exported function %s of package riblt not found", want)
			r.ok = false
		}
	}
	return out
}

func find(rs []*ribRoot, name string) *ribRoot {
	for _, x := range rs {
		if x.name == name {
			return x
		}
	}
	return nil
}

// lvIndex maps loop variables to their loop and record.
type lvRec struct {
	l *Loop
	v *absint.LVInfo
}

func (c *C) lvIndex(ps []*Path) map[*Term][]lvRec {
	m := map[*Term][]lvRec{}
	c.EachLoop(ps, func(_ []*Loop, l *Loop, _ *Path) {
		for _, v := range l.Vars {
			m[v.LV] = append(m[v.LV], lvRec{l, v})
		}
	})
	return m
}

// onPath reports whether loop l is summarised directly on path p.
func onPath(p *Path, l *Loop) bool {
	for _, e := range p.Events {
		if e.Kind == "loop" && e.Loop == l {
			return true
		}
	}
	return false
}

// chain walks a coded-symbol value back through the loops that updated it.
// It returns the loops passed and the original value.
func (r *rib) chain(p *Path, idx map[*Term][]lvRec, v cell) ([]*Loop, cell) {
	var loops []*Loop
	for n := 0; n < 50; n++ {
		one := func(t *Term) *lvRec {
			// a field of a loop variable holding a whole coded symbol
			b := t
			for b.Op == "field" {
				b = b.Args[0]
			}
			for _, x := range idx[b] {
				if onPath(p, x.l) {
					y := x
					return &y
				}
			}
			return nil
		}
		entry := func(t *Term, x *lvRec, f int) *Term {
			if t.Op == "field" {
				return r.x.TB.Field(x.v.Entry, r.tCS, f)
			}
			return x.v.Entry
		}
		a, b, c := one(v.sum), one(v.cnt), one(v.chk)
		if a == nil || b == nil || c == nil || a.l != b.l || b.l != c.l {
			return loops, v
		}
		loops = append(loops, a.l)
		v = cell{entry(v.sum, a, r.csSum), entry(v.cnt, b, r.csCnt), entry(v.chk, c, r.csChk)}
	}
	return loops, v
}

func (r *rib) isZeroCell(v cell) bool {
	z := r.x.TB.Int(0)
	return v.sum.Op == "zero" && v.cnt == z && v.chk == z
}

// windowOf: the window whose symbols a loop applies (through its position steps).
func (r *rib) windowOf(l *Loop) *Term {
	ws, _ := structOf(r.tWin)
	for _, b := range l.Backs {
		for _, e := range evs(b, "call", "nextIndex") {
			if m := e.Args[0]; m.Op == "iaddr" {
				if loc := locOfValue(m.Args[0]); loc != nil && loc.Op == "faddr" && loc.Aux == absint.FieldKey(ws.Field(r.wMap)) {
					return loc.Args[0]
				}
			}
		}
	}
	return nil
}

func init() {
	register(&Rule{ID: "C01", Pkgs: []string{"riblt"}, MinObl: 30, Run: ruleC01,
		What: "every change of a coded symbol on every path and loop iteration of the riblt API is an addition or removal of one hashed symbol (sum, count and checksum together) with the direction the operation requires, or the position-wise difference of two sketches of equal length"})
	register(&Rule{ID: "C02", Pkgs: []string{"riblt"}, MinObl: 60, Run: ruleC02,
		What: "window, sketch and peeling loops follow the generator from {hash,0}, one application per step, guarded by position equality or range; each coded symbol advances every window once; recovered symbols continue where the received ones end"})
	register(&Rule{ID: "C04", Pkgs: []string{"riblt"}, MinObl: 20, Run: ruleC04,
		What: "symbols are appended to the reported lists only on iterations whose facts establish count +1/-1 and checksum equal to the hash of the sum, on the matching side, with that content; all other paths leave the lists alone"})
	register(&Rule{ID: "C05", Pkgs: []string{"riblt"}, MinObl: 20, Run: ruleC05,
		What: "the pending counter changes by exactly +1 for a non-empty arrival and -1 for a recovery or an examined empty symbol on every path, and completion is reported as counter equal to zero"})
	register(&Rule{ID: "C06", Pkgs: []string{"riblt"}, MinObl: 30, Run: ruleC06,
		What: "a coded symbol is marked and queued exactly when its count enters -1..+1 unmarked; the decoding loop visits every queue position and unmarks each symbol after its examination"})
	register(&Rule{ID: "C08", Pkgs: []string{"riblt", "lt", "iblt", "ldpc"}, MinObl: 20, Run: ruleC08,
		What: "receivers of the overwriting XOR are empty values or sums; symbols stored or reported are duplicates of sums; sums never hold a caller's value itself; new transactions copy their data"})
}

func ruleC01(c *C) {
	r := c.rib()
	if !r.ok {
		return
	}
	tb := r.x.TB
	rs := r.roots()
	if !r.ok {
		return
	}
	kinds := map[string]int{}
	for _, rt := range rs {
		idx := c.lvIndex(rt.paths)
		_ = idx
		for _, sg := range c.Segs(rt.paths) {
			for _, ch := range r.changes(sg) {
				if rt.name == "Decoder.Reset" || rt.name == "Encoder.Reset" {
					continue
				}
				where := rt.name
				if r.isSubtraction(ch) {
					kinds["subtract"]++
					c.Ob(rt.name == "Sketch.Subtract", "linear", where, ch.pos, "%s combines two coded symbols", where)
					continue
				}
				s, h, d, ok := r.delta(ch)
				if !c.Ob(ok, "linear", where, ch.pos, "%s changes a coded symbol other than by adding or removing one symbol: {%s, %s, %s} becomes {%s, %s, %s}",
					where, ch.old.sum, ch.old.cnt, ch.old.chk, ch.new.sum, ch.new.cnt, ch.new.chk) {
					continue
				}
				c.Ob(r.sameHashed(s, h), "own-hash", where, ch.pos, "%s applies symbol %s with the hash %s, which is not its own", where, s, h)
				want := int64(0)
				win, _ := r.symbolSource(s)
				switch role := r.role(win); {
				case role == "given" || role == "remote":
					want = -1
					kinds[role]++
				case role == "local" || role == "encoder":
					want = 1
					kinds[role]++
				case rt.name == "Sketch.AddHashedSymbol" || rt.name == "Sketch.AddSymbol":
					want = 1
					kinds["sketch"]++
				case rt.name == "Decoder.TryDecode" || rt.name == "Sketch.Decode":
					k := r.recoveredSign(sg, s)
					want = -k
					kinds["peel"]++
				}
				if want == 0 {
					c.Fail("direction", where, ch.pos, "%s applies the symbol %s, which is neither a window symbol, nor given, nor recovered from a verified coded symbol", where, s)
					continue
				}
				c.Ob(d == tb.Int(want), "direction", where+" "+r.role(win), ch.pos, "%s changes the count by %s where it must change by %d", where, d, want)
			}
		}
	}
	for _, k := range []string{"given", "remote", "local", "encoder", "sketch", "peel", "subtract"} {
		c.Ob(kinds[k] > 0, "instances", k, token.NoPos, "no place was found where %s symbols change a coded symbol", k)
	}
	// the encoder starts from the empty coded symbol and returns the accumulated one
	if rt := find(rs, "Encoder.ProduceNextCodedSymbol"); rt != nil {
		idx := c.lvIndex(rt.paths)
		for _, p := range rt.paths {
			if p.Kind != "return" || len(p.Vals) != 1 {
				c.Fail("produce", rt.name, p.Pos, "a path does not return a coded symbol")
				continue
			}
			loops, base := r.chain(p, idx, r.cellOf(p.Vals[0]))
			_ = loops
			c.Ob(r.isZeroCell(base), "produce", rt.name, p.Pos, "the coded symbol returned is not accumulated from the empty one: {%s, %s, %s}", base.sum, base.cnt, base.chk)
		}
	}
	// the decoder keeps the received symbol after peeling
	if rt := find(rs, "Decoder.AddCodedSymbol"); rt != nil {
		idx := c.lvIndex(rt.paths)
		for _, p := range rt.paths {
			el := r.appendedCS(rt, p)
			if el == nil {
				c.Fail("receive", rt.name, p.Pos, "a path of %s does not append exactly one coded symbol", rt.name)
				continue
			}
			_, base := r.chain(p, idx, r.cellOf(r.x.TB.Field(el, r.tRecv, r.rCS)))
			want := r.cellOf(rt.args[1])
			c.Ob(base == want, "receive", rt.name, p.Pos, "the stored coded symbol is not the received one after peeling")
		}
	}
	// subtraction covers all positions of equally long sketches
	if rt := find(rs, "Sketch.Subtract"); rt != nil {
		s1, s2 := rt.args[0], rt.args[1]
		l1, l2 := tb.Len(s1), tb.Len(s2)
		n := 0
		for _, p := range rt.paths {
			if p.Kind != "return" {
				continue
			}
			c.Ob(p.St.F.Entails(tb.Eq(l1, l2, true)), "same-length", rt.name, p.Pos, "Subtract combines sketches of different lengths")
			c.Ob(len(p.Vals) == 1 && p.Vals[0] == s1, "result", rt.name, p.Pos, "Subtract does not return its receiver")
			for _, e := range evs(p, "loop", "") {
				if len(e.Loop.Backs) == 0 {
					continue
				}
				n++
				r.subtractLoop(c, rt, e.Loop, p, s1, s2)
			}
			ok := len(evs(p, "loop", "")) > 0 || p.St.F.Entails(tb.Le(l1, tb.Int(0)))
			c.Ob(ok, "covers", rt.name, p.Pos, "a return of Subtract does not go through the subtraction of the positions")
		}
		c.Ob(n > 0, "covers", rt.name, rt.fn.Pos(), "no loop over the positions found in Subtract")
		bad := false
		for _, p := range rt.paths {
			if p.Kind == "panic" && p.St.F.Entails(tb.Eq(l1, l2, true)) {
				bad = true
			}
		}
		c.Ob(!bad, "same-length", rt.name+" panic", rt.fn.Pos(), "Subtract refuses sketches of equal length")
	}
}

func (r *rib) subtractLoop(c *C, rt *ribRoot, l *Loop, p *Path, s1, s2 *Term) {
	tb := r.x.TB
	for _, b := range l.Backs {
		chs := r.changes(Seg{P: b, From: l.HeadSt, Loop: l})
		if !c.Ob(len(chs) == 1, "covers", rt.name, l.Pos, "one step of Subtract changes %d coded symbols", len(chs)) {
			continue
		}
		base := chs[0].base
		if !c.Ob(base.Op == "iaddr" && base.Args[0] == s1, "covers", rt.name, l.Pos, "Subtract changes something else than a position of its receiver") {
			continue
		}
		c.Ob(c.covers(l, b, []*Path{p}, base.Args[1], tb.Len(s1)), "covers", rt.name, l.Pos, "the loop of Subtract does not visit every position exactly once")
		other := r.cellAt(l.HeadSt, l.HeadSt.IndexAddr(s2, base.Args[1], r.tCS))
		s, h, d, _ := r.delta(chs[0])
		c.Ob(s == absint.Undup(other.sum) && h == other.chk && d == tb.Sub(tb.Int(0), other.cnt), "position-wise", rt.name, l.Pos, "Subtract does not combine equal positions: sum %s, checksum %s, count %s", s, h, d)
	}
}

// covers: over the iterations of loop l the index takes every value of [0,n)
// exactly once (upwards or downwards), and the loop is left only at the end.
func (c *C) covers(l *Loop, b *Path, exits []*Path, idx, n *Term) bool {
	tb := c.X.TB
	lin := tb.LinOf(idx)
	// the loop variable, or the length of a list that the loop changes
	var cur, entry, back *Term
	for i, v := range lin.Vars {
		r, of := l.Var(v), func(t *Term) *Term { return t }
		if v.Op == "len" {
			r, of = l.Var(v.Args[0]), tb.Len
		}
		if r == nil {
			continue
		}
		if cur != nil || lin.Coef[i].Num().Int64() != 1 || !lin.Coef[i].IsInt() {
			return false
		}
		cur, entry, back = v, of(r.Entry), of(l.Back(b, r))
	}
	if cur == nil {
		return false
	}
	step := tb.Sub(back, cur)
	// start and bound do not change in the loop, so the facts after it apply
	same := func(x, y *Term) bool {
		if x == y || b.St.F.ProveEq(x, y) {
			return true
		}
		for _, p := range exits {
			if (p.Kind == "return" || p.Kind == "back") && !p.St.F.ProveEq(x, y) {
				return false
			}
		}
		return len(exits) > 0
	}
	first := tb.Add(tb.Sub(idx, cur), entry)
	if step == tb.Int(1) {
		if !same(first, tb.Int(0)) {
			return false
		}
		if !b.St.F.Entails(tb.Lt(idx, n)) {
			return false
		}
		for _, p := range exits {
			if p.Kind != "return" && p.Kind != "back" {
				continue
			}
			if !p.St.F.Entails(tb.Le(n, idx)) {
				return false
			}
		}
		return len(exits) > 0
	}
	if step == tb.Int(-1) {
		if !same(first, tb.AddK(n, -1)) {
			return false
		}
		if !b.St.F.Entails(tb.Le(tb.Int(0), idx)) {
			return false
		}
		for _, p := range exits {
			if p.Kind != "return" && p.Kind != "back" {
				continue
			}
			if !p.St.F.Entails(tb.Lt(idx, tb.Int(0))) {
				return false
			}
		}
		return len(exits) > 0
	}
	return false
}

// isSubtraction: the change adds the sum and checksum and subtracts the count of another coded symbol.
func (r *rib) isSubtraction(ch change) bool {
	s, h, d, ok := r.delta(ch)
	if !ok {
		return false
	}
	ss, _ := structOf(r.tCS)
	if s.Op != "load" || h.Op != "load" || s.Args[0].Op != "faddr" || h.Args[0].Op != "faddr" {
		return false
	}
	b := s.Args[0].Args[0]
	if s.Args[0].Aux != absint.FieldKey(ss.Field(r.csSum)) || h.Args[0].Aux != absint.FieldKey(ss.Field(r.csChk)) || h.Args[0].Args[0] != b {
		return false
	}
	_, isnum := numOf(d)
	return !isnum
}

func numOf(t *Term) (int64, bool) {
	if t.Op == "num" && t.Num.IsInt() && t.Num.Num().IsInt64() {
		return t.Num.Num().Int64(), true
	}
	return 0, false
}

// recoveredSign: s is (a copy of) the sum of a coded symbol whose count is known
// to be +1 or -1 in the segment; the result is that count, or 0.
func (r *rib) recoveredSign(sg Seg, s *Term) int64 {
	tb := r.x.TB
	v, _, ok := r.cellWithSum(sg, s)
	if !ok {
		return 0
	}
	f := sg.P.St.F
	if f.Entails(tb.Eq(v.cnt, tb.Int(1), true)) {
		return 1
	}
	if f.Entails(tb.Eq(v.cnt, tb.Int(-1), true)) {
		return -1
	}
	return 0
}

// cellWithSum: the content of the coded symbol s was read from, at the time s
// was read (the start of the segment or of a loop around it).
func (r *rib) cellWithSum(sg Seg, s *Term) (cell, *Term, bool) {
	s = absint.Undup(s)
	loc := locOfValue(s)
	ss, _ := structOf(r.tCS)
	if loc == nil || loc.Op != "faddr" || loc.Aux != absint.FieldKey(ss.Field(r.csSum)) {
		return cell{}, nil, false
	}
	base := loc.Args[0]
	var sts []*State
	if sg.From != nil {
		sts = append(sts, sg.From)
	}
	for _, l := range sg.Outer {
		sts = append(sts, l.HeadSt)
	}
	sts = append(sts, r.x.NewState())
	for _, st := range sts {
		if v := r.cellAt(st, base); v.sum == s {
			return v, base, true
		}
	}
	return cell{}, nil, false
}

// appendedCS: the single element appended to the received coded symbols on a path.
func (r *rib) appendedCS(rt *ribRoot, p *Path) *Term {
	loc := r.fa(rt.recv, r.tDec, r.dCS)
	old := r.x.NewState().Peek(loc)
	n := p.St.Peek(loc)
	if n.Op == "append" && len(n.Args) == 2 && n.Args[0] == old {
		return n.Args[1]
	}
	return nil
}
