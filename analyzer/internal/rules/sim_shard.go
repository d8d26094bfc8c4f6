package rules

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

// ---------------------------------------------------------------- C32, C33

const (
	rEncReset = "(*riblt.Encoder).Reset"
	rEncAdd   = "(*riblt.Encoder).AddHashedSymbol"
	rEncProd  = "(*riblt.Encoder).ProduceNextCodedSymbol"
	rDecReset = "(*riblt.Decoder).Reset"
	rDecAdd   = "(*riblt.Decoder).AddHashedSymbol"
	rDecCoded = "(*riblt.Decoder).AddCodedSymbol"
	rDecTry   = "(*riblt.Decoder).TryDecode"
	rDecDone  = "(*riblt.Decoder).Decoded"
	rDecLocal = "(*riblt.Decoder).Local"
	rDecRem   = "(*riblt.Decoder).Remote"
)

// shard decides the block protocol of the shard simulator.
type shard struct {
	*simp
	proto  bool // C32: the protocol; otherwise C33: the shards
	tS, tR types.Type
	tCw    types.Type
	tA     types.Type
	// sender
	fBuf, fWin, fFly, fEnc, fOut, fSched, fRnd, fNext int
	// receiver
	rBuf, rRec, rRnd, rOut int
	// messages
	cCw, cNew, cStart, cEnd int
	aBlk, aStart, aTxs      int
	resets, sent, bounds    int
	moves                   int
}

// prot records an obligation of the protocol property.
func (h *shard) prot(ok bool, rule, construct string, pos token.Pos, format string, args ...any) bool {
	if !h.proto {
		return ok
	}
	return h.c.Ob(ok, rule, construct, pos, format, args...)
}

// part records an obligation of the property on shards.
func (h *shard) part(ok bool, rule, construct string, pos token.Pos, format string, args ...any) bool {
	if h.proto {
		return ok
	}
	return h.c.Ob(ok, rule, construct, pos, format, args...)
}

func ruleC32(c *C) { shardRules(c, true) }
func ruleC33(c *C) { shardRules(c, false) }

func shardRules(c *C, proto bool) {
	s := c.sim("newsim")
	h := &shard{simp: s, proto: proto}
	h.tS, h.tR = c.Type("newsim", "sender"), c.Type("newsim", "receiver")
	h.tCw, h.tA = c.Type("newsim", "codeword"), c.Type("newsim", "ack")
	isInt := func(t types.Type) bool { return isBasicInt(t) }
	isU64 := isBasic(types.Uint64)
	h.fBuf = s.need(h.tS, "sender's buffer", "buffer", isSliceT)
	h.fWin = s.need(h.tS, "sender's window", "sendWindow", nil)
	h.fFly = s.need(h.tS, "symbols in flight", "inFlight", isInt)
	h.fEnc = s.need(h.tS, "block being sent", "encodingCurrentBlock", nil)
	h.fOut = s.need(h.tS, "sender's queue", "outbox", isSliceT)
	h.fSched = s.need(h.tS, "schedule", "shardSchedule", isSliceT)
	h.fRnd = s.need(h.tS, "sender's randomizer", "shardRandomizer", isU64)
	h.fNext = s.need(h.tS, "next shard", "nextShard", isInt)
	h.rBuf = s.need(h.tR, "receiver's buffer", "buffer", isSliceT)
	h.rRec = s.need(h.tR, "block received", "currentBlockReceived", nil)
	h.rRnd = s.need(h.tR, "receiver's randomizer", "shardRandomizer", isU64)
	h.rOut = s.need(h.tR, "receiver's queue", "outbox", isSliceT)
	h.cCw = s.need(h.tCw, "coded symbol in a message", "CodedSymbol", nil)
	h.cNew = s.need(h.tCw, "start of a block in a message", "newBlock", nil)
	h.cStart = s.need(h.tCw, "start of the shard in a message", "startHash", isU64)
	h.cEnd = s.need(h.tCw, "end of the shard in a message", "endHash", isU64)
	h.aBlk = s.need(h.tA, "end of a block in an acknowledgement", "ackBlock", nil)
	h.aStart = s.need(h.tA, "start of a block in an acknowledgement", "ackStart", nil)
	h.aTxs = s.need(h.tA, "transactions in an acknowledgement", "txs", isSliceT)
	for _, i := range []int{h.fBuf, h.fWin, h.fFly, h.fEnc, h.fOut, h.fSched, h.fRnd, h.fNext, h.rBuf, h.rRec, h.rRnd, h.rOut, h.cCw, h.cNew, h.cStart, h.cEnd, h.aBlk, h.aStart, h.aTxs} {
		if i < 0 {
			return
		}
	}
	tC := c.Type("newsim", "coding")
	cS, cR := s.need(tC, "sender of a link", "sender", nil), s.need(tC, "receiver of a link", "receiver", nil)
	if cS < 0 || cR < 0 {
		return
	}
	var roots []*ltRoot
	tb := s.x.TB
	for _, nm := range []string{"onAck", "onTransaction"} {
		if rt := h.sender(nm); rt != nil {
			roots = append(roots, rt)
		}
	}
	c.Ob(h.resets > 0 && h.sent > 0, "instances", "sender", token.NoPos, "the sender never starts a block or never sends")
	for _, nm := range []string{"onCodeword", "onTransaction"} {
		if rt := h.receiver(nm); rt != nil {
			roots = append(roots, rt)
		}
	}
	c.Ob(h.moves >= 2, "instances", "moves", token.NoPos, "sender or receiver never move transactions into a block")
	if proto {
		if rt := h.dispatch(tC, cS, cR); rt != nil {
			roots = append(roots, rt)
		}
	} else {
		h.connect(tC, cS, cR)
	}
	_ = tb
	h.frame(roots)
}

// frame: nobody else keeps the books of senders and receivers.
func (h *shard) frame(roots []*ltRoot) {
	c := h.c
	for _, g := range c.P.Funcs("newsim") {
		own := false
		for _, rt := range roots {
			own = own || inFuncs(h.x, rt, g)
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						continue
					}
					n, ok := deref(fa.X.Type()).(*types.Named)
					if !ok {
						continue
					}
					isS, isR := n.Obj().Name() == "sender", n.Obj().Name() == "receiver"
					nm := ""
					if isS || isR {
						nm = mustStruct(n).Field(fa.Field).Name()
					}
					if isS && (fa.Field == h.fRnd || fa.Field == h.fSched) || isR && fa.Field == h.rRnd {
						h.part(false, "fixed", shortFn(g)+" "+nm, in.Pos(), "%s changes %s of a %s", shortFn(g), nm, n.Obj().Name())
					}
					if !own && (isS && fa.Field != h.fOut || isR && fa.Field != h.rOut) {
						h.prot(false, "frame", shortFn(g)+" "+nm, in.Pos(), "%s sets %s of a %s from outside", shortFn(g), nm, n.Obj().Name())
					}
				case ssa.CallInstruction:
					if own {
						continue
					}
					if k := in.Common().StaticCallee(); k != nil {
						switch absint.FnKey(k) {
						case rEncReset, rEncAdd, rEncProd, rDecReset, rDecAdd, rDecCoded, rDecTry:
							h.prot(false, "frame", shortFn(g)+" "+k.Name(), in.Pos(), "%s uses the codec of a link from outside", shortFn(g))
						}
					}
				}
			}
		}
	}
}

// inside and outside: the hash v lies (does not lie) in the circular range from s to e.
func (h *shard) inside(st *State, v, s, e *Term) bool {
	tb := h.x.TB
	return h.refuted(st, tb.Lt(s, e), tb.Lt(v, s)) && h.refuted(st, tb.Lt(s, e), tb.Le(e, v)) && h.refuted(st, tb.Le(e, s), tb.Lt(v, s), tb.Le(e, v))
}
func (h *shard) outside(st *State, v, s, e *Term) bool {
	tb := h.x.TB
	return h.refuted(st, tb.Lt(s, e), tb.Le(s, v), tb.Lt(v, e)) && h.refuted(st, tb.Le(e, s), tb.Le(s, v)) && h.refuted(st, tb.Le(e, s), tb.Lt(v, e))
}
func (h *shard) refuted(st *State, cs ...*Term) bool {
	st = st.Clone()
	for _, x := range cs {
		if !st.F.Assume(x) || contradictory(st.F, h.x.TB) {
			return true
		}
	}
	return false
}

// move checks the one loop of segment p that moves the transactions of a shard
// from the buffer, holding buf when the loop is entered, into the codec; it returns the loop and the buffer afterwards.
func (h *shard) move(rt *ltRoot, p *Path, buf *Term, add string, rnd, s, e *Term, who string) (*Loop, *Term) {
	c, tb := h.c, h.x.TB
	name := rt.name + " " + who
	var L *Loop
	for _, ev := range evs(p, "loop", "") {
		hit := false
		for _, b := range ev.Loop.Backs {
			hit = hit || len(evs(b, "call", add)) > 0
		}
		if !hit {
			continue
		}
		if !h.prot(L == nil, "move", name+" loops", ev.Loop.Pos, "transactions are moved into a block in more than one loop") {
			return L, nil
		}
		L = ev.Loop
	}
	if !c.Ob(L != nil, "move", name, p.Pos, "no transactions are moved into a new block") {
		return nil, nil
	}
	h.moves++
	et := sliceElem(h.elemList(who))
	// in place: the buffer itself shrinks
	for _, bv := range L.Vars {
		if bv.Entry != buf || bv.LV.Typ == nil || !isSliceT(bv.LV.Typ) {
			continue
		}
		for _, iv := range L.Vars {
			if iv.LV.Typ == nil || !isBasicInt(iv.LV.Typ) {
				continue
			}
			for _, up := range []bool{true, false} {
				if h.moveInPlace(rt, p, L, bv, iv, up, et, add, rnd, s, e, name) {
					return L, bv.LV
				}
			}
		}
	}
	// filter: the kept transactions are collected
	if ix, ok := h.counter(L, []*Path{p}, tb.Len(buf)); ok {
		for _, kv := range L.Vars {
			if kv.LV.Typ != nil && isSliceT(kv.LV.Typ) && p.St.F.Entails(tb.Le(tb.Len(kv.Entry), tb.Int(0))) && types.Identical(sliceElem(kv.LV.Typ), et) {
				if h.moveFilter(p, L, buf, kv, ix, et, add, rnd, s, e, name) {
					return L, kv.LV
				}
			}
		}
	}
	h.prot(false, "move", name+" each", L.Pos, "the loop does not move each transaction of the shard from the buffer into the block, keeping the others")
	h.judge(p, L, buf, nil, et, add, rnd, s, e, name)
	return L, nil
}

func (h *shard) elemList(who string) types.Type {
	if who == "sender" {
		return h.ftype(h.tS, h.fBuf)
	}
	return h.ftype(h.tR, h.rBuf)
}

// member checks the decision of round b on transaction x.
func (h *shard) member(b *Path, x *Term, et types.Type, moved bool, rnd, s, e *Term, name string) {
	tb := h.x.TB
	fh := field(et, "Hash", isBasic(types.Uint64))
	if !h.c.Ob(fh >= 0, "anchor", "hash of a transaction", b.Pos, "hash of a transaction not found") {
		return
	}
	v := tb.Mul(rnd, tb.Field(x, et, fh))
	if moved {
		h.c.Ob(h.inside(b.St, v, s, e), "member", name+" moved", b.Pos, "a transaction may be moved into a block without belonging to its shard")
	} else {
		h.c.Ob(h.outside(b.St, v, s, e), "member", name+" kept", b.Pos, "a transaction of the shard may be left out of its block")
	}
}

// judge checks the decisions of a loop whose way of moving was not understood.
func (h *shard) judge(p *Path, L *Loop, buf, ix *Term, et types.Type, add string, rnd, s, e *Term, name string) {
	if h.proto {
		return
	}
	for _, b := range L.Backs {
		ev := evs(b, "call", add)
		if len(ev) > 0 && len(ev[0].Args) > 1 {
			h.member(b, ev[0].Args[1], et, true, rnd, s, e, name)
		}
	}
	h.c.Fail("member", name+" undecided", L.Pos, "which transactions are left out of a block could not be decided")
}

func (h *shard) adds(b *Path, add string, x *Term) (moved, ok bool) {
	ev := evs(b, "call", add)
	if len(ev) == 0 {
		return false, true
	}
	return true, len(ev) == 1 && len(ev[0].Args) > 1 && h.whole(b, x, ev[0].Args[1]) == ev[0].Args[1]
}

func (h *shard) moveInPlace(rt *ltRoot, p *Path, L *Loop, bv, iv *absint.LVInfo, up bool, et types.Type, add string, rnd, s, e *Term, name string) bool {
	tb := h.x.TB
	buf, n := bv.LV, tb.Len(bv.LV)
	offs := []int64{0}
	if up {
		offs = []int64{0, 1}
	}
	for _, off := range offs {
		i := tb.AddK(iv.LV, off)
		first := tb.AddK(iv.Entry, off)
		if up && (first != tb.Int(0) || !p.St.F.Entails(tb.Le(n, i))) {
			continue
		}
		if !up && (first != tb.AddK(tb.Len(bv.Entry), -1) || !p.St.F.Entails(tb.Lt(i, tb.Int(0)))) {
			continue
		}
		good := true
		type round struct {
			b     *Path
			x     *Term
			moved bool
		}
		var rs []round
		for _, b := range L.Backs {
			x := L.HeadSt.Load(L.HeadSt.IndexAddr(buf, i, et), et)
			last := L.HeadSt.Load(L.HeadSt.IndexAddr(buf, tb.AddK(n, -1), et), et)
			moved, ok := h.adds(b, add, x)
			b1 := L.Back(b, bv)
			i1 := tb.AddK(L.Back(b, iv), off)
			if moved {
				filled := false
				for _, ev := range b.Events {
					if ev.Kind == "store" && (ev.Args[0].Op == "iaddr") && ev.Args[0].Args[0] == buf {
						if ev.Args[0] == L.HeadSt.IndexAddr(buf, i, et) && h.whole(b, last, ev.Args[1]) == ev.Args[1] {
							filled = true
						} else if ev.Args[0] != L.HeadSt.IndexAddr(buf, tb.AddK(n, -1), et) || !filled {
							ok = false
						}
					}
				}
				swap := filled && b1 == tb.Slice(buf, tb.Int(0), tb.AddK(n, -1))
				shift := b1.Op == "appendsl" && len(b1.Args) == 2 && b1.Args[0] == tb.Slice(buf, tb.Int(0), i) && b1.Args[1] == tb.Slice(buf, tb.AddK(i, 1), n)
				ok = ok && (swap || shift)
			} else {
				ok = ok && b1 == buf
				for _, ev := range b.Events {
					if ev.Kind == "store" && ev.Args[0].Op == "iaddr" && ev.Args[0].Args[0] == buf {
						ok = false
					}
				}
			}
			want := i
			if up && !moved {
				want = tb.AddK(i, 1)
			}
			if !up {
				want = tb.AddK(i, -1)
			}
			good = good && ok && i1 == want
			rs = append(rs, round{b, x, moved})
		}
		if !good {
			continue
		}
		for _, r := range rs {
			h.member(r.b, r.x, et, r.moved, rnd, s, e, name)
		}
		return true
	}
	return false
}

func (h *shard) moveFilter(p *Path, L *Loop, buf *Term, kv *absint.LVInfo, ix []*Term, et types.Type, add string, rnd, s, e *Term, name string) bool {
	for _, i := range ix {
		good := true
		for _, b := range L.Backs {
			x := L.HeadSt.Load(L.HeadSt.IndexAddr(buf, i, et), et)
			moved, ok := h.adds(b, add, x)
			k1 := L.Back(b, kv)
			if moved {
				ok = ok && k1 == kv.LV
			} else {
				ok = ok && k1.Op == "append" && len(k1.Args) == 2 && k1.Args[0] == kv.LV && h.whole(b, x, k1.Args[1]) == k1.Args[1]
			}
			good = good && ok
		}
		if !good {
			continue
		}
		for _, b := range L.Backs {
			x := L.HeadSt.Load(L.HeadSt.IndexAddr(buf, i, et), et)
			moved, _ := h.adds(b, add, x)
			h.member(b, x, et, moved, rnd, s, e, name)
		}
		return true
	}
	return false
}

// sender checks onAck and onTransaction of the sending side.
func (h *shard) sender(nm string) *ltRoot {
	c, tb := h.c, h.x.TB
	rt := h.run("sender", nm, nil)
	if rt == nil {
		return nil
	}
	n := rt.args[0]
	at := func(i int) *Term { return h.fa(n, h.tS, i) }
	var tx, a *Term
	if nm == "onAck" {
		a = rt.par(isNamed("ack"))
	} else {
		tx = rt.par(isNamed("HashedSymbol"))
	}
	if !c.Ob(a != nil || tx != nil, "anchor", rt.name, rt.fn.Pos(), "parameters of %s", rt.name) {
		return rt
	}
	for _, p := range rt.ps {
		if !h.prot(p.Kind == "return", "total", rt.name, p.Pos, "%s can end in a %s", rt.name, p.Kind) {
			continue
		}
		if v, known := p.St.F.Value(tb.Eq(n, tb.Nil(), false)); known && v {
			continue // the other end of the link
		}
		if a != nil {
			txs := tb.Field(a, h.tA, h.aTxs)
			h.prot(len(p.Vals) > 0 && p.Vals[0] == txs, "hand-up", rt.name, p.Pos, "of the transactions of an acknowledgement %v is handed up", p.Vals)
		}
		h.segment(rt, p, rt.st0, n, tx, a)
		enc, known := p.St.F.Value(p.St.Peek(at(h.fEnc)))
		full, fk := p.St.F.Value(tb.FLt(p.St.Peek(at(h.fFly)), p.St.Peek(at(h.fWin))))
		if !fk {
			full, fk = p.St.F.Value(tb.FLt(tb.Mk("conv", "float64", p.St.Peek(at(h.fFly))), p.St.Peek(at(h.fWin))))
		}
		h.prot(known && enc && fk && !full, "keeps-sending", rt.name, p.Pos, "%s returns although a symbol could be sent", rt.name)
	}
	if a != nil {
		h.release(rt, n, a)
	}
	return rt
}

// release: an acknowledgement of the block being sent releases a symbol in
// flight: always when it acknowledges the start of the block; when it
// acknowledges neither start nor end, it may be ignored only by the word of a
// field that says the start was not acknowledged.
func (h *shard) release(rt *ltRoot, n, a *Term) {
	tb := h.x.TB
	st, ok := structOf(h.tS)
	if !ok {
		return
	}
	as, ab := tb.Field(a, h.tA, h.aStart), tb.Field(a, h.tA, h.aBlk)
	fly := h.fa(n, h.tS, h.fFly)
	type round struct {
		p     *Path
		st    *State
		first *Event
		start bool
		d     *Term
	}
	var rs []round
	for _, p := range rt.ps {
		if p.Kind != "return" || len(evs(p, "call", rEncReset)) > 0 {
			continue
		}
		if v, known := p.St.F.Value(tb.Eq(n, tb.Nil(), false)); known && v {
			continue
		}
		var first *Event
		for _, e := range p.Events {
			if e.Kind == "loop" && first == nil {
				for _, v := range e.Loop.Vars {
					if v.Loc == fly {
						first = e
					}
				}
			}
		}
		d := tb.Sub(valAt(p, rt.st0, fly, first), rt.st0.Peek(fly))
		for _, start := range []bool{true, false} {
			s1 := p.St.Clone()
			if start {
				s1.F.Assume(as)
			} else {
				s1.F.Assume(tb.Not(as))
				s1.F.Assume(tb.Not(ab))
			}
			if !contradictory(s1.F, tb) {
				rs = append(rs, round{p, s1, first, start, d})
			}
		}
	}
	minus := tb.Int(-1)
	h.prot(len(rs) > 0, "instances", rt.name+" released", rt.fn.Pos(), "no acknowledgement of a block being sent found")
	// fields that say that the start of the block was acknowledged
	var words []int
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
			continue
		}
		at := h.fa(n, h.tS, i)
		good := true
		for _, r := range rs {
			v1, k1 := r.st.F.Value(valAt(r.p, rt.st0, at, r.first))
			same := valAt(r.p, rt.st0, at, r.first) == rt.st0.Peek(at)
			if v0, k0 := r.st.F.Value(rt.st0.Peek(at)); k0 && k1 && v0 == v1 {
				same = true
			}
			if r.start {
				e, known := r.st.F.Value(ab)
				good = good && (k1 && v1 || known && e)
			} else {
				good = good && (same || k1 && v1)
			}
		}
		if good {
			words = append(words, i)
		}
	}
	for _, r := range rs {
		if r.d == minus {
			continue
		}
		if r.start {
			e, known := r.st.F.Value(ab)
			h.prot(known && e, "in-flight", rt.name+" start released", r.p.Pos, "the acknowledgement of the first symbol of a block changes the symbols in flight by %s", r.d)
			continue
		}
		ok := false
		for _, i := range words {
			v, known := r.st.F.Value(rt.st0.Peek(h.fa(n, h.tS, i)))
			ok = ok || known && !v
		}
		h.prot(ok, "in-flight", rt.name+" not released", r.p.Pos, "an acknowledgement of the block being sent changes the symbols in flight by %s", r.d)
	}
}

func (h *shard) segment(rt *ltRoot, p *Path, st0 *State, n, tx, a *Term) {
	c, tb := h.c, h.x.TB
	name := rt.name
	at := func(i int) *Term { return h.fa(n, h.tS, i) }
	w, ok := walk(p, rt.idx, p.St.Peek(at(h.fOut)), st0.Peek(at(h.fOut)))
	if !h.prot(ok, "queue", name, p.Pos, "%s makes the queue %s", name, p.St.Peek(at(h.fOut))) {
		return
	}
	rs := evs(p, "call", rEncReset)
	if !h.prot(len(rs) <= 1, "start", name, p.Pos, "two blocks are started at once") {
		return
	}
	// what precedes the first block or loop of sends
	var first *Event
	for _, e := range p.Events {
		if first != nil {
			break
		}
		if e.Kind == "call" && e.Callee == rEncReset {
			first = e
		}
		if e.Kind == "loop" {
			for _, q := range w {
				if q.kind == "loop" && q.l == e.Loop {
					first = e
				}
			}
		}
	}
	enc0 := st0.Peek(at(h.fEnc))
	encA := valAt(p, st0, at(h.fEnc), first)
	if a != nil {
		ab := tb.Field(a, h.tA, h.aBlk)
		for _, b := range []bool{true, false} {
			st := p.St.Clone()
			if b {
				st.F.Assume(ab)
			} else {
				st.F.Assume(tb.Not(ab))
			}
			if contradictory(st.F, tb) {
				continue
			}
			v, vk := st.F.Value(encA)
			v0, vk0 := st.F.Value(enc0)
			if len(rs) == 1 && first == rs[0] && vk && v {
				continue // judged below
			}
			h.prot(b && vk && !v || !b && (encA == enc0 || vk && vk0 && v == v0), "acknowledged", name, p.Pos, "an acknowledgement leaves the block being sent as %s", encA)
		}
	} else if len(rs) == 0 {
		h.prot(p.St.F.ProveEq(encA, enc0), "acknowledged", name, p.Pos, "a block is ended or started without an acknowledgement: %s", encA)
	}
	buf0, bufA := st0.Peek(at(h.fBuf)), valAt(p, st0, at(h.fBuf), first)
	if tx != nil {
		h.prot(bufA.Op == "append" && bufA.Args[0] == buf0 && len(bufA.Args) == 2 && h.whole(p, tx, bufA.Args[1]) == bufA.Args[1], "buffer", name, p.Pos, "a transaction handed to the sender makes its buffer %s", bufA)
	} else if first != nil || len(rs) == 0 {
		h.prot(bufA == buf0, "buffer", name, p.Pos, "the buffer becomes %s", bufA)
	}
	// symbols in flight
	cur := valAt(p, st0, at(h.fFly), first)
	if first == nil || len(rs) == 1 {
		cur = st0.Peek(at(h.fFly))
	}
	if a != nil {
		d := tb.Sub(cur, st0.Peek(at(h.fFly)))
		h.prot(d == tb.Int(0) || d == tb.Int(-1), "in-flight", name+" released", p.Pos, "an acknowledgement changes the symbols in flight by %s", d)
	} else if len(rs) == 0 {
		h.prot(cur == st0.Peek(at(h.fFly)), "in-flight", name+" kept", p.Pos, "the symbols in flight become %s", cur)
	}
	if len(rs) == 1 {
		cur = tb.Int(0)
	}
	started := len(rs) == 0
	prods := evs(p, "call", rEncProd)
	used := map[*Event]bool{}
	var start, end *Term
	for _, q := range w {
		switch q.kind {
		case "append":
			for _, x := range q.xs {
				h.sent++
				pay, v := msgType(x)
				if !c.Ob(pay == "main.codeword", "queue", name+" kind", p.Pos, "the sender queues %s", x) {
					continue
				}
				cw := tb.Field(v, h.tCw, h.cCw)
				var ev *Event
				for _, e := range prods {
					if !used[e] && h.whole(p, e.Res, cw) == cw {
						ev = e
						break
					}
				}
				if h.prot(ev != nil, "symbol", name, p.Pos, "what is sent is %s, not a symbol produced for it", cw) {
					used[ev] = true
				}
				val, known := p.St.F.Value(tb.Field(v, h.tCw, h.cNew))
				h.prot(known && val == !started, "marked", name, p.Pos, "after %d block starts, a symbol with the start mark %s is sent", len(rs), tb.Field(v, h.tCw, h.cNew))
				if !started {
					start, end = tb.Field(v, h.tCw, h.cStart), tb.Field(v, h.tCw, h.cEnd)
				} else {
					b, known := p.St.F.Value(encA)
					h.prot(len(rs) > 0 || known && b, "start", name+" none", p.Pos, "a symbol is sent while no block is being sent")
					if len(rs) == 0 {
						win, wk := p.St.F.Value(tb.FLt(cur, p.St.Peek(at(h.fWin))))
						if !wk {
							win, wk = p.St.F.Value(tb.FLt(tb.Mk("conv", "float64", cur), p.St.Peek(at(h.fWin))))
						}
						h.prot(wk && win, "window", name, p.Pos, "a symbol may be sent with %s in flight and a window of %s", cur, p.St.Peek(at(h.fWin)))
					}
				}
				started = true
				cur = tb.AddK(cur, 1)
			}
		case "loop":
			L := q.l
			h.prot(started, "marked", name+" loop", L.Pos, "symbols of a block are sent in a loop without the first one being marked")
			for _, v := range L.Vars {
				if v.Loc == at(h.fFly) {
					h.prot(p.St.F.ProveEq(v.Entry, cur), "in-flight", name+" entry", L.Pos, "%s symbols are in flight, but %s is remembered", cur, v.Entry)
					cur = v.LV
				}
			}
			for _, b := range L.Backs {
				if len(rs) == 1 {
					h.burst(rt, b, L, n)
				} else {
					h.segment(rt, b, L.HeadSt, n, nil, nil)
				}
			}
		default:
			h.prot(false, "queue", name+" "+q.kind, p.Pos, "messages are taken from the queue by the sender")
		}
	}
	fly := p.St.Peek(at(h.fFly))
	h.prot(p.St.F.ProveEq(fly, cur), "in-flight", name, p.Pos, "%s symbols are in flight afterwards, but %s is remembered", cur, fly)
	sched0 := st0.Peek(at(h.fSched))
	next0, next1 := st0.Peek(at(h.fNext)), p.St.Peek(at(h.fNext))
	if len(rs) == 0 {
		h.prot(len(evs(p, "call", rEncAdd)) == 0, "block", name+" add", p.Pos, "a transaction is added to a block that was already started")
		stays := next1 == next0
		for _, q := range w {
			if q.kind == "loop" {
				stays = true // judged by its rounds
			}
		}
		h.prot(stays, "schedule", name+" kept", p.Pos, "the next shard becomes %s without a new block", next1)
		return
	}
	// a block is started
	h.resets++
	r := rs[0]
	c.Ob(start != nil, "marked", name+" first", p.Pos, "a block is started without its first symbol being sent")
	b, known := p.St.F.Value(valAt(p, st0, at(h.fEnc), r))
	if known && b { // remembered just before
		b, known = p.St.F.Value(enc0)
	}
	if a != nil {
		ab, ak := p.St.F.Value(tb.Field(a, h.tA, h.aBlk))
		if ak && ab {
			b, known = false, true
		}
	}
	h.prot(known && !b, "start", name+" acknowledged", r.Pos, "a block may be started while another one is being sent")
	v, known := p.St.F.Value(p.St.Peek(at(h.fEnc)))
	h.prot(known && v, "start", name+" remembered", p.Pos, "a started block is remembered as %s", p.St.Peek(at(h.fEnc)))
	// the schedule advances by one, round and round
	plus := tb.AddK(next0, 1)
	wrap := next1 == tb.Mk("rem", "", plus, tb.Len(sched0))
	if !wrap && next1.Op == "rem" && next1.Args[0] == plus && next1.Args[1] == tb.Len(sched0) {
		wrap = true
	}
	if p.St.F.ProveEq(next1, tb.Int(0)) && (p.St.F.Entails(tb.Le(tb.Len(sched0), plus)) || p.St.F.ProveEq(plus, tb.Len(sched0))) {
		wrap = true
	}
	// the number stays below the length of the schedule, so unequal is below
	if next1 == plus && (p.St.F.Entails(tb.Lt(plus, tb.Len(sched0))) || p.St.F.Entails(tb.Not(tb.Eq(plus, tb.Len(sched0), true)))) {
		wrap = true
	}
	h.prot(wrap, "schedule", name, p.Pos, "after shard number %s of the schedule comes %s", next0, next1)
	if start == nil {
		return
	}
	rnd := st0.Peek(at(h.fRnd))
	L, buf1 := h.move(rt, p, bufA, rEncAdd, rnd, start, end, "sender")
	if L != nil {
		after := false
		var pos []string
		for _, e := range p.Events {
			if e == r {
				after = true
				pos = append(pos, "reset")
			}
			if e.Kind == "loop" && e.Loop == L {
				h.prot(after, "block", name+" order", L.Pos, "transactions enter a block before the encoder is reset")
				pos = append(pos, "move")
			}
			if e.Kind == "call" && e.Callee == rEncProd {
				h.prot(len(pos) == 2, "block", name+" first", e.Pos, "a symbol of a block is produced before the block is complete")
			}
		}
		h.prot(buf1 != nil && p.St.Peek(at(h.fBuf)) == buf1, "block", name+" rest", p.Pos, "after a block was started the buffer holds %s", p.St.Peek(at(h.fBuf)))
	}
	// the bounds of the shard
	et := sliceElem(h.ftype(h.tS, h.fSched))
	i := st0.Load(st0.IndexAddr(sched0, next0, et), et)
	ns := tb.Len(sched0)
	k, mult := h.factor(start, i)
	// shards in the schedule are numbered below their count
	in := p.St.Clone()
	in.F.Assume(tb.Le(tb.Int(0), i))
	in.F.Assume(tb.Lt(i, ns))
	okK := mult && k.Op == "quo" && strip64(k.Args[1]) == ns && bigConst(k.Args[0], 32)
	if h.part(okK, "bounds", name+" start", p.Pos, "shard %s starts at %s", i, start) {
		okE := false
		ip := tb.AddK(i, 1)
		if m, ok := h.cofactor(end, k); ok {
			m = strip64(m)
			okE = m.Op == "rem" && strip64(m.Args[0]) == ip && strip64(m.Args[1]) == ns ||
				m == ip && in.F.Entails(tb.Lt(ip, ns))
		}
		if !okE && in.F.ProveEq(end, tb.Int(0)) && in.F.Entails(tb.Le(ns, ip)) {
			okE = true
		}
		if !okE && end == tb.Add(start, k) && in.F.Entails(tb.Lt(ip, ns)) {
			okE = true
		}
		h.part(okE, "bounds", name+" end", p.Pos, "shard %s ends at %s", i, end)
		h.bounds++
	}
}

// factor writes t as k*i.
func (h *shard) factor(t, i *Term) (k *Term, ok bool) {
	if t.Op != "mul" || len(t.Args) != 2 {
		return nil, false
	}
	for j := 0; j < 2; j++ {
		if strip64(t.Args[j]) == i {
			return t.Args[1-j], true
		}
	}
	return nil, false
}

func (h *shard) cofactor(t, k *Term) (*Term, bool) {
	if t.Op == "mul" && len(t.Args) == 2 {
		for j := 0; j < 2; j++ {
			if t.Args[j] == k {
				return t.Args[1-j], true
			}
		}
	}
	return nil, false
}

func strip64(t *Term) *Term {
	for t.Op == "conv" && len(t.Args) == 1 && (t.Aux == "uint64" || t.Aux == "int") {
		t = t.Args[0]
	}
	return t
}

// bigConst: t is a constant of at least 2^bits.
func bigConst(t *Term, bits uint) bool {
	v, ok := new(big.Int).SetString(t.String(), 10)
	return ok && v.Cmp(new(big.Int).Lsh(big.NewInt(1), bits)) >= 0
}

// burst: a round of the loop that sends more symbols of a block just started.
func (h *shard) burst(rt *ltRoot, b *Path, L *Loop, n *Term) {
	tb := h.x.TB
	name := rt.name + " burst"
	at := func(i int) *Term { return h.fa(n, h.tS, i) }
	st0 := L.HeadSt
	w, ok := walk(b, rt.idx, b.St.Peek(at(h.fOut)), st0.Peek(at(h.fOut)))
	if !h.prot(ok && len(w) <= 1 && (len(w) == 0 || w[0].kind == "append"), "queue", name, b.Pos, "a burst makes the queue %s", b.St.Peek(at(h.fOut))) {
		return
	}
	sent := 0
	prods := evs(b, "call", rEncProd)
	for _, q := range w {
		for _, x := range q.xs {
			pay, v := msgType(x)
			if !h.prot(pay == "main.codeword", "queue", name+" kind", b.Pos, "the sender queues %s", x) {
				continue
			}
			cw := tb.Field(v, h.tCw, h.cCw)
			h.prot(sent < len(prods) && h.whole(b, prods[sent].Res, cw) == cw, "symbol", name, b.Pos, "what is sent is %s, not a symbol produced for it", cw)
			val, known := b.St.F.Value(tb.Field(v, h.tCw, h.cNew))
			h.prot(known && !val, "marked", name, b.Pos, "a later symbol of a block has the start mark %s", tb.Field(v, h.tCw, h.cNew))
			sent++
		}
	}
	fly := tb.AddK(st0.Peek(at(h.fFly)), int64(sent))
	h.prot(b.St.Peek(at(h.fFly)) == fly, "in-flight", name, b.Pos, "%s symbols are in flight afterwards, but %s is remembered", fly, b.St.Peek(at(h.fFly)))
	h.prot(len(evs(b, "call", rEncReset)) == 0 && len(evs(b, "call", rEncAdd)) == 0, "block", name, b.Pos, "the block is changed while its symbols are sent")
	for _, i := range []int{h.fBuf, h.fEnc, h.fNext} {
		h.prot(b.St.F.ProveEq(b.St.Peek(at(i)), st0.Peek(at(i))), "block", name+" "+mustStruct(h.tS).Field(i).Name(), b.Pos, "%s changes in a burst", mustStruct(h.tS).Field(i).Name())
	}
}

// receiver checks onCodeword and onTransaction of the receiving side.
func (h *shard) receiver(nm string) *ltRoot {
	c, tb := h.c, h.x.TB
	rt := h.run("receiver", nm, nil)
	if rt == nil {
		return nil
	}
	n, name := rt.args[0], rt.name
	at := func(i int) *Term { return h.fa(n, h.tR, i) }
	codec := []string{rDecReset, rDecAdd, rDecCoded, rDecTry}
	if nm == "onTransaction" {
		tx := rt.par(isNamed("HashedSymbol"))
		if !c.Ob(tx != nil, "anchor", name, rt.fn.Pos(), "parameters of %s", name) {
			return rt
		}
		for _, p := range rt.ps {
			if v, known := p.St.F.Value(tb.Eq(n, tb.Nil(), false)); known && v {
				continue
			}
			b0, b1 := rt.st0.Peek(at(h.rBuf)), p.St.Peek(at(h.rBuf))
			h.prot(b1.Op == "append" && b1.Args[0] == b0 && len(b1.Args) == 2 && h.whole(p, tx, b1.Args[1]) == b1.Args[1], "buffer", name, p.Pos, "a transaction handed to the receiver makes its buffer %s", b1)
			for _, i := range []int{h.rRec, h.rOut} {
				h.prot(p.St.Peek(at(i)) == rt.st0.Peek(at(i)), "buffer", name+" "+mustStruct(h.tR).Field(i).Name(), p.Pos, "a transaction changes %s", mustStruct(h.tR).Field(i).Name())
			}
			for _, k := range codec {
				h.prot(len(evs(p, "call", k)) == 0, "buffer", name+" "+k, p.Pos, "a transaction handed to the receiver enters the block that is being received")
			}
		}
		return rt
	}
	cw := rt.par(isNamed("codeword"))
	if !c.Ob(cw != nil, "anchor", name, rt.fn.Pos(), "parameters of %s", name) {
		return rt
	}
	nb, code := tb.Field(cw, h.tCw, h.cNew), tb.Field(cw, h.tCw, h.cCw)
	start, end := tb.Field(cw, h.tCw, h.cStart), tb.Field(cw, h.tCw, h.cEnd)
	dones := 0
	for _, p := range rt.ps {
		if !h.prot(p.Kind == "return", "total", name, p.Pos, "%s can end in a %s", name, p.Kind) {
			continue
		}
		if v, known := p.St.F.Value(tb.Eq(n, tb.Nil(), false)); known && v {
			continue
		}
		buf0, buf1 := rt.st0.Peek(at(h.rBuf)), p.St.Peek(at(h.rBuf))
		rec0, rec1 := rt.st0.Peek(at(h.rRec)), p.St.Peek(at(h.rRec))
		out0, out1 := rt.st0.Peek(at(h.rOut)), p.St.Peek(at(h.rOut))
		isNew, nk := p.St.F.Value(nb)
		old, ok := p.St.F.Value(rec0)
		coded := evs(p, "call", rDecCoded)
		if len(coded) == 0 {
			h.prot(nk && !isNew && ok && old, "ignored", name, p.Pos, "a symbol of a block not finished may be ignored")
			h.prot(out1 == out0 && buf1 == buf0 && p.St.F.ProveEq(rec1, rec0), "ignored", name+" state", p.Pos, "a symbol of a finished block changes the receiver")
			for _, k := range codec {
				h.prot(len(evs(p, "call", k)) == 0, "ignored", name+" "+k, p.Pos, "a symbol of a finished block changes the decoder")
			}
			h.prot(h.nothing(p), "ignored", name+" result", p.Pos, "a symbol of a finished block yields %v", p.Vals)
			continue
		}
		if !c.Ob(nk, "block", name, p.Pos, "a symbol is taken without regard to its start mark") {
			continue
		}
		h.prot(isNew || ok && !old, "ignored", name+" late", p.Pos, "a symbol of a finished block may be taken")
		// transactions of the shard enter the decoder first
		var L *Loop
		if isNew {
			var b1 *Term
			L, b1 = h.move(rt, p, buf0, rDecAdd, rt.st0.Peek(at(h.rRnd)), start, end, "receiver")
			h.prot(L != nil && b1 != nil && buf1 == b1, "block", name+" rest", p.Pos, "after the start of a block the buffer holds %s", buf1)
		} else {
			h.prot(buf1 == buf0 && len(evs(p, "call", rDecAdd)) == 0, "block", name+" later", p.Pos, "a later symbol of a block changes the transactions of the receiver: %s", buf1)
		}
		if !h.proto {
			continue
		}
		good := len(coded) == 1 && h.whole(p, code, coded[0].Args[1]) == coded[0].Args[1]
		c.Ob(good, "decode", name, p.Pos, "a symbol is not given to the decoder exactly once")
		done := evs(p, "call", rDecDone)
		if !c.Ob(len(done) > 0, "decode", name+" done", p.Pos, "the receiver does not look whether the block is decoded") {
			continue
		}
		stage, moved := 0, L == nil
		for _, e := range p.Events {
			switch {
			case e.Kind == "loop" && e.Loop == L:
				moved = true
			case e.Kind != "call":
			case e.Callee == rDecCoded:
				c.Ob(moved, "decode", name+" order", e.Pos, "the first symbol of a block is decoded before the receiver's transactions entered the block")
				stage = 1
			case e.Callee == rDecTry:
				if stage == 1 {
					stage = 2
				}
			case e.Callee == rDecDone:
				c.Ob(stage == 2, "decode", name+" tried", e.Pos, "whether the block is decoded is asked before the new symbol was used")
			}
		}
		dec, dk := p.St.F.Value(done[len(done)-1].Res)
		if !c.Ob(dk, "decode", name+" known", p.Pos, "the receiver goes on without regard to whether the block is decoded") {
			continue
		}
		w, ok2 := walk(p, rt.idx, out1, out0)
		if !c.Ob(ok2 && len(w) == 1 && w[0].kind == "append" && len(w[0].xs) == 1, "one-ack", name, p.Pos, "a symbol makes the queue %s, not one acknowledgement longer", out1) {
			continue
		}
		pay, v := msgType(w[0].xs[0])
		if !c.Ob(pay == "main.ack", "one-ack", name+" kind", p.Pos, "a symbol is answered by %s", w[0].xs[0]) {
			continue
		}
		as, ask := p.St.F.Value(tb.Field(v, h.tA, h.aStart))
		c.Ob(ask && as == isNew, "one-ack", name+" start", p.Pos, "a symbol is acknowledged with the start mark %s", tb.Field(v, h.tA, h.aStart))
		ab, abk := p.St.F.Value(tb.Field(v, h.tA, h.aBlk))
		c.Ob(abk && ab == dec, "one-ack", name+" end", p.Pos, "a symbol is acknowledged with the end mark %s", tb.Field(v, h.tA, h.aBlk))
		r1, rk := p.St.F.Value(rec1)
		c.Ob(rk && r1 == dec, "finished", name, p.Pos, "after a symbol the block is remembered as finished: %s", rec1)
		resets := evs(p, "call", rDecReset)
		txs := tb.Field(v, h.tA, h.aTxs)
		if !dec {
			c.Ob(len(resets) == 0, "reset", name+" early", p.Pos, "the decoder is reset before the block is decoded")
			c.Ob(h.nothing(p), "hand-up", name+" early", p.Pos, "a block not decoded yields %v", p.Vals)
			c.Ob(p.St.F.Entails(tb.Le(tb.Len(txs), tb.Int(0))), "hand-back", name+" early", p.Pos, "a block not decoded gives the sender %s", txs)
			continue
		}
		dones++
		if !c.Ob(len(resets) == 1, "reset", name, p.Pos, "the decoder is reset %d times after a block", len(resets)) {
			continue
		}
		h.copied(rt, p, txs, rDecLocal, resets[0], "hand-back", name, "the transactions the sender lacks")
		if len(p.Vals) > 0 {
			h.copied(rt, p, p.Vals[0], rDecRem, resets[0], "hand-up", name, "the transactions the receiver lacks")
		}
		if len(p.Vals) > 1 {
			y, k := p.St.F.Value(p.Vals[1])
			c.Ob(k && y, "hand-up", name+" flag", p.Pos, "a decoded block is reported as %s", p.Vals[1])
		}
	}
	h.prot(dones > 0, "instances", name, token.NoPos, "a block is never decoded")
	return rt
}

// nothing: the receiver hands up no transactions.
func (h *shard) nothing(p *Path) bool {
	tb := h.x.TB
	if len(p.Vals) > 1 {
		v, known := p.St.F.Value(p.Vals[1])
		return known && !v
	}
	return len(p.Vals) == 0 || p.Vals[0] == tb.Nil() || p.St.F.Entails(tb.Le(tb.Len(p.Vals[0]), tb.Int(0)))
}

// copied: v holds each element of the decoder's list once, copied before the
// decoder is reset.
func (h *shard) copied(rt *ltRoot, p *Path, v *Term, from string, reset *Event, rule, name, what string) {
	c, tb := h.c, h.x.TB
	src := map[*Term]bool{}
	before := map[*Loop]bool{}
	seen := map[*Term]bool{}
	for _, e := range p.Events {
		if e == reset {
			break
		}
		if e.Kind == "call" && e.Callee == from {
			src[e.Res] = true
		}
		if e.Kind == "loop" {
			before[e.Loop] = true
		}
		if e.Kind == "append" {
			seen[e.Res] = true
		}
	}
	if !c.Ob(!src[v], rule, name+" alias", p.Pos, "%s are handed on in a list the decoder's reset overwrites", what) {
		return
	}
	if v.Op == "appendsl" && len(v.Args) == 2 && src[v.Args[1]] && p.St.F.Entails(tb.Le(tb.Len(v.Args[0]), tb.Int(0))) {
		c.Ob(seen[v], rule, name+" late", p.Pos, "%s are copied only after the decoder was reset", what)
		return
	}
	ok := false
	for _, e := range p.Events {
		if e == reset {
			break
		}
		if e.Kind == "copy" && e.Args[0] == v && src[e.Args[1]] && p.St.F.ProveEq(tb.Len(v), tb.Len(e.Args[1])) {
			ok = true
		}
		if e.Kind == "store" && (e.Args[0].Op == "iaddr" && e.Args[0].Args[0] == v) {
			ok = false
		}
	}
	for _, x := range rt.idx[v] {
		if !onPath(p, x.l) || !p.St.F.Entails(tb.Le(tb.Len(x.v.Entry), tb.Int(0))) || src[x.v.Entry] || x.v.Entry.Op == "slice" && src[x.v.Entry.Args[0]] {
			continue
		}
		for s := range src {
			ix, cok := h.counter(x.l, []*Path{p}, tb.Len(s))
			if !cok {
				continue
			}
			et := sliceElem(s.Typ)
			if et == nil {
				et = sliceElem(v.Typ)
			}
			for _, i := range ix {
				all := et != nil
				for _, b := range x.l.Backs {
					y := b.St.Load(b.St.IndexAddr(s, i, et), et)
					z := x.l.Back(b, x.v)
					all = all && z.Op == "append" && len(z.Args) == 2 && z.Args[0] == x.v.LV && h.whole(b, y, z.Args[1]) == z.Args[1]
				}
				if all {
					ok = true
					c.Ob(before[x.l], rule, name+" late", x.l.Pos, "%s are copied only after the decoder was reset", what)
				}
			}
		}
	}
	c.Ob(ok, rule, name, p.Pos, "%s are handed on as %s", what, v)
}

// dispatch: messages and transactions of a link reach the side they are for.
func (h *shard) dispatch(tC types.Type, cS, cR int) *ltRoot {
	c := h.c
	s := c.sim("newsim")
	tb := s.x.TB
	stop := map[string]bool{"(*main.sender).onAck": true, "(*main.sender).onTransaction": true, "(*main.receiver).onCodeword": true, "(*main.receiver).onTransaction": true}
	in := s.x.Inline
	s.x.Inline = func(f *ssa.Function) bool { return !stop[absint.FnKey(f)] && (in == nil || in(f)) }
	one := func(p *Path, key string, who *Term, x *Term, what string) *Event {
		ev := evs(p, "call", key)
		if v, known := p.St.F.Value(tb.Eq(who, tb.Nil(), false)); known && v && len(ev) == 0 {
			return nil
		}
		if !c.Ob(len(ev) == 1 && ev[0].Args[0] == who && s.whole(p, x, ev[0].Args[1]) == ev[0].Args[1], "dispatch", what, p.Pos, "%s is not handed to %s of the link exactly once", what, key) {
			return nil
		}
		return ev[0]
	}
	none := func(p *Path, what string, keys ...string) {
		for _, k := range keys {
			c.Ob(len(evs(p, "call", k)) == 0, "dispatch", what+" only", p.Pos, "%s also reaches %s", what, k)
		}
	}
	var rt *ltRoot
	if fn := c.Fn("newsim", "coding", "handleMessage"); fn != nil && c.Ob(len(fn.Params) == 2, "anchor", "coding.handleMessage", fn.Pos(), "parameters of coding.handleMessage") {
		me := s.x.Param(fn.Params[0].Name(), fn.Params[0].Type())
		msg := map[bool]*Term{true: s.x.Param("m", h.tCw), false: s.x.Param("m", h.tA)}
		for _, isCw := range []bool{true, false} {
			t, key, who, what := h.tA, "(*main.sender).onAck", tb.Field(me, tC, cS), "an acknowledgement"
			if isCw {
				t, key, who, what = h.tCw, "(*main.receiver).onCodeword", tb.Field(me, tC, cR), "a symbol"
			}
			ps := c.Run(s.x, fn, s.x.NewState(), []*Term{me, tb.MkT(t, "iface", absint.TypeKey(t), msg[isCw])})
			rt = &ltRoot{fn: fn, name: "newsim.coding.handleMessage", ps: ps}
			for _, p := range ps {
				if !c.Ob(p.Kind == "return", "total", "coding.handleMessage", p.Pos, "%s can end in a %s", what, p.Kind) {
					continue
				}
				for k := range stop {
					if k != key {
						c.Ob(len(evs(p, "call", k)) == 0, "dispatch", what+" only", p.Pos, "%s also reaches %s", what, k)
					}
				}
				e := one(p, key, who, msg[isCw], what)
				if e == nil || len(p.Vals) == 0 {
					continue
				}
				v := p.Vals[0]
				ok := v == e.Res || strings.HasPrefix(v.Op, "extract") && v.Aux == "0" && v.Args[0] == e.Res
				for _, t := range p.St.F.Terms() {
					if strings.HasPrefix(t.Op, "extract") && t.Aux == "1" && t.Args[0] == e.Res {
						if d, known := p.St.F.Value(t); known && !d && v == tb.Nil() {
							ok = true
						}
					}
				}
				c.Ob(ok, "dispatch", what+" result", p.Pos, "what %s yields is handed up as %s", what, v)
			}
		}
	}
	ft := s.run("coding", "forwardTransaction", nil)
	if ft != nil {
		me := ft.args[0]
		tx := ft.par(isNamed("HashedSymbol"))
		if c.Ob(tx != nil, "anchor", ft.name, ft.fn.Pos(), "parameters of %s", ft.name) {
			for _, p := range ft.ps {
				if !c.Ob(p.Kind == "return", "total", ft.name, p.Pos, "%s can end in a %s", ft.name, p.Kind) {
					continue
				}
				none(p, "a transaction", "(*main.sender).onAck", "(*main.receiver).onCodeword")
				one(p, "(*main.sender).onTransaction", tb.Field(me, tC, cS), tx, "a transaction for the sender")
				one(p, "(*main.receiver).onTransaction", tb.Field(me, tC, cR), tx, "a transaction for the receiver")
			}
		}
	}
	return rt
}

// connect: both ends of a link share the randomizer, and the sender's schedule
// is a permutation of the shards.
func (h *shard) connect(tC types.Type, cS, cR int) {
	c, tb := h.c, h.x.TB
	tS, fH, fP := h.server()
	if tS == nil || fH < 0 || fP < 0 {
		return
	}
	elem := h.ftype(tS, fH).Underlying().(*types.Map).Elem()
	n := 0
	for _, fn := range c.P.Funcs("newsim") {
		ps := fn.Params
		if fn.Signature.Recv() != nil || len(ps) < 3 || fn.Parent() != nil {
			continue
		}
		isS := func(t types.Type) bool {
			p, ok := t.(*types.Pointer)
			return ok && types.Identical(p.Elem(), tS)
		}
		if !isS(ps[0].Type()) || !isS(ps[1].Type()) {
			continue
		}
		rt := h.runFn(fn, func(st *State, args []*Term) {
			st.F.Assume(tb.Not(tb.Eq(args[0], args[1], false)))
			st.F.Assume(tb.Not(tb.Eq(st.Peek(h.fa(args[0], tS, fH)), st.Peek(h.fa(args[1], tS, fH)), false)))
		})
		for _, p := range rt.ps {
			if p.Kind != "return" {
				continue
			}
			var sides [2]*Term
			for i := 0; i < 2; i++ {
				ref := rt.st0.Peek(h.fa(rt.args[i], tS, fH))
				w, _ := walk(p, rt.idx, p.St.MapContent(ref), rt.st0.MapContent(ref))
				for _, q := range w {
					if q.kind != "put" {
						continue
					}
					if x := h.codingOf(q.xs[1], elem, tC); x != nil {
						sides[i] = x
					}
				}
			}
			if sides[0] == nil && sides[1] == nil {
				continue
			}
			if !c.Ob(sides[0] != nil && sides[1] != nil, "link", rt.name, p.Pos, "only one end of a link speaks the coding protocol") {
				continue
			}
			n++
			for i := 0; i < 2; i++ {
				snd, rcv := tb.Field(sides[i], tC, cS), tb.Field(sides[1-i], tC, cR)
				if snd == tb.Nil() && rcv == tb.Nil() {
					continue
				}
				if !c.Ob(isAlloc(snd) && isAlloc(rcv), "link", rt.name+" ends", p.Pos, "a link has the sender %s and the receiver %s", snd, rcv) {
					continue
				}
				h.bounds++
				a, b := p.St.Peek(h.fa(snd, h.tS, h.fRnd)), p.St.Peek(h.fa(rcv, h.tR, h.rRnd))
				c.Ob(a == b, "randomizer", rt.name, p.Pos, "the sender of a link uses the randomizer %s, the receiver %s", a, b)
				sch := p.St.Peek(h.fa(snd, h.tS, h.fSched))
				perm := false
				for _, e := range evs(p, "call", "(*rand.Rand).Perm") {
					perm = perm || e.Res == sch
				}
				c.Ob(perm, "schedule", rt.name, p.Pos, "the schedule of a sender is %s, not a permutation of the shards", sch)
				c.Ob(p.St.F.ProveEq(p.St.Peek(h.fa(snd, h.tS, h.fNext)), tb.Int(0)), "schedule", rt.name+" first", p.Pos, "a sender starts with shard number %s of its schedule", p.St.Peek(h.fa(snd, h.tS, h.fNext)))
			}
		}
	}
	c.Ob(n > 0 && h.bounds > 0, "instances", "links", token.NoPos, "no link of the coding protocol found")
}

// codingOf finds the coding handler in an entry of the table of peers.
func (h *shard) codingOf(v *Term, elem, tC types.Type) *Term {
	st, ok := structOf(elem)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		x := h.x.TB.Field(v, elem, i)
		if x.Op == "iface" && x.Aux == absint.TypeKey(tC) {
			return x.Args[0]
		}
	}
	return nil
}
