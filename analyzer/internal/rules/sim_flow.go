package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

// ---------------------------------------------------------------- C31

// valAt is the value of the location a in segment p just before the event
// (nil: at the end), p having started from st0.
func valAt(p *Path, st0 *State, a *Term, stop *Event) *Term {
	if stop == nil {
		return p.St.Peek(a)
	}
	v := st0.Peek(a)
	for _, e := range p.Events {
		if e == stop {
			break
		}
		switch e.Kind {
		case "store":
			if e.Args[0] == a {
				v = e.Args[1]
			}
		case "loop":
			for _, lv := range e.Loop.Vars {
				if lv.Loc == a {
					v = lv.LV
				}
			}
		}
	}
	return v
}

// flow decides the flow control of the block simulator's sender.
type flow struct {
	*simp
	tS                           types.Type
	fBuf, fWin, fFly, fEnc, fOut int
	fThr, fOvh                   []int
	n                            *Term // the sender
	may                          *Term // starting a block is allowed
	name                         string
	tCw                          types.Type
	cCw, cNew                    int
	resets, sent                 int
}

func (f *flow) at(i int) *Term { return f.fa(f.n, f.tS, i) }

func (f *flow) path(st *State, is []int) *Term {
	t, ty := f.n, f.tS
	for _, i := range is {
		t = f.fa(t, ty, i)
		ty = f.ftype(ty, i)
	}
	return st.Peek(t)
}

const (
	encReset = "(*lt.Encoder).Reset"
	encAdd   = "(*lt.Encoder).AddTransaction"
	encProd  = "(*lt.Encoder).ProduceCodeword"
)

func ruleC31(c *C) {
	s := c.sim("simulator")
	f := &flow{simp: s}
	f.tS = c.Type("simulator", "sender")
	f.tCw = c.Type("simulator", "codeword")
	tA := c.Type("simulator", "ack")
	f.fBuf = s.need(f.tS, "sender's buffer", "buffer", isSliceT)
	f.fWin = s.need(f.tS, "sender's window", "sendWindow", nil)
	f.fFly = s.need(f.tS, "codewords in flight", "inFlight", nil)
	f.fEnc = s.need(f.tS, "block being sent", "encodingCurrentBlock", nil)
	f.fOut = s.need(f.tS, "sender's queue", "outbox", isSliceT)
	f.cCw = s.need(f.tCw, "codeword in a message", "Codeword", nil)
	f.cNew = s.need(f.tCw, "start of a block in a message", "newBlock", nil)
	aB := s.need(tA, "end of a block in a message", "ackBlock", nil)
	for _, i := range []int{f.fBuf, f.fWin, f.fFly, f.fEnc, f.fOut, f.cCw, f.cNew, aB} {
		if i < 0 {
			return
		}
	}
	f.fThr, f.fOvh = fieldPath(f.tS, "detectThreshold"), fieldPath(f.tS, "controlOverhead")
	if !c.Ob(f.fThr != nil && f.fOvh != nil, "anchor", "sender configuration", token.NoPos, "configuration of the sender not found") {
		return
	}
	var roots []*ltRoot
	for _, nm := range []string{"onAck", "onTransaction", "tryFillSendWindow"} {
		rt := s.run("sender", nm, nil)
		if rt == nil {
			continue
		}
		roots = append(roots, rt)
		f.root(rt, nm, tA, aB)
	}
	c.Ob(f.resets > 0 && f.sent > 0, "instances", "sender", token.NoPos, "the sender never starts a block or never sends")
	if rt := f.receive(tA, aB); rt != nil {
		roots = append(roots, rt)
	}
	// nobody else keeps the sender's books or uses its encoder
	for _, g := range c.P.Funcs("simulator") {
		own := false
		for _, rt := range roots {
			own = own || inFuncs(s.x, rt, g)
		}
		if own {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						continue
					}
					n, ok := deref(fa.X.Type()).(*types.Named)
					if ok && (n.Obj().Name() == "sender" && fa.Field != f.fOut || n.Obj().Name() == "receiver" && !strings.Contains(mustStruct(n).Field(fa.Field).Name(), "outbox")) {
						c.Fail("frame", shortFn(g)+" "+mustStruct(n).Field(fa.Field).Name(), in.Pos(), "%s sets %s of a %s from outside", shortFn(g), mustStruct(n).Field(fa.Field).Name(), n.Obj().Name())
					}
				case ssa.CallInstruction:
					if h := in.Common().StaticCallee(); h != nil {
						switch absint.FnKey(h) {
						case encReset, encAdd, encProd:
							c.Fail("frame", shortFn(g)+" "+h.Name(), in.Pos(), "%s uses the encoder of a sender from outside", shortFn(g))
						}
					}
				}
			}
		}
	}
}

func (f *flow) root(rt *ltRoot, nm string, tA types.Type, aB int) {
	c, tb := f.c, f.x.TB
	f.n, f.name = rt.args[0], rt.name
	f.may = rt.par(func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.Bool })
	if !c.Ob(f.may != nil, "anchor", rt.name, rt.fn.Pos(), "%s has no parameter that allows a new block", rt.name) {
		return
	}
	var tx, ackB *Term
	switch nm {
	case "onAck":
		if a := rt.par(isNamed("ack")); a != nil {
			ackB = tb.Field(a, tA, aB)
		}
		if !c.Ob(ackB != nil, "anchor", rt.name+" ack", rt.fn.Pos(), "parameters of %s", rt.name) {
			return
		}
	case "onTransaction":
		tx = rt.par(isNamed("Transaction"))
		if !c.Ob(tx != nil, "anchor", rt.name+" tx", rt.fn.Pos(), "parameters of %s", rt.name) {
			return
		}
	}
	for _, p := range rt.ps {
		if !c.Ob(p.Kind == "return", "total", rt.name, p.Pos, "%s can end in a %s", rt.name, p.Kind) {
			continue
		}
		rel := int64(0)
		if ackB != nil {
			rel = -1
		}
		f.segment(rt, p, rt.st0, rel, tx, ackB)
		// sending goes on as far as it can
		st := p.St
		full := st.F.Entails(tb.Le(st.Peek(f.at(f.fWin)), st.Peek(f.at(f.fFly))))
		enc, known := st.F.Value(st.Peek(f.at(f.fEnc)))
		may, mk := st.F.Value(f.may)
		stuck := known && !enc && (mk && !may || f.few(p, st.Peek(f.at(f.fBuf))))
		c.Ob(full || stuck, "keeps-sending", rt.name, p.Pos, "%s returns although the window is not full and a codeword could be sent", rt.name)
	}
}

// minBlock: terms int(threshold/overhead) occurring on the path.
func (f *flow) minBlock(p *Path) []*Term {
	thr, ovh := f.path(p.St, f.fThr), f.path(p.St, f.fOvh)
	var out []*Term
	for _, t := range p.St.F.Terms() {
		if t.Op == "conv" && len(t.Args) == 1 && t.Args[0].Op == "fdiv" && t.Args[0].Args[1] == ovh {
			n := t.Args[0].Args[0]
			if n == thr || n.Op == "conv" && n.Args[0] == thr {
				out = append(out, t)
			}
		}
	}
	return out
}

// enough, few: the buffer holds at least (fewer than) the transactions of the smallest block.
func (f *flow) enough(p *Path, buf *Term) bool {
	for _, m := range f.minBlock(p) {
		if p.St.F.Entails(f.x.TB.Le(m, f.x.TB.Len(buf))) {
			return true
		}
	}
	return false
}
func (f *flow) few(p *Path, buf *Term) bool {
	for _, m := range f.minBlock(p) {
		if p.St.F.Entails(f.x.TB.Lt(f.x.TB.Len(buf), m)) {
			return true
		}
	}
	return false
}

// segment checks a path or a loop round.
func (f *flow) segment(rt *ltRoot, p *Path, st0 *State, rel int64, tx, ackB *Term) {
	c, tb := f.c, f.x.TB
	name := f.name
	out0 := st0.Peek(f.at(f.fOut))
	w, ok := walk(p, rt.idx, p.St.Peek(f.at(f.fOut)), out0)
	if !c.Ob(ok, "queue", name, p.Pos, "%s makes the queue %s", name, p.St.Peek(f.at(f.fOut))) {
		return
	}
	same := func(a, b *Term) bool { return p.St.F.ProveEq(a, b) }
	// what the transaction or acknowledgement itself changes
	first := (*Event)(nil)
	for _, e := range p.Events {
		if first == nil && e.Kind == "loop" {
			for _, q := range w {
				if q.kind == "loop" && q.l == e.Loop {
					first = e
				}
			}
		}
		if first == nil && e.Kind == "call" && e.Callee == encReset {
			first = e
		}
	}
	enc0 := st0.Peek(f.at(f.fEnc))
	rs := evs(p, "call", encReset)
	if !c.Ob(len(rs) <= 1, "start", name, p.Pos, "two blocks are started at once") {
		return
	}
	encA := valAt(p, st0, f.at(f.fEnc), first)
	if first == nil || len(rs) == 0 || rs[0] == first {
		if ackB != nil {
			for _, b := range []bool{true, false} {
				st := p.St.Clone()
				if b {
					st.F.Assume(ackB)
				} else {
					st.F.Assume(tb.Not(ackB))
				}
				if contradictory(st.F, tb) {
					continue
				}
				v, vk := st.F.Value(encA)
				v0, vk0 := st.F.Value(enc0)
				c.Ob(b && vk && !v || !b && (encA == enc0 || vk && vk0 && v == v0), "acknowledged", name, p.Pos, "an acknowledgement of a block (%s) leaves the block being sent as %s", ackB, encA)
			}
		} else if len(rs) == 0 {
			c.Ob(same(encA, enc0), "acknowledged", name, p.Pos, "a block is ended or started without an acknowledgement: %s", encA)
		}
	}
	bufA := valAt(p, st0, f.at(f.fBuf), first)
	buf0 := st0.Peek(f.at(f.fBuf))
	if tx != nil {
		c.Ob(bufA.Op == "append" && bufA.Args[0] == buf0 && len(bufA.Args) == 2 && f.whole(p, tx, bufA.Args[1]) == bufA.Args[1], "buffer", name, p.Pos, "a transaction handed to the sender makes its buffer %s", bufA)
	} else if first != nil || len(rs) == 0 {
		c.Ob(bufA == buf0, "buffer", name, p.Pos, "the buffer becomes %s", bufA)
	}
	// codewords in flight
	cur := tb.AddK(st0.Peek(f.at(f.fFly)), rel)
	n := 0
	started := len(rs) == 0
	prods := evs(p, "call", encProd)
	used := map[*Event]bool{}
	for _, q := range w {
		switch q.kind {
		case "append":
			for _, x := range q.xs {
				n++
				f.sent++
				win := p.St.F.Entails(tb.Lt(cur, st0.Peek(f.at(f.fWin)))) || p.St.F.Entails(tb.Lt(cur, p.St.Peek(f.at(f.fWin))))
				c.Ob(win, "window", name, p.Pos, "a codeword may be sent with %s in flight and a window of %s", cur, p.St.Peek(f.at(f.fWin)))
				cur = tb.AddK(cur, 1)
				pay, v := msgType(x)
				if !c.Ob(pay == "main.codeword", "queue", name+" kind", p.Pos, "the sender queues %s", x) {
					continue
				}
				cw := tb.Field(v, f.tCw, f.cCw)
				var ev *Event
				for _, e := range prods {
					if !used[e] && f.whole(p, e.Res, cw) == cw {
						ev = e
					}
				}
				if !c.Ob(ev != nil, "codeword", name, p.Pos, "what is sent is %s, not a codeword produced for it", cw) {
					continue
				}
				used[ev] = true
				nb := tb.Field(v, f.tCw, f.cNew)
				val, known := p.St.F.Value(nb)
				c.Ob(known && val == !started, "marked", name, p.Pos, "the %d. codeword after %d block starts has the start mark %s", n, len(rs), nb)
				if !started {
					order := false
					for _, e := range p.Events {
						if e == rs[0] {
							order = true
						}
						if e == ev {
							c.Ob(order, "codeword", name+" order", ev.Pos, "the first codeword of a block is produced before the block is set up")
						}
					}
				}
				started = true
				if len(rs) == 0 {
					b, known := p.St.F.Value(encA)
					c.Ob(known && b, "block", name, p.Pos, "a codeword is sent while no block is being sent")
				}
			}
		case "loop":
			L := q.l
			c.Ob(started, "marked", name+" loop", L.Pos, "codewords of a block are sent in a loop without the first one being marked")
			var fly *Term
			for _, v := range L.Vars {
				if v.Loc == f.at(f.fFly) {
					c.Ob(v.Entry == cur || same(v.Entry, cur), "in-flight", name+" entry", L.Pos, "%s are in flight, but %s is remembered", cur, v.Entry)
					fly = v.LV
				}
			}
			if fly != nil {
				cur = fly
			}
			for _, b := range L.Backs {
				f.segment(rt, b, L.HeadSt, 0, nil, nil)
			}
		default:
			c.Fail("queue", name+" "+q.kind, p.Pos, "messages are taken from the queue by the sender")
		}
	}
	c.Ob(same(p.St.Peek(f.at(f.fFly)), cur), "in-flight", name, p.Pos, "%s are in flight afterwards, but %s is remembered", cur, p.St.Peek(f.at(f.fFly)))
	if len(rs) == 0 {
		c.Ob(len(evs(p, "call", encAdd)) == 0, "block", name+" add", p.Pos, "a transaction is added to a block that was already started")
		return
	}
	// a block is started
	f.resets++
	c.Ob(started, "marked", name+" first", p.Pos, "a block is started without its first codeword being sent")
	r := rs[0]
	b, known := p.St.F.Value(valAt(p, st0, f.at(f.fEnc), r))
	// the mark may be set just before the reset
	if known && b {
		b, known = p.St.F.Value(encA)
		for _, e := range evs(p, "store", "") {
			if e.Args[0] == f.at(f.fEnc) {
				b, known = p.St.F.Value(enc0)
				break
			}
		}
	}
	c.Ob(known && !b, "start", name+" acknowledged", r.Pos, "a block may be started while another one is being sent")
	m, known := p.St.F.Value(f.may)
	c.Ob(known && m, "start", name+" allowed", r.Pos, "a block may be started although that is not allowed")
	buf := valAt(p, st0, f.at(f.fBuf), r)
	c.Ob(f.enough(p, buf), "start", name+" enough", r.Pos, "a block may be started with too few transactions")
	if len(r.Args) >= 3 {
		c.Ob(p.St.F.Entails(tb.Le(tb.Len(buf), r.Args[2])), "block", name+" size", r.Pos, "the encoder keeps %s of the %s transactions of a block", r.Args[2], tb.Len(buf))
	}
	v, known := p.St.F.Value(p.St.Peek(f.at(f.fEnc)))
	c.Ob(known && v, "start", name+" remembered", p.Pos, "a started block is remembered as %s", p.St.Peek(f.at(f.fEnc)))
	c.Ob(p.St.F.Entails(tb.Le(tb.Len(p.St.Peek(f.at(f.fBuf))), tb.Int(0))), "block", name+" emptied", p.Pos, "after a block was started the buffer holds %s", p.St.Peek(f.at(f.fBuf)))
	adds, after := 0, false
	for _, e := range p.Events {
		if e == r {
			after = true
		}
		c.Ob(!(e.Kind == "call" && e.Callee == encAdd), "block", name+" add", e.Pos, "a transaction is added to the block outside the loop over the buffer")
		if e.Kind != "loop" {
			continue
		}
		k := 0
		for _, b := range e.Loop.Backs {
			k += len(evs(b, "call", encAdd))
		}
		if k == 0 {
			continue
		}
		adds++
		ix, ok := f.counter(e.Loop, []*Path{p}, tb.Len(buf))
		if !c.Ob(ok && after, "block", name+" all", e.Loop.Pos, "not all buffered transactions enter the new block") {
			continue
		}
		et := sliceElem(f.ftype(f.tS, f.fBuf))
		for _, b := range e.Loop.Backs {
			ev := evs(b, "call", encAdd)
			good := false
			for _, i := range ix {
				x := b.St.Load(b.St.IndexAddr(buf, i, et), et)
				good = good || len(ev) == 1 && f.whole(b, x, ev[0].Args[1]) == ev[0].Args[1]
			}
			c.Ob(good, "block", name+" each", b.Pos, "a buffered transaction does not enter the block exactly once")
		}
	}
	c.Ob(adds == 1, "block", name+" loops", p.Pos, "the transactions of a block are added in %d loops", adds)
}

// receive: the receiver's side.
func (f *flow) receive(tA types.Type, aB int) *ltRoot {
	c, tb, s := f.c, f.x.TB, f.simp
	tR := c.Type("simulator", "receiver")
	fRec := s.need(tR, "block received", "currentBlockReceived", nil)
	fCur := s.need(tR, "codewords of the block", "curCodewords", isSliceT)
	fOut := s.need(tR, "receiver's queue", "outbox", isSliceT)
	thrP, lossP := fieldPath(tR, "detectThreshold"), fieldPath(tR, "targetCodewordLoss")
	if fRec < 0 || fCur < 0 || fOut < 0 || !c.Ob(thrP != nil && lossP != nil, "anchor", "receiver configuration", token.NoPos, "configuration of the receiver not found") {
		return nil
	}
	rt := s.run("receiver", "onCodeword", nil)
	if rt == nil {
		return nil
	}
	name := rt.name
	f.n, f.tS = rt.args[0], tR
	cw := rt.par(isNamed("codeword"))
	if !c.Ob(cw != nil, "anchor", name, rt.fn.Pos(), "parameters of %s", name) {
		return rt
	}
	nb, code := tb.Field(cw, f.tCw, f.cNew), tb.Field(cw, f.tCw, f.cCw)
	acks := 0
	for _, p := range rt.ps {
		if !c.Ob(p.Kind == "return", "total", name, p.Pos, "%s can end in a %s", name, p.Kind) {
			continue
		}
		w, ok := walk(p, rt.idx, p.St.Peek(f.at(fOut)), rt.st0.Peek(f.at(fOut)))
		if !c.Ob(ok && len(w) == 1 && w[0].kind == "append" && len(w[0].xs) == 1, "one-ack", name, p.Pos, "a codeword makes the queue %s, not one acknowledgement longer", p.St.Peek(f.at(fOut))) {
			continue
		}
		pay, v := msgType(w[0].xs[0])
		if !c.Ob(pay == "main.ack", "one-ack", name+" kind", p.Pos, "a codeword is answered by %s", w[0].xs[0]) {
			continue
		}
		add := evs(p, "call", "(*lt.Decoder).AddCodeword")
		if !c.Ob(len(add) == 1 && f.whole(p, code, add[0].Args[1]) == add[0].Args[1], "decoded", name, p.Pos, "a codeword is not given to the decoder exactly once") {
			continue
		}
		stub := tb.Mk("", "")
		ups := p.Vals[0]
		for _, t := range subterms(p.St.Peek(f.at(fCur))) {
			if strings.HasPrefix(t.Op, "extract") && t.Args[0] == add[0].Res && t != ups {
				stub = t
			}
		}
		c.Ob(strings.HasPrefix(ups.Op, "extract") && ups.Args[0] == add[0].Res, "decoded", name+" up", p.Pos, "the transactions decoded are not handed up: %s", ups)
		nbv, known := p.St.F.Value(nb)
		if !c.Ob(known, "block", name+" new", p.Pos, "a codeword is taken without regard to its start mark") {
			continue
		}
		cur0, cur1 := rt.st0.Peek(f.at(fCur)), p.St.Peek(f.at(fCur))
		if nbv {
			ok := cur1.Op == "append" && len(cur1.Args) == 2 && cur1.Args[1] == stub && p.St.F.Entails(tb.Le(tb.Len(cur1.Args[0]), tb.Int(0)))
			c.Ob(ok, "block", name+" list new", p.Pos, "after the first codeword of a block its codewords are %s", cur1)
		} else {
			c.Ob(cur1.Op == "append" && len(cur1.Args) == 2 && cur1.Args[1] == stub && cur1.Args[0] == cur0, "block", name+" list", p.Pos, "after another codeword of a block its codewords are %s", cur1)
		}
		rec0, rec1 := rt.st0.Peek(f.at(fRec)), p.St.Peek(f.at(fRec))
		done, dk := false, true
		if !nbv {
			done, dk = p.St.F.Value(rec0)
		}
		_, abk := p.St.F.Value(tb.Field(v, tA, aB))
		sts := []*State{p.St}
		if !abk {
			// look at both outcomes
			sts = []*State{p.St.Clone(), p.St.Clone()}
			sts[0].F.Assume(tb.Field(v, tA, aB))
			sts[1].F.Assume(tb.Not(tb.Field(v, tA, aB)))
		}
		for _, st := range sts {
			if !abk && contradictory(st.F, tb) {
				continue
			}
			ab, abk := st.F.Value(tb.Field(v, tA, aB))
			if !c.Ob(abk, "ack", name, p.Pos, "an acknowledgement of a block of %s", tb.Field(v, tA, aB)) {
				continue
			}
			r1, rk := st.F.Value(rec1)
			limit, count := f.share(rt, p, st, cur1, lossP)
			if ab {
				acks++
				c.Ob(dk && !done, "once", name, p.Pos, "a block may be acknowledged twice")
				c.Ob(rk && r1, "once", name+" remembered", p.Pos, "an acknowledged block is remembered as %s", rec1)
				c.Ob(limit != nil && st.F.Entails(tb.Le(count, limit)), "ack", name+" share", p.Pos, "a block may be acknowledged with more undecoded codewords (%v) than the configured share (%v) of %s", count, limit, cur1)
				c.Ob(st.F.Entails(tb.Lt(f.path(st, thrP), tb.Len(cur1))), "ack", name+" threshold", p.Pos, "a block may be acknowledged before more codewords than the threshold arrived")
			} else {
				if nbv {
					c.Ob(rk && !r1, "once", name+" kept", p.Pos, "a new block is remembered as %s", rec1)
				} else {
					c.Ob(st.F.ProveEq(rec1, rec0) || rk && dk && r1 == done, "once", name+" kept", p.Pos, "a block not acknowledged is remembered as %s", rec1)
				}
				few := st.F.Entails(tb.Le(tb.Len(cur1), f.path(st, thrP)))
				c.Ob(dk && done || few || limit != nil && st.F.Entails(tb.Lt(limit, count)), "ack", name+" due", p.Pos, "a block is not acknowledged although enough of it is decoded")
			}
		}
	}
	c.Ob(acks > 0, "instances", name, token.NoPos, "a block is never acknowledged")
	return rt
}

// share finds the number of undecoded codewords of the block and its limit.
func (f *flow) share(rt *ltRoot, p *Path, st *State, cur *Term, lossP []int) (limit, count *Term) {
	tb := f.x.TB
	loss := f.path(p.St, lossP)
	for _, t := range st.F.Terms() {
		if t.Op == "conv" && len(t.Args) == 1 && t.Args[0] == loss && tb.Len(cur) == tb.Int(1) {
			limit = t
		}
		if t.Op == "conv" && len(t.Args) == 1 && t.Args[0].Op == "mul" && len(t.Args[0].Args) == 2 {
			for i := 0; i < 2; i++ {
				x, y := t.Args[0].Args[i], t.Args[0].Args[1-i]
				if y == loss && x.Op == "conv" && x.Args[0] == tb.Len(cur) {
					limit = t
				}
			}
		}
	}
	et := sliceElem(cur.Typ)
	for _, e := range evs(p, "loop", "") {
		L := e.Loop
		ix, ok := f.counter(L, []*Path{p}, tb.Len(cur))
		if !ok || et == nil {
			continue
		}
		for _, v := range L.Vars {
			if v.LV.Typ == nil || !isBasicInt(v.LV.Typ) || v.Entry != tb.Int(0) {
				continue
			}
			// counts decoded or undecoded ones
			good := [2]bool{true, true}
			for _, b := range L.Backs {
				ev := evs(b, "call", "(*lt.PendingCodeword).Decoded")
				ok := len(ev) == 1
				if ok {
					hit := false
					for _, i := range ix {
						hit = hit || ev[0].Args[0] == b.St.Load(b.St.IndexAddr(cur, i, et), et)
					}
					ok = hit
				}
				if !ok {
					good = [2]bool{}
					break
				}
				dec, known := b.St.F.Value(ev[0].Res)
				d := tb.Sub(L.Back(b, v), v.LV)
				for k := 0; k < 2; k++ {
					want := int64(0)
					if dec == (k == 1) {
						want = 1
					}
					good[k] = good[k] && known && d == tb.Int(want)
				}
			}
			if good[0] && L.Var(v.LV) != nil {
				count = v.LV
			} else if good[1] {
				count = tb.Sub(tb.Len(cur), v.LV)
			}
		}
	}
	if count == nil {
		limit = nil
	}
	return limit, count
}
