package rules

import (
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

func init() {
	register(&Rule{ID: "C42", Pkgs: []string{"node"}, MinObl: 12, Run: ruleC42,
		What: "on every iteration path of the decoding goroutine the window of codewords loses only its head, and only one known to have timed out, which is then asked once whether it was decoded, counted exactly if not, and freed once; emptying stops only at a head not timed out; the count is sent on, and the peer's count when it is positive; every stub is appended with the time. On every iteration path of the encoding goroutine the changes of the accumulated loss and of the rate are exactly those the events on the path call for, and the rate is compared with the minimum after each decrease; the initial rate is not below it"})
	register(&Rule{ID: "C45", Pkgs: []string{"node"}, MinObl: 4, Run: ruleC45,
		What: "on every iteration path of the encoding goroutine the credit changes by the rate times the timer's interval for each tick and by minus one for each codeword produced, which needs a whole credit; the loop that produces ends only with less than one left"})
}

// chans lists the channels an event may use.
func (n *nodep) chans(ev *Event) []ssa.Value {
	if len(ev.Args) > 0 {
		t := ev.Args[0]
		if t.Op == "load" && t.Args[0].Op == "faddr" {
			if v, ok := t.Args[0].Obj.(*types.Var); ok {
				if k := n.fieldOf[v]; k != "" {
					var out []ssa.Value
					for _, v := range n.g.fields[k] {
						out = append(out, n.g.channels(v)...)
					}
					return out
				}
			}
		}
	}
	switch in := ev.Instr.(type) {
	case *ssa.Send:
		return n.g.channels(in.Chan)
	case *ssa.Select:
		if ev.Case < len(in.States) {
			return n.g.channels(in.States[ev.Case].Chan)
		}
	case *ssa.UnOp:
		return n.g.channels(in.X)
	}
	return nil
}

func ruleC42(c *C) {
	n := c.node()
	if n.bad {
		return
	}
	peer, own := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	fLoss := -1
	if fs := fieldsOfType(n.tCW, isBasic(types.Int)); len(fs) == 1 {
		fLoss = fs[0]
	}
	if !c.Ob(fLoss >= 0, "anchor", "loss field", token.NoPos, "the number of losses a codeword reports cannot be resolved") {
		return
	}
	for _, rt := range n.tops(n.D[0]) {
		n.window(rt, fLoss, peer, own)
	}
	ok := c.Ob(len(peer) > 0, "instances", "peer losses", token.NoPos, "the losses the peer reports are not passed to the encoding goroutine")
	ok = c.Ob(len(own) > 0, "instances", "own losses", token.NoPos, "the losses counted here are not passed to the encoding goroutine") && ok
	for v := range peer {
		ok = c.Ob(!own[v], "losses", "channels", v.Pos(), "losses counted here and losses reported by the peer are passed on the same channel") && ok
	}
	if !ok {
		return
	}
	for _, rt := range n.tops(n.E[0]) {
		n.rate(rt, fLoss, peer, own)
	}
	// losses travel in codewords, which are written and read whole
	c.borrow(func() { ruleC43(c) }, "fresh", "queued", "written")
}

// window checks the receive window of the decoding goroutine.
func (n *nodep) window(rt *ltRoot, fLoss int, peer, own map[ssa.Value]bool) {
	c, tb := n.c, n.x.TB
	var tW types.Type // element of the window
	fP, fT := -1, -1
	isWin := func(t types.Type) bool {
		e := sliceElem2(t)
		if e == nil {
			return false
		}
		ps, ts := fieldsOfType(e, ptrTo("PendingCodeword")), fieldsOfType(e, isNamed("Time"))
		if len(ps) != 1 || len(ts) != 1 {
			return false
		}
		tW, fP, fT = e, ps[0], ts[0]
		return true
	}
	nExp, nStub := 0, 0
	for _, sg := range c.Segs(rt.ps) {
		p := sg.P
		var frees, decs, nows []*Event
		for _, e := range p.Events {
			if e.Kind != "call" {
				continue
			}
			switch e.Callee {
			case "(*ldpc.PendingCodeword).Free":
				frees = append(frees, e)
			case "(*ldpc.PendingCodeword).Decoded":
				decs = append(decs, e)
			case "time.Now":
				nows = append(nows, e)
			}
		}
		usedFree := map[*Event]bool{}
		stubs := map[*Term]int{}
		for _, e := range evs(p, "call", "(*ldpc.Decoder).AddCodeword") {
			stubs[tb.MkT(e.Res.Typ.(*types.Tuple).At(0).Type(), "extract", "0", e.Res)] = 0
		}
		counts := map[*Loop]*Term{} // loop that empties the window -> its count of losses
		if sg.Loop != nil {
			for _, v := range sg.Loop.Vars {
				if v.LV.Typ == nil || !isWin(v.LV.Typ) {
					continue
				}
				steps, ok := walk(p, rt.idx, sg.Loop.Back(p, v), v.LV)
				if !c.Ob(ok, "window", rt.name, p.Pos, "the window of received codewords is replaced by something else than what is left of it and new codewords") {
					continue
				}
				for _, s := range steps {
					switch s.kind {
					case "append":
						for _, x := range s.xs {
							pc, at := tb.Field(x, tW, fP), tb.Field(x, tW, fT)
							k, isStub := stubs[pc]
							if c.Ob(isStub, "stub", rt.name, p.Pos, "something else than the codeword just received enters the window") {
								stubs[pc] = k + 1
							}
							isNow := false
							for _, e := range nows {
								isNow = isNow || e.Res == at
							}
							c.Ob(isNow, "stub-time", rt.name, p.Pos, "a received codeword enters the window with a time that is not that of its arrival")
						}
					case "drop":
						if s.xs[0] == tb.Int(1) {
							// the head leaves
							h := n.head(p, s.before, tb.Int(0), tW)
							n.expire(rt, p, h, fP, fT, frees, decs, usedFree, tW)
							nExp++
							continue
						}
						// several leave at once, after a loop that counted them
						l, lv := n.counted(p, rt.idx, s.xs[0])
						if !c.Ob(l != nil, "window", rt.name, p.Pos, "%s codewords leave the window that no loop looked at", s.xs[0]) {
							continue
						}
						nExp++
						c.Ob(lv.Entry == tb.Int(0), "window", rt.name+" start", l.Pos, "the codewords that leave the window are not looked at from the first on")
						for _, b := range l.Backs {
							c.Ob(l.Back(b, lv) == tb.AddK(lv.LV, 1), "window", rt.name+" step", b.Pos, "a codeword that leaves the window is not looked at")
							h := n.head(b, s.before, lv.LV, tW)
							for _, i := range n.inStep(l, lv) {
								if o := n.head(b, s.before, i, tW); len(evs(b, "call", decKeep)) > 0 && evs(b, "call", decKeep)[0].Args[0] == tb.Field(o, tW, fP) {
									h = o
								}
							}
							var fr, de []*Event
							for _, e := range b.Events {
								if e.Kind == "call" && e.Callee == "(*ldpc.PendingCodeword).Free" {
									fr = append(fr, e)
								}
								if e.Kind == "call" && e.Callee == "(*ldpc.PendingCodeword).Decoded" {
									de = append(de, e)
								}
							}
							n.expire(rt, b, h, fP, fT, fr, de, usedFree, tW)
						}
						n.rest(rt, p, s.before, lv.LV, fT, tW, l)
						counts[l] = n.lossOf(l, fP, decKeep)
					case "loop":
						n.rest(rt, p, s.after, tb.Int(0), fT, tW, s.l)
						counts[s.l] = n.lossOf(s.l, fP, decKeep)
					default:
						c.Fail("window", rt.name, p.Pos, "the window of received codewords is changed by %s", s.kind)
					}
				}
			}
		}
		for pc, k := range stubs {
			nStub++
			c.Ob(k == 1, "stub", rt.name+" kept", p.Pos, "a received codeword (%s) enters the window %d times, not once", pc, k)
		}
		for _, e := range frees {
			ok := usedFree[e]
			if !ok && sg.Loop != nil {
				ok = n.freedByIndex(rt, sg.Loop, e, tW, fP)
			}
			c.Ob(ok, "freed", rt.name+" "+c.Pos(e.Pos), e.Pos, "a codeword is freed that does not leave the window with it")
		}
		// counts are passed on
		usedSend := map[*Event]bool{}
		for l, cnt := range counts {
			if !c.Ob(cnt != nil, "count", rt.name, l.Pos, "no count grows by exactly one for each codeword that leaves the window undecoded") {
				continue
			}
			k := 0
			for _, e := range p.Events {
				if isSend(e) && n.may(e, "loss") && e.Args[1] == cnt {
					k++
					usedSend[e] = true
					for _, ch := range n.chans(e) {
						own[ch] = true
					}
				}
			}
			if k == 0 && p.St.F.Entails(tb.Le(cnt, tb.Int(0))) {
				continue
			}
			c.Ob(k == 1, "passed-on", rt.name, l.Pos, "the number of codewords that left the window undecoded is passed to the encoding goroutine %d times, not once", k)
		}
		for _, e := range p.Events {
			if !isRecv(e) || !n.may(e, "rxq") || !got(p, e) {
				continue
			}
			l := tb.Field(e.Res, n.tCW, fLoss)
			k := 0
			for _, x := range p.Events {
				if isSend(x) && n.may(x, "loss") && x.Args[1] == l {
					k++
					usedSend[x] = true
					c.Ob(p.St.F.Entails(tb.Le(tb.Int(0), l)), "negative", rt.name, x.Pos, "a negative number of losses reported by the peer is not left out")
					for _, ch := range n.chans(x) {
						peer[ch] = true
					}
				}
			}
			if k == 0 && p.St.F.Entails(tb.Le(l, tb.Int(0))) {
				continue
			}
			c.Ob(k == 1, "reported", rt.name, e.Pos, "the losses the peer reports with a codeword are passed to the encoding goroutine %d times, not once", k)
		}
		for _, e := range p.Events {
			if isSend(e) && n.may(e, "loss") {
				c.Ob(usedSend[e], "passed-on", rt.name+" stray", e.Pos, "something else than the losses just counted or just reported is passed to the encoding goroutine")
			}
		}
	}
	c.Ob(nExp > 0, "instances", rt.name+" window", rt.fn.Pos(), "no codeword ever leaves the window")
	c.Ob(nStub > 0, "instances", rt.name+" stubs", rt.fn.Pos(), "no codeword ever enters the window")
}

// head: element i of the window.
func (n *nodep) head(p *Path, list, i *Term, tW types.Type) *Term {
	return p.St.Load(p.St.IndexAddr(list, i, tW), tW)
}

const decKeep = "(*ldpc.PendingCodeword).Decoded"

// expire checks one codeword's way out of the window on iteration path p.
func (n *nodep) expire(rt *ltRoot, p *Path, h *Term, fP, fT int, frees, decs []*Event, used map[*Event]bool, tW types.Type) {
	c, tb := n.c, n.x.TB
	pc := tb.Field(h, tW, fP)
	out, _ := n.timedOut(p, tb.Field(h, tW, fT))
	c.Ob(out, "timed-out", rt.name, p.Pos, "a codeword leaves the window without having timed out")
	k := 0
	for _, e := range frees {
		if e.Args[0] == pc {
			k++
			used[e] = true
		}
	}
	c.Ob(k == 1, "freed", rt.name, p.Pos, "a codeword that leaves the window is freed %d times, not once", k)
	known := false
	for _, e := range decs {
		if e.Args[0] != pc {
			continue
		}
		if _, ok := p.St.F.Value(e.Res); !ok {
			continue
		}
		known = true
		for _, f := range frees {
			if f.Args[0] == pc {
				c.Ob(before(p, e, f), "asked", rt.name, e.Pos, "whether a codeword was decoded is asked after it was freed")
			}
		}
	}
	c.Ob(known, "asked", rt.name, p.Pos, "it is not asked whether a codeword that leaves the window was decoded")
}

func before(p *Path, a, b *Event) bool {
	for _, e := range p.Events {
		if e == a {
			return true
		}
		if e == b {
			return false
		}
	}
	return false
}

// freedByIndex: the free is in a loop that looks at the codewords that leave.
func (n *nodep) freedByIndex(rt *ltRoot, l *Loop, e *Event, tW types.Type, fP int) bool {
	for _, b := range l.Backs {
		mine := false
		for _, x := range b.Events {
			mine = mine || x == e
		}
		if !mine {
			continue
		}
		for _, v := range l.Vars {
			if v.LV.Typ == nil || !isBasicInt(v.LV.Typ) || l.Back(b, v) != n.x.TB.AddK(v.LV, 1) {
				continue
			}
			if absint.Contains(e.Args[0], v.LV) {
				return true
			}
		}
		return false
	}
	return false
}

// lossOf finds the variable that counts what leaves the window undecoded.
func (n *nodep) lossOf(l *Loop, fP int, key string) *Term {
	tb := n.x.TB
	for _, v := range l.Vars {
		if v.LV.Typ == nil || !isBasicInt(v.LV.Typ) || v.Entry != tb.Int(0) {
			continue
		}
		good, some := len(l.Backs) > 0, false
		for _, b := range l.Backs {
			one := false
			for _, e := range b.Events {
				if e.Kind == "call" && e.Callee == key {
					if val, ok := b.St.F.Value(e.Res); ok {
						want := v.LV
						if !val {
							want = tb.AddK(v.LV, 1)
							some = true
						}
						one = l.Back(b, v) == want
					}
				}
			}
			good = good && one
		}
		if good && some {
			return v.LV
		}
	}
	return nil
}

func (n *nodep) counted(p *Path, idx map[*Term][]lvRec, t *Term) (*Loop, *absint.LVInfo) {
	for _, r := range idx[t] {
		if onPath(p, r.l) && r.v.LV == t {
			return r.l, r.v
		}
	}
	return nil, nil
}

// inStep: what equals variable v of loop l in terms of the other variables
// that go on by the same in every turn.
func (n *nodep) inStep(l *Loop, v *absint.LVInfo) (res []*Term) {
	tb := n.x.TB
	for _, w := range l.Vars {
		if w == v || w.LV.Typ == nil || !isBasicInt(w.LV.Typ) {
			continue
		}
		d := tb.Sub(v.Entry, w.Entry)
		ok := len(l.Backs) > 0 && d.Op == "num"
		for _, b := range l.Backs {
			ok = ok && tb.Sub(l.Back(b, w), w.LV) == tb.Sub(l.Back(b, v), v.LV)
		}
		if ok {
			res = append(res, tb.Add(w.LV, d))
		}
	}
	return
}

// rest: emptying the window stops only at its end or at a codeword that has not timed out.
func (n *nodep) rest(rt *ltRoot, p *Path, list, i *Term, fT int, tW types.Type, l *Loop) {
	if p.Kind == "panic" || p.Kind == "exit" {
		return
	}
	tb := n.x.TB
	if p.St.F.Entails(tb.Le(tb.Len(list), i)) {
		return
	}
	_, in := n.timedOut(p, tb.Field(n.head(p, list, i, tW), tW, fT))
	if !in && l.HeadSt != nil {
		// as it was when the last turn began
		h := l.HeadSt.Clone()
		_, in = n.timedOut(p, tb.Field(h.Load(h.IndexAddr(list, i, tW), tW), tW, fT))
	}
	for _, v := range l.Vars {
		if v.LV == i {
			for _, o := range n.inStep(l, v) {
				_, in2 := n.timedOut(p, tb.Field(n.head(p, list, o, tW), tW, fT))
				in = in || in2 || p.St.F.Entails(tb.Le(tb.Len(list), o))
			}
		}
	}
	n.c.Ob(in, "emptied", rt.name, l.Pos, "emptying the window can stop before a codeword that timed out")
}

// timedOut: do the facts say that the time since t is at least the timeout, or less.
func (n *nodep) timedOut(p *Path, t *Term) (out, in bool) {
	tb := n.x.TB
	f := p.St.F
	isDur := func(x *Term) bool {
		if x.Op != "load" || x.Args[0].Op != "faddr" {
			return false
		}
		v, ok := x.Args[0].Obj.(*types.Var)
		return ok && isNamed("Duration")(v.Type())
	}
	nowT := func(x *Term) bool { return x.Op == "sym" && x.Typ != nil && isNamed("Time")(x.Typ) && x != t }
	var durs, subs, bools []*Term
	for _, x := range f.Terms() {
		for _, a := range append([]*Term{x}, absint.Atoms(x)...) {
			switch {
			case isDur(a):
				durs = append(durs, a)
			case a.Op == "call" && a.Aux == "(time.Time).Sub" && a.Args[1] == t && nowT(a.Args[0]):
				subs = append(subs, a)
			case a.Op == "call" && (a.Aux == "(time.Time).After" || a.Aux == "(time.Time).Before"):
				bools = append(bools, a)
			}
		}
	}
	for a := range f.AtomList() {
		if a.Op == "call" && (a.Aux == "(time.Time).After" || a.Aux == "(time.Time).Before") {
			bools = append(bools, a)
		}
	}
	for _, s := range subs {
		for _, d := range durs {
			out = out || f.Entails(tb.Le(d, s))
			in = in || f.Entails(tb.Le(s, d))
		}
	}
	for _, b := range bools {
		v, k := f.Value(b)
		if !k {
			continue
		}
		due := func(x *Term) bool { // arrival plus timeout
			return x.Op == "call" && x.Aux == "(time.Time).Add" && x.Args[0] == t && isDur(x.Args[1])
		}
		after := b.Aux == "(time.Time).After"
		switch {
		case due(b.Args[0]) && nowT(b.Args[1]): // due after now
			out = out || v != after
			in = in || v == after
		case due(b.Args[1]) && nowT(b.Args[0]): // now after due
			out = out || v == after
			in = in || v != after
		}
	}
	return
}

// ---------------------------------------------------------------- the rate

// class identifies a variable across nested loops.
func (n *nodep) class(v *absint.LVInfo) any {
	if v.Loc != nil {
		return v.Loc
	}
	if k, ok := n.cls[v.LV]; ok {
		return k
	}
	return v.LV
}

// classes links the variables of inner loops to those of the loops around them
// they are kept in.
func (n *nodep) classes(rt *ltRoot) {
	n.cls = map[*Term]any{}
	n.c.EachLoop(rt.ps, func(outer []*Loop, l *Loop, in *Path) {
		if len(outer) == 0 {
			return
		}
		o := outer[len(outer)-1]
		for _, w := range l.Vars {
			if w.Loc != nil || w.LV.Typ == nil {
				continue
			}
			for _, v := range o.Vars {
				if v.Loc == nil && v.LV.Typ != nil && types.Identical(v.LV.Typ, w.LV.Typ) && o.Back(in, v) == w.LV {
					n.cls[w.LV] = n.class(v)
				}
			}
		}
	})
}

type rateVars struct {
	rate, accum any
	inc         *Term
}

// ofClass finds the loop's variable of a class; inner loops of locals are
// recognised by what they start from.
func (n *nodep) ofClass(l *Loop, k any, cur *Term) *absint.LVInfo {
	for _, v := range l.Vars {
		if n.class(v) == k {
			return v
		}
	}
	for _, v := range l.Vars {
		if v.Loc == nil && cur != nil && v.Entry == cur {
			return v
		}
	}
	return nil
}

func isF64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (n *nodep) onChans(e *Event, m map[ssa.Value]bool) bool {
	cs := n.chans(e)
	for _, c := range cs {
		if !m[c] {
			return false
		}
	}
	return len(cs) > 0
}

// findRate finds the variables of the encoding goroutine that change with the losses.
func (n *nodep) findRate(rt *ltRoot, peer, own map[ssa.Value]bool) (rv rateVars) {
	c, tb := n.c, n.x.TB
	for _, sg := range c.Segs(rt.ps) {
		if sg.Loop == nil {
			continue
		}
		for _, e := range sg.P.Events {
			if !isRecv(e) || !got(sg.P, e) {
				continue
			}
			for _, v := range sg.Loop.Vars {
				d := tb.Sub(sg.Loop.Back(sg.P, v), v.LV)
				if n.onChans(e, peer) && v.LV.Typ != nil && isF64(v.LV.Typ) && absint.Contains(d, e.Res) && !absint.Contains(d, v.LV) {
					rv.rate = n.class(v)
				}
				if n.onChans(e, own) && v.LV.Typ != nil && isBasicInt(v.LV.Typ) && d == e.Res {
					rv.accum = n.class(v)
				}
			}
		}
	}
	return
}

// isRaise: d is a constant factor times the number of losses.
func (n *nodep) isRaise(d, l *Term) *Term {
	if d.Op != "mul" || len(d.Args) != 2 {
		return nil
	}
	for i := 0; i < 2; i++ {
		x, y := d.Args[i], d.Args[1-i]
		if y.Op == "conv" && y.Aux == "float64" && y.Args[0] == l && fieldLoad(x) != nil {
			return x
		}
	}
	return nil
}

func fieldLoad(t *Term) *types.Var {
	if t.Op != "load" || t.Args[0].Op != "faddr" {
		return nil
	}
	v, _ := t.Args[0].Obj.(*types.Var)
	return v
}

func (n *nodep) rate(rt *ltRoot, fLoss int, peer, own map[ssa.Value]bool) {
	c, tb := n.c, n.x.TB
	n.classes(rt)
	rv := n.findRate(rt, peer, own)
	ok := c.Ob(rv.rate != nil, "instances", rt.name+" rate", rt.fn.Pos(), "no rate grows with the losses the peer reports")
	ok = c.Ob(rv.accum != nil, "instances", rt.name+" losses", rt.fn.Pos(), "no number grows by the losses counted here") && ok
	if !ok {
		return
	}
	fInc, fDec, fMin := map[*types.Var]bool{}, map[*types.Var]bool{}, map[*types.Var]bool{}
	nSent, nFloor, nDrop := 0, 0, 0
	for _, sg := range c.Segs(rt.ps) {
		if sg.Loop == nil {
			continue
		}
		p := sg.P
		f := p.St.F
		var rate, accum, rate0 *Term
		vr, va := n.ofClass(sg.Loop, rv.rate, nil), n.ofClass(sg.Loop, rv.accum, nil)
		if l, ok := rv.rate.(*Term); ok && l.Op != "lv" && vr == nil && sg.From != nil {
			rate = sg.From.Peek(l)
		}
		if l, ok := rv.accum.(*Term); ok && l.Op != "lv" && va == nil && sg.From != nil {
			accum = sg.From.Peek(l)
		}
		if vr != nil {
			rate = vr.LV
		}
		if va != nil {
			accum = va.LV
		}
		rate0 = rate
		var sends []*Event
		dropped := 0
		for _, e := range p.Events {
			switch {
			case e.Kind == "loop":
				if v := n.ofClass(e.Loop, rv.rate, rate); v != nil {
					c.Ob(rate == nil || v.Entry == rate || f.ProveEq(v.Entry, rate), "rate", rt.name+" nested", e.Loop.Pos, "the codeword rate changes without a loss or a queued codeword")
					rate = v.LV
				}
				if v := n.ofClass(e.Loop, rv.accum, accum); v != nil {
					c.Ob(accum == nil || v.Entry == accum || f.ProveEq(v.Entry, accum), "losses", rt.name+" nested", e.Loop.Pos, "the number of losses to report changes without a loss or a queued codeword")
					accum = v.LV
				}
			case isRecv(e) && got(p, e) && n.may(e, "loss"):
				switch {
				case n.onChans(e, peer):
					if rate == nil || vr == nil {
						c.Fail("rate", rt.name+" raised", e.Pos, "the codeword rate does not grow with the losses the peer reports")
						continue
					}
					d := tb.Sub(sg.Loop.Back(p, vr), rate)
					x := n.isRaise(d, e.Res)
					if c.Ob(x != nil, "rate", rt.name+" raised", e.Pos, "the codeword rate does not grow by a fixed factor times the losses the peer reports, but by %s", d) {
						fInc[fieldLoad(x)] = true
						rate = tb.Add(rate, d)
					}
				case n.onChans(e, own):
					if accum != nil {
						accum = tb.Add(accum, e.Res)
					}
				default:
					c.Fail("losses", rt.name+" received", e.Pos, "a number received here is neither always the losses counted here nor always those reported by the peer")
				}
			case isSend(e) && n.may(e, "txq"):
				sends = append(sends, e)
				nSent++
				v := e.Args[1]
				l := tb.Field(v, n.tCW, fLoss)
				c.Ob(accum != nil && (l == accum || f.ProveEq(l, accum)), "reports", rt.name, e.Pos, "a codeword is queued with %s as the losses to report, not the accumulated number", l)
				cw := tb.Field(v, n.tCW, n.iCW)
				k := 0
				for _, x := range evs(p, "call", "(*ldpc.Encoder).ProduceCodeword") {
					if x.Res == cw && before(p, x, e) {
						k++
					}
				}
				c.Ob(k == 1, "reports", rt.name+" codeword", e.Pos, "what is queued is not the codeword just produced")
				accum = tb.Int(0)
				if vr == nil || rate == nil {
					c.Fail("rate", rt.name+" lowered", e.Pos, "the codeword rate is not lowered for a queued codeword")
					continue
				}
				nv := sg.Loop.Back(p, vr)
				rate = nv
				cand := func(d, base *Term) bool { // base - d
					if v := fieldLoad(d); v != nil {
						fDec[v] = true
						return true
					}
					return false
				}
				base := rate0
				switch {
				case nv.Op == "call" && nv.Aux == "math.Max":
					okM := false
					for i := 0; i < 2; i++ {
						if m := fieldLoad(nv.Args[i]); m != nil {
							if cand(tb.Sub(base, nv.Args[1-i]), base) {
								fMin[m] = true
								okM = true
								break
							}
						}
					}
					if okM {
						nFloor++
					}
					c.Ob(okM, "rate", rt.name+" lowered", e.Pos, "the codeword rate is not lowered to the larger of the minimum and the rate less the decrement")
				case fieldLoad(nv) != nil:
					// the minimum, if the decreased rate is below
					m := nv
					found := false
					for _, x := range f.Terms() {
						for _, a := range append([]*Term{x}, absint.Atoms(x)...) {
							if fv := fieldLoad(a); fv != nil && a != m && isF64(fv.Type()) && a != base && f.Entails(tb.FLe(tb.Sub(base, a), m)) {
								fDec[fv] = true
								found = true
							}
						}
					}
					fMin[fieldLoad(m)] = true
					nFloor++
					c.Ob(found, "rate", rt.name+" floor", e.Pos, "the codeword rate is set to the minimum although the lowered rate is not known to be below")
				default:
					d := tb.Sub(base, nv)
					if !c.Ob(cand(d, base), "rate", rt.name+" lowered", e.Pos, "the codeword rate is not lowered by a fixed decrement for a queued codeword, but by %s", d) {
						continue
					}
					found := false
					for _, x := range f.Terms() {
						for _, a := range append([]*Term{x}, absint.Atoms(x)...) {
							if fv := fieldLoad(a); fv != nil && a != d && isF64(fv.Type()) && a != base && f.Entails(tb.FLe(a, nv)) {
								fMin[fv] = true
								found = true
							}
						}
					}
					c.Ob(found, "rate", rt.name+" floor", e.Pos, "the lowered codeword rate is not compared with the minimum")
				}
			case e.Kind == "select" && e.Callee == "default":
				if n.roles(e)["txq"] {
					dropped++
				}
			}
		}
		c.Ob(len(sends) <= 1, "queued", rt.name, p.Pos, "a path queues several codewords")
		if vr != nil {
			nv := sg.Loop.Back(p, vr)
			c.Ob(nv == rate || f.ProveEq(nv, rate), "rate", rt.name+" kept", p.Pos, "the codeword rate becomes %s where %s is due", nv, rate)
		}
		if va != nil {
			nv := sg.Loop.Back(p, va)
			c.Ob(nv == accum || f.ProveEq(nv, accum), "losses", rt.name+" kept", p.Pos, "the number of losses to report becomes %s where %s is due", nv, accum)
		} else if len(sends) > 0 {
			c.Fail("losses", rt.name+" kept", p.Pos, "the number of losses to report is not reset when a codeword is queued")
		}
		if dropped > 0 {
			nDrop++
			k := 0
			for _, v := range sg.Loop.Vars {
				if v.LV.Typ != nil && isBasicInt(v.LV.Typ) && n.class(v) != rv.accum && sg.Loop.Back(p, v) == tb.AddK(v.LV, 1) {
					k++
				}
			}
			c.Ob(k > 0, "dropped", rt.name, p.Pos, "a codeword that could not be queued is not counted")
		}
	}
	c.Ob(nSent > 0, "instances", rt.name+" queue", rt.fn.Pos(), "no codeword is queued for the peer")
	c.Ob(nFloor > 0, "instances", rt.name+" floor", rt.fn.Pos(), "the codeword rate is never held at a minimum")
	one := func(m map[*types.Var]bool, what string) *types.Var {
		if !c.Ob(len(m) == 1, "instances", rt.name+" "+what, rt.fn.Pos(), "the %s of the codeword rate is not one fixed field", what) {
			return nil
		}
		for v := range m {
			return v
		}
		return nil
	}
	inc, dec, min := one(fInc, "increment"), one(fDec, "decrement"), one(fMin, "minimum")
	if inc == nil || dec == nil || min == nil {
		return
	}
	c.Ob(inc != dec && dec != min && inc != min, "rate", rt.name+" constants", rt.fn.Pos(), "increment, decrement and minimum of the codeword rate are not told apart")
	for _, v := range []*types.Var{inc, dec, min} {
		for _, o := range n.g.fns {
			for _, b := range o.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || n.varOf(fa) != v {
						continue
					}
					running := false
					for _, r := range n.g.roots {
						running = running || r.name != "main" && r == n.E[0] && r.reach[o]
					}
					c.Ob(!running, "constants", v.Name(), s.Pos(), "%s of the codeword rate changes while codewords are sent", v.Name())
				}
			}
		}
	}
	n.wiring(rt, rv, inc, dec, min)
}

func (n *nodep) varOf(fa *ssa.FieldAddr) *types.Var {
	st, ok := structOf(fa.X.Type())
	if !ok {
		return nil
	}
	return st.Field(fa.Field)
}

// wiring follows the rate's constants from where a peer is made to the program's start.
func (n *nodep) wiring(rt *ltRoot, rv rateVars, inc, dec, min *types.Var) {
	c, tb := n.c, n.x.TB
	loc, ok := rv.rate.(*Term)
	var rate *types.Var
	if ok && loc.Op == "faddr" {
		rate, _ = loc.Obj.(*types.Var)
	} else if ok {
		for _, r := range rt.idx[loc] {
			rate = fieldLoad(r.v.Entry)
		}
	}
	if !c.Ob(rate != nil, "anchor", "initial rate", token.NoPos, "where the codeword rate starts cannot be told") {
		return
	}
	makes := c.reaches("node", func(cc *ssa.CallCommon) bool { return callsFn(cc, "ldpc.NewEncoder") })
	srcR, srcM := map[*types.Var]bool{}, map[*types.Var]bool{}
	tot := 0
	given := map[*ssa.Function]bool{}
	for f := range makes {
		if takesConn(f) {
			for _, ci := range calls(f) {
				if g := ci.Common().StaticCallee(); g != nil {
					given[g] = true
				}
			}
		}
	}
	var fs []*ssa.Function
	for f := range makes {
		if takesConn(f) && !given[f] {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	for _, f := range fs {
		at := n.runFn(f, nil)
		for _, p := range at.ps {
			val := map[*types.Var]*Term{}
			for _, e := range p.Events {
				if e.Kind == "store" && e.Args[0].Op == "faddr" {
					if v, ok := e.Args[0].Obj.(*types.Var); ok {
						val[v] = e.Args[1]
					}
				}
			}
			if val[rate] == nil || val[min] == nil || val[inc] == nil || val[dec] == nil {
				continue
			}
			tot++
			d, i := val[dec], val[inc]
			prop := d.Op == "mul" && (d.Args[0] == i || d.Args[1] == i)
			c.Ob(prop, "wiring", at.name+" decrement", p.Pos, "the decrement of the codeword rate is %s, not the increment times the target loss", d)
			a, b := fieldLoad(val[rate]), fieldLoad(val[min])
			if p.St.F.Entails(tb.FLe(val[min], val[rate])) {
				continue
			}
			if c.Ob(a != nil && b != nil, "wiring", at.name+" start", p.Pos, "the initial codeword rate %s is not known to be at least the minimum %s", val[rate], val[min]) {
				srcR[a], srcM[b] = true, true
			}
		}
	}
	c.Ob(tot > 0, "instances", "peers", token.NoPos, "no path sets up the codeword rate of a peer")
	if len(srcR) == 0 {
		return
	}
	mn := c.P.Funcs("node")
	for _, f := range mn {
		if f.Name() != "main" || f.Parent() != nil || f.Signature.Recv() != nil {
			continue
		}
		rt := n.runFn(f, nil)
		k := 0
		for _, p := range rt.ps {
			val := map[*types.Var]*Term{}
			for _, e := range p.Events {
				if e.Kind == "store" && e.Args[0].Op == "faddr" {
					if v, ok := e.Args[0].Obj.(*types.Var); ok {
						val[v] = e.Args[1]
					}
				}
			}
			for a := range srcR {
				for b := range srcM {
					if val[a] == nil || val[b] == nil {
						continue
					}
					k++
					c.Ob(val[a] == val[b] || p.St.F.Entails(tb.FLe(val[b], val[a])), "wiring", "start", p.Pos, "the initial codeword rate is not known to be at least the minimum")
				}
			}
		}
		c.Ob(k > 0, "instances", "start", f.Pos(), "the program does not set the initial and the minimum codeword rate")
	}
}

// ---------------------------------------------------------------- credit

func ruleC45(c *C) {
	n := c.node()
	if n.bad {
		return
	}
	for _, rt := range n.tops(n.E[0]) {
		n.credit(rt)
	}
}

func (n *nodep) credit(rt *ltRoot) {
	c, tb := n.c, n.x.TB
	segs := c.Segs(rt.ps)
	n.classes(rt)
	// the variable that falls by one for each codeword
	var credit any
	for _, sg := range segs {
		if sg.Loop == nil {
			continue
		}
		if k := len(evs(sg.P, "call", "(*ldpc.Encoder).ProduceCodeword")); k > 0 {
			for _, v := range sg.Loop.Vars {
				if v.LV.Typ != nil && (isF64(v.LV.Typ)) && tb.Sub(v.LV, sg.Loop.Back(sg.P, v)) == tb.Int(int64(k)) {
					credit = n.class(v)
				}
			}
		}
	}
	if !c.Ob(credit != nil, "instances", rt.name+" credit", rt.fn.Pos(), "no credit falls by one for each codeword produced") {
		return
	}
	// the rate: what grows with the losses received
	losses := map[ssa.Value]bool{}
	for ch, r := range n.role {
		if r == "loss" {
			losses[ch] = true
		}
	}
	rv := n.findRate(rt, losses, losses)
	if !c.Ob(rv.rate != nil, "instances", rt.name+" rate", rt.fn.Pos(), "no rate grows with the losses the peer reports") {
		return
	}
	tickers := map[*Term]*Term{} // ticker -> interval
	for _, p := range rt.ps {
		for _, e := range p.Events {
			if e.Kind == "call" && (e.Callee == "time.NewTicker" || e.Callee == "time.Tick") {
				tickers[e.Res] = e.Args[0]
			}
		}
	}
	interval := func(e *Event) *Term {
		if len(e.Args) == 0 {
			return nil
		}
		for t, d := range tickers {
			if e.Args[0] == t || absint.Contains(e.Args[0], t) {
				return d
			}
		}
		return nil
	}
	nTick, nProd := 0, 0
	cost := func(p *Path) int64 { return int64(len(evs(p, "call", "(*ldpc.Encoder).ProduceCodeword"))) }
	for _, sg := range segs {
		if sg.Loop == nil {
			continue
		}
		p := sg.P
		f := p.St.F
		vc := n.ofClass(sg.Loop, credit, nil)
		vr := n.ofClass(sg.Loop, rv.rate, nil)
		var rate *Term
		if vr != nil {
			rate = vr.LV
		} else if l, ok := rv.rate.(*Term); ok && l.Op != "lv" && sg.From != nil {
			rate = sg.From.Peek(l)
		}
		k := cost(p)
		if vc == nil {
			c.Ob(k == 0, "credit", rt.name, p.Pos, "a codeword is produced without using up credit")
			continue
		}
		cur := vc.LV
		var ticks []*Term
		for _, e := range p.Events {
			switch {
			case isRecv(e) && got(p, e):
				if d := interval(e); d != nil {
					ticks = append(ticks, d)
				}
			case e.Kind == "loop":
				v := n.ofClass(e.Loop, credit, nil)
				if v == nil {
					for _, w := range e.Loop.Vars {
						if w.Loc == nil && w.LV.Typ != nil && isF64(w.LV.Typ) && absint.Contains(w.Entry, cur) {
							v = w
						}
					}
				}
				if v == nil {
					continue
				}
				got := tb.Sub(v.Entry, cur)
				n.earned(rt, p, got, rate, &ticks, &nTick, e.Loop.Pos)
				produces := false
				for _, b := range e.Loop.Backs {
					produces = produces || cost(b) > 0
				}
				if produces && p.Kind != "exit" && p.Kind != "panic" {
					c.Ob(f.Entails(tb.FLe(v.LV, tb.Int(1))), "spent", rt.name, e.Loop.Pos, "producing codewords can stop while a whole credit is left")
				}
				cur = v.LV
			}
		}
		if k > 0 {
			nProd++
			c.Ob(f.Entails(tb.FLe(tb.Int(k), cur)), "covered", rt.name, p.Pos, "a codeword is produced although there is not a whole credit")
		}
		d := tb.Sub(sg.Loop.Back(p, vc), tb.AddK(cur, -k))
		n.earned(rt, p, d, rate, &ticks, &nTick, p.Pos)
	}
	c.Ob(nTick > 0, "instances", rt.name+" ticks", rt.fn.Pos(), "no tick of a timer adds to the credit")
	c.Ob(nProd > 0, "instances", rt.name+" codewords", rt.fn.Pos(), "no codeword is produced")
}

// earned: a change of the credit is nothing or the rate times the interval of a tick.
func (n *nodep) earned(rt *ltRoot, p *Path, d, rate *Term, ticks *[]*Term, nTick *int, pos token.Pos) {
	c, tb := n.c, n.x.TB
	if d == tb.Int(0) {
		return
	}
	if !c.Ob(len(*ticks) > 0 && rate != nil, "earned", rt.name, pos, "the credit changes by %s without a tick of the timer", d) {
		return
	}
	iv := (*ticks)[0]
	*ticks = (*ticks)[1:]
	*nTick++
	ok := false
	lin := tb.LinOf(d)
	ns := tb.LinOf(iv)
	if len(lin.Vars) == 1 && lin.Vars[0] == rate && lin.K.Sign() == 0 && len(ns.Vars) == 0 {
		want := new(big.Rat).Quo(ns.K, big.NewRat(1000000000, 1))
		diff := new(big.Rat).Sub(want, lin.Coef[0])
		diff.Abs(diff)
		ok = diff.Cmp(new(big.Rat).Mul(want, big.NewRat(1, 1000000000000))) <= 0
	}
	if d.Op == "mul" && len(d.Args) == 2 {
		for i := 0; i < 2; i++ {
			x, y := d.Args[i], d.Args[1-i]
			ok = ok || x == rate && y.Op == "call" && y.Aux == "(time.Duration).Seconds" && y.Args[0] == iv
		}
	}
	c.Ob(ok, "earned", rt.name+" amount", pos, "a tick of %s ns adds %s to the credit, not the rate times the interval", iv, d)
}
