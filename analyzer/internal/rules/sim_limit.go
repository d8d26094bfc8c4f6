package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

// sketchUse: an instruction that adds to a sketch or sets a recorder's warm-up.
func sketchUse(in ssa.Instruction) string {
	switch in := in.(type) {
	case ssa.CallInstruction:
		f := in.Common().StaticCallee()
		if f != nil && recvName(f) == "DDSketch" && (strings.HasPrefix(f.Name(), "Add") || strings.HasPrefix(f.Name(), "Merge") || f.Name() == "Clear") {
			return f.Name()
		}
	case *ssa.Store:
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
			st, ok := structOf(fa.X.Type())
			if n, ok2 := deref(fa.X.Type()).(*types.Named); ok && ok2 && n.Obj().Name() == "distributionSketch" && st.Field(fa.Field).Name() == "warmup" {
				return "warmup"
			}
		}
	}
	return ""
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ---------------------------------------------------------------- C39

func ruleC39(c *C) {
	s := c.sim("simulator")
	tb := s.x.TB
	tS := c.Type("simulator", "server")
	tR := c.Type("simulator", "rateLimiter")
	fR := s.need(tS, "rate limiter of a server", "forwardRateLimiter", isNamed("rateLimiter"))
	fL := s.need(tR, "last slot", "lastScheduled", nil)
	fM := s.need(tR, "interval between slots", "minInterval", nil)
	tLp := c.Type("simulator", "loopback")
	if fR < 0 || fL < 0 || fM < 0 || !c.Ob(tLp != nil, "anchor", "loopback", token.NoPos, "message type loopback not found") {
		return
	}
	lim := func(me *Term, i int) *Term { return s.fa(s.fa(me, tS, fR), tR, i) }
	isBatch := func(t types.Type) bool { e := sliceElem(t); return e != nil && isNamed("Transaction")(e) }
	isOut := func(t types.Type) bool { e := sliceElem(t); return e != nil && isNamed("OutgoingMessage")(e) }
	fn := c.Fn("simulator", "server", "scheduleForwardingTransactions")
	if fn == nil {
		return
	}
	rt := s.runFn(fn, func(st *State, a []*Term) {
		st.F.Assume(tb.Le(tb.Int(0), st.Peek(lim(a[0], fM))))
	})
	me := rt.args[0]
	out, txs, ts := rt.par(isOut), rt.par(isBatch), rt.par(isDuration)
	if !c.Ob(out != nil && txs != nil && ts != nil, "anchor", rt.name, fn.Pos(), "parameters of the rate limiter") {
		return
	}
	last, min := lim(me, fL), rt.st0.Peek(lim(me, fM))
	nl := 0
	for _, p := range rt.ps {
		if !c.Ob(p.Kind == "return" && len(p.Vals) == 1, "total", rt.name, p.Pos, "%s can end in a %s", rt.name, p.Kind) {
			continue
		}
		c.Ob(p.St.Peek(lim(me, fM)) == min, "frame", rt.name, p.Pos, "%s changes the interval", rt.name)
		w, ok := walk(p, rt.idx, p.Vals[0], out)
		if p.St.F.Entails(tb.Le(tb.Len(txs), tb.Int(0))) && ok && len(w) == 0 {
			c.Ob(p.St.Peek(last) == rt.st0.Peek(last), "remembered", rt.name+" none", p.Pos, "without a transaction the last slot becomes %s", p.St.Peek(last))
			continue
		}
		if !c.Ob(ok && len(w) == 1 && w[0].kind == "loop", "slots", rt.name, p.Pos, "%s returns %s, not the messages given with one for each transaction appended", rt.name, p.Vals[0]) {
			continue
		}
		L, lv := w[0].l, w[0].lv
		ix, ok := s.counter(L, []*Path{p}, tb.Len(txs))
		if !c.Ob(ok && upward(tb, L, ix), "slots", rt.name+" all", L.Pos, "%s does not go once, in order, over all transactions", rt.name) {
			continue
		}
		nl++
		var lastV *absint.LVInfo
		for _, v := range L.Vars {
			if v.Loc == last {
				lastV = v
			}
		}
		if !c.Ob(lastV != nil, "remembered", rt.name, L.Pos, "the slots handed out are not remembered") {
			continue
		}
		c.Ob(lastV.Entry == rt.st0.Peek(last), "remembered", rt.name+" entry", L.Pos, "the last slot is %s before the first transaction", lastV.Entry)
		c.Ob(p.St.F.ProveEq(p.St.Peek(last), lastV.LV), "remembered", rt.name+" exit", p.Pos, "after the batch the last slot is %s", p.St.Peek(last))
		// candidate invariants, kept if they hold on entry and are preserved
		var inv []*Term
		for _, v := range L.Vars {
			if v.LV.Typ == nil || !isBasicInt(v.LV.Typ) {
				continue
			}
			if v != lastV {
				inv = append(inv, tb.Le(ts, v.LV), tb.Le(tb.Add(lastV.LV, min), v.LV), tb.Le(tb.Sub(ts, min), v.LV), tb.Le(lastV.LV, v.LV))
			}
		}
		inv = s.induct(L, []*Path{p}, inv)
		tt := sliceElem(txs.Typ)
		for _, b := range L.Backs {
			f := b.St.Clone().F
			for _, t := range inv {
				f.Assume(t)
			}
			v := L.Back(b, lv)
			if !c.Ob(v.Op == "append" && v.Args[0] == lv.LV && len(v.Args) == 2, "slots", rt.name+" each", b.Pos, "a transaction gets %s, not exactly one slot", v) {
				continue
			}
			m := v.Args[1]
			pay, val := msgType(tb.Field(m, s.tOut, s.oPay))
			got := false
			if pay == "main.loopback" {
				for _, i := range ix {
					got = got || tb.Field(val, tLp, 0) == b.St.Load(b.St.IndexAddr(txs, i, tt), tt)
				}
			}
			c.Ob(got, "slots", rt.name+" tx", b.Pos, "the message scheduled for a transaction carries %s", tb.Field(m, s.tOut, s.oPay))
			to := tb.Field(m, s.tOut, s.oTo)
			c.Ob(to == tb.Nil() || to.Op == "zero" || b.St.F.ProveEq(to, tb.Nil()) || absint.Contains(to, me) && to.Op == "iface", "slots", rt.name+" to", b.Pos, "the message scheduled for a transaction goes to %s, not to the server itself", to)
			slot := tb.Add(ts, tb.Field(m, s.tOut, s.oDelay))
			c.Ob(f.Entails(tb.Le(ts, slot)), "not-before-now", rt.name, b.Pos, "a slot may lie before the current time: delay %s", tb.Field(m, s.tOut, s.oDelay))
			c.Ob(f.Entails(tb.Le(tb.Add(lastV.LV, min), slot)), "interval", rt.name, b.Pos, "a slot (%s) may be less than the interval after the one before it", slot)
			c.Ob(f.ProveEq(L.Back(b, lastV), slot), "remembered", rt.name+" slot", b.Pos, "after handing out the slot %s, %s is remembered", slot, L.Back(b, lastV))
		}
	}
	c.Ob(nl > 0, "instances", rt.name, token.NoPos, "no slot is ever handed out")
	// the last slot is set here only
	for _, g := range c.P.Funcs("simulator") {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if n, ok := deref(fa.X.Type()).(*types.Named); ok && n.Obj().Name() == "rateLimiter" && fa.Field == fL {
					c.Ob(inFuncs(s.x, rt, g), "remembered", "only "+shortFn(g), in.Pos(), "%s sets the last slot", shortFn(g))
				}
			}
		}
	}
	s.relay()
}

// inFuncs: is g the analysed function or a helper of it?
func inFuncs(x *absint.Exec, rt *ltRoot, g *ssa.Function) bool {
	if g == rt.fn {
		return true
	}
	seen := map[*ssa.Function]bool{}
	var w func(f *ssa.Function) bool
	w = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if f == g {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if h := ci.Common().StaticCallee(); h != nil && h.Pkg == rt.fn.Pkg && w(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return w(rt.fn)
}

// induct keeps the candidates that hold before the first round and after every
// round that starts with all of them.
func (s *simp) induct(L *Loop, exits []*Path, cand []*Term) []*Term {
	tb := s.x.TB
	sub := func(t *Term, b *Path) *Term {
		m := map[*Term]*Term{}
		for _, v := range L.Vars {
			if b == nil {
				m[v.LV] = v.Entry
			} else {
				m[v.LV] = L.Back(b, v)
			}
		}
		return tb.Subst(t, m)
	}
	var keep []*Term
	for _, t := range cand {
		e := sub(t, nil)
		ok := true
		for _, p := range exits {
			ok = ok && p.St.F.Entails(e)
		}
		if ok {
			keep = append(keep, t)
		}
	}
	for changed := true; changed; {
		changed = false
		var next []*Term
		for _, t := range keep {
			ok := true
			for _, b := range L.Backs {
				f := b.St.Clone().F
				for _, k := range keep {
					f.Assume(k)
				}
				ok = ok && f.Entails(sub(t, b))
			}
			if ok {
				next = append(next, t)
			} else {
				changed = true
			}
		}
		keep = next
	}
	return keep
}

// relay: what the block simulator's server does with transactions.
func (s *simp) relay() {
	c, tb := s.c, s.x.TB
	tS, fH, fP := s.server()
	if tS == nil || fH < 0 || fP < 0 {
		return
	}
	inl := s.x.Inline
	s.x.Inline = func(f *ssa.Function) bool {
		switch recvName(f) {
		case "sender", "receiver", "distributionSketch", "transactionGenerator":
			return false
		}
		return f.Name() != "scheduleForwardingTransactions" && inl(f)
	}
	defer func() { s.x.Inline = inl }()
	fn := c.Fn("simulator", "server", "HandleMessage")
	if fn == nil {
		return
	}
	const sched = "(*main.server).scheduleForwardingTransactions"
	at := 2
	if f := c.Fn("simulator", "server", "scheduleForwardingTransactions"); f != nil {
		for i, q := range f.Params {
			if e := sliceElem(q.Type()); e != nil && isNamed("Transaction")(e) {
				at = i
			}
		}
	}
	batch := func(e *Event) *Term {
		if at < len(e.Args) {
			return e.Args[at]
		}
		return tb.Any()
	}
	for _, typ := range []string{"blockArrival", "loopback", "codeword", "ack"} {
		t := c.Type("simulator", typ)
		if !c.Ob(t != nil, "anchor", typ, token.NoPos, "message type %s not found", typ) {
			continue
		}
		val := s.x.Param("m", t)
		st := s.x.NewState()
		var args []*Term
		for i, p := range fn.Params {
			if i > 0 && isAny(p.Type()) {
				args = append(args, tb.MkT(p.Type(), "iface", absint.TypeKey(t), val))
			} else {
				args = append(args, s.x.Param(p.Name(), p.Type()))
			}
		}
		me := args[0]
		st0 := st.Clone()
		ps := c.Run(s.x, fn, st, args)
		rt := &ltRoot{fn: fn, name: "simulator.server.HandleMessage", args: args, st0: st0, ps: ps, idx: c.lvIndex(ps)}
		now := rt.par(isDuration)
		name := rt.name + " " + typ
		n := 0
		for _, p := range ps {
			if p.Kind != "return" {
				continue
			}
			n++
			sc := evs(p, "call", sched)
			inLoops := 0
			c.EachLoop([]*Path{p}, func(_ []*Loop, l *Loop, _ *Path) {
				for _, b := range l.Backs {
					inLoops += len(evs(b, "call", sched))
				}
			})
			for _, e := range sc {
				hit := false
				for _, a := range e.Args[1:] {
					hit = hit || a == now
				}
				c.Ob(hit, "scheduled", name+" time", e.Pos, "transactions are scheduled as of another time than the event's")
			}
			switch typ {
			case "blockArrival":
				if !c.Ob(len(sc) == 1 && inLoops == 0, "scheduled", name, p.Pos, "generated transactions are scheduled %d times", len(sc)) {
					continue
				}
				v := batch(sc[0])
				if v.Op == "makeslice" {
					s.filled(name, p, v, tb.Field(val, t, 0))
					continue
				}
				w, ok := walk(p, rt.idx, v, tb.Nil())
				if !c.Ob(ok && len(w) == 1 && w[0].kind == "loop", "scheduled", name+" all", sc[0].Pos, "what is scheduled is %s, not the transactions generated", v) {
					continue
				}
				ix, ok := s.counter(w[0].l, []*Path{p}, tb.Field(val, t, 0))
				c.Ob(ok && len(ix) > 0, "generated", name, w[0].l.Pos, "a block arrival does not generate the number of transactions it names")
				for _, b := range w[0].l.Backs {
					g := evs(b, "call", "(*main.transactionGenerator).generate")
					x := w[0].l.Back(b, w[0].lv)
					c.Ob(len(g) == 1 && x.Op == "append" && x.Args[0] == w[0].lv.LV && len(x.Args) == 2 && x.Args[1] == s.whole(b, g[0].Res, x.Args[1]), "scheduled", name+" each", b.Pos, "a generated transaction leads to %s", x)
					add := evs(b, "call", "(*lt.Decoder).AddTransaction")
					c.Ob(len(add) == 1 && len(g) == 1 && len(add[0].Args) == 2 && add[0].Args[1] == s.whole(b, g[0].Res, add[0].Args[1]), "known", name, b.Pos, "a generated transaction is made known to the server's decoder %d times", len(add))
				}
			case "codeword":
				oc := evs(p, "call", "(*main.receiver).onCodeword")
				if !c.Ob(len(oc) == 1, "handled", name, p.Pos, "a codeword is handled %d times", len(oc)) {
					continue
				}
				hand := s.handler(st0, me, tS, fH, rt)
				c.Ob(absint.Contains(oc[0].Args[0], hand), "handled", name+" link", oc[0].Pos, "a codeword is handled by %s, not by the receiver of the link it came from", oc[0].Args[0])
				c.Ob(oc[0].Args[1] == val, "handled", name+" same", oc[0].Pos, "the receiver is given %s", oc[0].Args[1])
				none := p.St.F.Entails(tb.Le(tb.Len(oc[0].Res), tb.Int(0)))
				c.Ob(inLoops == 0 && (len(sc) == 1 && batch(sc[0]) == oc[0].Res || none && len(sc) == 0), "scheduled", name, p.Pos, "decoded transactions are scheduled %d times", len(sc))
			case "ack":
				oa := evs(p, "call", "(*main.sender).onAck")
				hand := s.handler(st0, me, tS, fH, rt)
				c.Ob(len(oa) == 1 && oa[0].Args[1] == val && absint.Contains(oa[0].Args[0], hand), "handled", name, p.Pos, "an acknowledgement is not handled once by the sender of the link it came from")
				c.Ob(len(sc)+inLoops == 0, "scheduled", name, p.Pos, "an acknowledgement schedules transactions")
			case "loopback":
				c.Ob(len(sc)+inLoops == 0, "scheduled", name, p.Pos, "a transaction whose slot came is scheduled again")
				tx := tb.Field(val, t, 0)
				nl := 0
				for _, e := range evs(p, "loop", "") {
					L := e.Loop
					calls := 0
					for _, b := range L.Backs {
						calls += len(evs(b, "call", "(*main.sender).onTransaction"))
					}
					if calls == 0 {
						continue
					}
					nl++
					peers := L.HeadSt.Peek(s.fa(me, tS, fP))
					ix, ok := s.counter(L, []*Path{p}, tb.Len(peers))
					if !c.Ob(ok, "relay", name+" all", L.Pos, "a transaction whose slot came does not go to every peer") {
						continue
					}
					elem := s.ftype(tS, fH).Underlying().(*types.Map).Elem()
					for _, b := range L.Backs {
						on := evs(b, "call", "(*main.sender).onTransaction")
						peer := b.St.Load(b.St.IndexAddr(peers, ix[0], sliceElem(peers.Typ)), sliceElem(peers.Typ))
						hand := b.St.MapGet(L.HeadSt.MapContent(L.HeadSt.Peek(s.fa(me, tS, fH))), peer, elem)
						c.Ob(len(on) == 1 && absint.Contains(on[0].Args[0], hand) && on[0].Args[1] == s.whole(b, tx, on[0].Args[1]), "relay", name, b.Pos, "a transaction whose slot came is not given once to the sender of a peer")
					}
				}
				c.Ob(nl == 1 && len(evs(p, "call", "(*main.sender).onTransaction")) == 0, "relay", name+" once", p.Pos, "a transaction whose slot came is given to the senders in %d loops", nl)
			}
		}
		c.Ob(n > 0, "instances", name, token.NoPos, "handling a %s never ends", typ)
	}
}

// whole: x is a copy, field by field, of t; then x, else t.
func (s *simp) whole(p *Path, t, x *Term) *Term {
	if t == x {
		return x
	}
	if x.Op == "agg" && x.Typ != nil {
		st, ok := structOf(x.Typ)
		if !ok {
			return t
		}
		for i := 0; i < st.NumFields(); i++ {
			f := s.x.TB.Field(t, x.Typ, i)
			if g := x.Args[i]; g != f && s.whole(p, f, g) != g {
				return t
			}
		}
		return x
	}
	return t
}

// handler of the link a message came from.
func (s *simp) handler(st *State, me *Term, tS types.Type, fH int, rt *ltRoot) *Term {
	elem := s.ftype(tS, fH).Underlying().(*types.Map).Elem()
	from := rt.par(isModule)
	return st.MapGet(st.MapContent(st.Peek(s.fa(me, tS, fH))), from, elem)
}

// filled: the list v made with n places is filled with a generated transaction
// at each, each of which is made known to the server's decoder.
func (s *simp) filled(name string, p *Path, v, n *Term) {
	c, tb := s.c, s.x.TB
	c.Ob(tb.Len(v) == n, "generated", name, p.Pos, "a block arrival does not generate the number of transactions it names")
	et := sliceElem(v.Typ)
	done := 0
	for _, e := range evs(p, "loop", "") {
		l := e.Loop
		gen := 0
		for _, b := range l.Backs {
			gen += len(evs(b, "call", "(*main.transactionGenerator).generate"))
		}
		if gen == 0 || et == nil {
			continue
		}
		done++
		ix, ok := s.counter(l, []*Path{p}, n)
		if !c.Ob(ok && len(ix) > 0, "generated", name, l.Pos, "a block arrival does not generate the number of transactions it names") {
			continue
		}
		for _, b := range l.Backs {
			g := evs(b, "call", "(*main.transactionGenerator).generate")
			hit := false
			for _, i := range ix {
				x := b.St.Load(b.St.IndexAddr(v, i, et), et)
				hit = hit || len(g) == 1 && x == s.whole(b, g[0].Res, x)
			}
			c.Ob(hit, "scheduled", name+" each", b.Pos, "a generated transaction is not put at its place")
			add := evs(b, "call", "(*lt.Decoder).AddTransaction")
			c.Ob(len(add) == 1 && len(g) == 1 && len(add[0].Args) == 2 && add[0].Args[1] == s.whole(b, g[0].Res, add[0].Args[1]), "known", name, b.Pos, "a generated transaction is made known to the server's decoder %d times", len(add))
		}
	}
	c.Ob(done == 1, "scheduled", name+" all", p.Pos, "what is scheduled is %s, not the transactions generated", v)
}
