package rules

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

// ---------------------------------------------------------------- C34

// accp decides what a server of the shard simulator does with transactions.
type accp struct {
	*simp
	tS, tTx, tH    types.Type
	fH, fP         int
	fRecv          int
	iIdx, hSym, hH int
	fSk, fFlood    int
	cnt            map[string][]int // counter -> field path in server
	me             *Term
	now            *Term
}

func (a *accp) loc(name string) *Term {
	t, ty := a.me, a.tS
	for _, i := range a.cnt[name] {
		t = a.fa(t, ty, i)
		ty = a.ftype(ty, i)
	}
	return t
}

// fieldPath finds a field, descending into embedded structs.
func fieldPath(t types.Type, name string) []int {
	st, ok := structOf(t)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if r := fieldPath(st.Field(i).Type(), name); r != nil {
				return append([]int{i}, r...)
			}
		}
	}
	return nil
}

func ruleC34(c *C) {
	s := c.sim("newsim")
	a := &accp{simp: s, cnt: map[string][]int{}}
	tb := s.x.TB
	a.tS, a.fH, a.fP = s.server()
	a.tTx = c.Type("newsim", "transaction")
	if a.tS == nil || a.fH < 0 || a.fP < 0 {
		return
	}
	a.fRecv = s.need(a.tS, "transactions seen", "received", isMapT)
	a.fSk = s.need(a.tS, "latency recorder", "latencySketch", nil)
	a.iIdx = s.need(a.tTx, "transaction index", "idx", nil)
	if a.fRecv < 0 || a.fSk < 0 || a.iIdx < 0 {
		return
	}
	names := []string{"decodedTransactions", "receivedTransactions", "duplicateTransactions"}
	for _, n := range append(names, "initialFlood") {
		a.cnt[n] = fieldPath(a.tS, n)
		if !c.Ob(a.cnt[n] != nil, "anchor", n, token.NoPos, "field %s of the server not found", n) {
			return
		}
	}
	s.x.Inline = func(f func(*ssa.Function) bool) func(*ssa.Function) bool {
		return func(g *ssa.Function) bool {
			switch recvName(g) {
			case "sender", "receiver", "distributionSketch", "transactionGenerator", "pull", "coding":
				return false
			case "transaction":
				return g.Name() != "Hash"
			}
			return f(g)
		}
	}(s.x.Inline)
	fn := c.Fn("newsim", "server", "HandleMessage")
	tMsg := c.Type("newsim", "message")
	if fn == nil || !c.Ob(tMsg != nil, "anchor", "message", token.NoPos, "message interface not found") {
		return
	}
	im := tMsg.Underlying().(*types.Interface)
	sc := fn.Pkg.Pkg.Scope()
	kinds := 0
	for _, nm := range sc.Names() {
		o, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok || types.IsInterface(o.Type()) || !types.Implements(o.Type(), im) {
			continue
		}
		kinds++
		t := o.Type()
		val := s.x.Param("m", t)
		st := s.x.NewState()
		var args []*Term
		for i, p := range fn.Params {
			if i > 0 && isAny(p.Type()) {
				args = append(args, tb.MkT(p.Type(), "iface", absint.TypeKey(t), val))
			} else {
				args = append(args, s.x.Param(p.Name(), p.Type()))
			}
		}
		a.me = args[0]
		st0 := st.Clone()
		ps := c.Run(s.x, fn, st, args)
		rt := &ltRoot{fn: fn, name: "newsim.server.HandleMessage", args: args, st0: st0, ps: ps, idx: c.lvIndex(ps)}
		a.now = rt.par(isDuration)
		from := rt.par(isModule)
		if !c.Ob(a.now != nil && from != nil, "anchor", rt.name, fn.Pos(), "parameters of %s", rt.name) {
			return
		}
		name := rt.name + " " + nm
		n := 0
		for _, p := range ps {
			if p.Kind != "return" {
				// a link whose protocol refuses the message; the server itself must not fail
				c.Ob(p.Kind == "panic" && len(evs(p, "call", "(main.algorithm).handleMessage")) > 0, "total", name, p.Pos, "handling a %s can end in a %s", nm, p.Kind)
				continue
			}
			n++
			hm := evs(p, "call", "(main.algorithm).handleMessage")
			switch nm {
			case "blockArrival":
				c.Ob(len(hm) == 0, "handled", name, p.Pos, "an arrival is given to a link")
				a.created(rt, p, name, t, val)
			case "initialBroadcast":
				c.Ob(len(hm) == 0, "handled", name, p.Pos, "a flooded transaction is given to a link's protocol")
				tx := tb.Field(val, t, 0)
				if len(a.loops(p)) == 0 {
					a.one(p, nil, rt.st0, p.St, name, from, tx)
				} else {
					a.batch(rt, p, name, from, nil, tx)
				}
			default:
				if !c.Ob(len(hm) == 1, "handled", name, p.Pos, "a message is given to the protocol of its link %d times", len(hm)) {
					continue
				}
				elem := s.ftype(a.tS, a.fH).Underlying().(*types.Map).Elem()
				hand := tb.Field(st0.MapGet(st0.MapContent(st0.Peek(s.fa(a.me, a.tS, a.fH))), from, elem), elem, 0)
				pay, pv := msgType(hm[0].Args[1])
				c.Ob(hm[0].Args[0] == hand, "handled", name+" link", hm[0].Pos, "a message is given to %s, not to the link it came from", hm[0].Args[0])
				c.Ob(pay == absint.TypeKey(t) && pv == val, "handled", name+" same", hm[0].Pos, "the link is given %s", hm[0].Args[1])
				if p.St.F.Entails(tb.Le(tb.Len(hm[0].Res), tb.Int(0))) && len(a.loops(p)) == 0 {
					a.frame(p.St, rt.st0, name+" none", p.Pos)
					continue
				}
				a.batch(rt, p, name, from, hm[0].Res, nil)
			}
		}
		c.Ob(n > 0, "instances", name, token.NoPos, "handling a %s never ends", nm)
	}
	c.Ob(kinds >= 5, "instances", "messages", token.NoPos, "only %d kinds of messages found", kinds)
}

func (a *accp) ref() *Term { return a.fa(a.me, a.tS, a.fRecv) }

func (a *accp) seen(st *State) *Term { return st.MapContent(st.Peek(a.ref())) }

// frame: counters and the table are as they were.
func (a *accp) frame(st, st0 *State, name string, pos token.Pos) {
	for _, n := range []string{"decodedTransactions", "receivedTransactions", "duplicateTransactions"} {
		a.c.Ob(st.F.ProveEq(st.Peek(a.loc(n)), st0.Peek(a.loc(n))), "counted", name+" "+n, pos, "%s becomes %s without a transaction", n, st.Peek(a.loc(n)))
	}
	a.c.Ob(a.seen(st) == a.seen(st0), "recorded", name, pos, "the transactions seen change without a transaction")
}

// loops of a path in which transactions are taken.
func (a *accp) loops(p *Path) []*Loop {
	var out []*Loop
	for _, e := range evs(p, "loop", "") {
		L := e.Loop
		hit := false
		for _, b := range L.Backs {
			for _, n := range []string{"receivedTransactions", "duplicateTransactions", "decodedTransactions"} {
				hit = hit || b.St.Peek(a.loc(n)) != L.HeadSt.Peek(a.loc(n))
			}
			hit = hit || a.seen(b.St) != a.seen(L.HeadSt)
		}
		if hit {
			out = append(out, L)
		}
	}
	return out
}

// batch: the one loop of p takes each of the transactions once.
func (a *accp) batch(rt *ltRoot, p *Path, name string, from, list, tx *Term) {
	c, tb := a.c, a.x.TB
	ls := a.loops(p)
	if !c.Ob(len(ls) == 1, "each", name, p.Pos, "transactions handed up are taken in %d loops", len(ls)) {
		return
	}
	L := ls[0]
	a.around(rt, p, L, name)
	if tx != nil {
		// the single transaction was put in a list
		for _, e := range evs(p, "append", "") {
			if e.Res.Op == "append" && e.Res.Args[0].Op == "nil" && len(e.Res.Args) == 2 && a.whole(p, tx, e.Res.Args[1]) == e.Res.Args[1] {
				list = e.Res
			}
		}
		if list == nil {
			list = tb.Append(tb.Nil(), tx)
		}
	}
	ix, ok := a.counter(L, []*Path{p}, tb.Len(list))
	if !c.Ob(ok, "each", name+" all", L.Pos, "not every transaction handed up is taken exactly once") {
		return
	}
	var et types.Type
	if list.Typ != nil {
		et = sliceElem(list.Typ)
	}
	for _, b := range L.Backs {
		t := tx
		if t == nil {
			if et == nil {
				c.Fail("undecided", name, L.Pos, "type of the transactions handed up unknown")
				return
			}
			t = b.St.Load(b.St.IndexAddr(list, ix[0], et), et)
		}
		a.one(b, L, L.HeadSt, b.St, name, from, t)
	}
}

// around: before and after the loop nothing is counted or recorded.
func (a *accp) around(rt *ltRoot, p *Path, L *Loop, name string) {
	c := a.c
	chk := func(loc *Term, what string, get func(*State) *Term) {
		for _, v := range L.Vars {
			if v.Loc == loc {
				c.Ob(v.Entry == get(rt.st0), "counted", name+" "+what, L.Pos, "%s is %s before the first transaction", what, v.Entry)
				c.Ob(get(p.St) == v.LV, "counted", name+" "+what, p.Pos, "%s changes apart from the transactions taken: %s", what, get(p.St))
				return
			}
		}
		c.Ob(get(p.St) == get(rt.st0), "counted", name+" "+what, p.Pos, "%s changes apart from the transactions taken: %s", what, get(p.St))
	}
	for _, n := range []string{"decodedTransactions", "receivedTransactions", "duplicateTransactions"} {
		n := n
		chk(a.loc(n), n, func(st *State) *Term { return st.Peek(a.loc(n)) })
	}
	c.Ob(p.St.Peek(a.ref()) == rt.st0.Peek(a.ref()), "recorded", name+" table", p.Pos, "the table of transactions seen is replaced")
	w, ok := walk(p, rt.idx, a.seen(p.St), a.seen(rt.st0))
	for _, q := range w {
		ok = ok && q.kind == "loop" && q.l == L
	}
	c.Ob(ok && len(w) == 1, "recorded", name+" rest", p.Pos, "the transactions seen change apart from the transactions taken: %s", a.seen(p.St))
}

// one: in the segment p (from st0 to st1) the transaction t (a hashed symbol,
// which came from the link from) is taken.
func (a *accp) one(p *Path, L *Loop, st0, st1 *State, name string, from, t *Term) {
	c, tb := a.c, a.x.TB
	if a.tH == nil {
		a.tH = t.Typ
		if a.tH == nil || !c.Ob(field(a.tH, "Symbol", nil) >= 0 && field(a.tH, "Hash", nil) >= 0, "anchor", "hashed symbol", p.Pos, "fields of the hashed symbol not found") {
			return
		}
		a.hSym, a.hH = field(a.tH, "Symbol", nil), field(a.tH, "Hash", nil)
	}
	sym := tb.Field(t, a.tH, a.hSym)
	key := tb.Field(sym, a.tTx, a.iIdx)
	m0 := a.seen(st0)
	has, known := st1.F.Value(st1.MapHas(m0, key))
	d := func(n string) int {
		for k := 0; k < 2; k++ {
			if st1.F.ProveEq(st1.Peek(a.loc(n)), tb.AddK(st0.Peek(a.loc(n)), int64(k))) {
				return k
			}
		}
		return -1
	}
	dec, rec, dup := d("decodedTransactions"), d("receivedTransactions"), d("duplicateTransactions")
	sk := evs(p, "call", "(*main.distributionSketch).recordTxLatency")
	fw := a.forwards(p)
	if !c.Ob(known, "new", name, p.Pos, "a transaction is taken without knowing whether it was seen before") {
		return
	}
	if has {
		c.Ob(dec == 0 && rec == 0 && dup == 1, "counted", name+" again", p.Pos, "a transaction seen before changes the counters by %d decoded, %d received, %d duplicate", dec, rec, dup)
		c.Ob(a.seen(st1) == m0, "recorded", name+" again", p.Pos, "a transaction seen before changes the transactions seen")
		c.Ob(len(sk) == 0 && len(fw) == 0 && len(evs(p, "call", "(main.algorithm).forwardTransaction")) == 0, "relay", name+" again", p.Pos, "a transaction seen before is handed on or sampled again")
		return
	}
	c.Ob(dec == 1 && rec == 1 && dup == 0, "counted", name+" new", p.Pos, "a new transaction changes the counters by %d decoded, %d received, %d duplicate", dec, rec, dup)
	m1 := a.seen(st1)
	c.Ob(m1.Op == "mput" && m1.Args[0] == m0 && m1.Args[1] == key, "recorded", name+" new", p.Pos, "a new transaction is not recorded as seen: %s", m1)
	c.Ob(len(sk) == 1 && sk[0].Args[0] == st0.Peek(a.fa(a.me, a.tS, a.fSk)) && a.whole(p, sym, sk[0].Args[1]) == sk[0].Args[1] && sk[0].Args[2] == a.now, "sampled", name+" new", p.Pos, "the latency of a new transaction is not recorded once")
	a.relay(p, name, fw, from, func(x *Term) bool { return a.whole(p, t, x) == x })
}

// forwards: loops of p that hand transactions to links.
func (a *accp) forwards(p *Path) []*Loop {
	var out []*Loop
	for _, e := range evs(p, "loop", "") {
		n := 0
		for _, b := range e.Loop.Backs {
			n += len(evs(b, "call", "(main.algorithm).forwardTransaction"))
		}
		if n > 0 {
			out = append(out, e.Loop)
		}
	}
	return out
}

// relay: p hands a transaction once to every peer but the one it came from.
func (a *accp) relay(p *Path, name string, fw []*Loop, from *Term, is func(*Term) bool) {
	c, tb := a.c, a.x.TB
	if !c.Ob(len(fw) == 1 && len(evs(p, "call", "(main.algorithm).forwardTransaction")) == 0, "relay", name+" new", p.Pos, "a new transaction is handed on in %d loops over the peers", len(fw)) {
		return
	}
	L := fw[0]
	peers := L.HeadSt.Peek(a.fa(a.me, a.tS, a.fP))
	ix, ok := a.counter(L, []*Path{p}, tb.Len(peers))
	if !c.Ob(ok, "relay", name+" all", L.Pos, "a new transaction is not handed on to every peer") {
		return
	}
	pt := sliceElem(peers.Typ)
	elem := a.ftype(a.tS, a.fH).Underlying().(*types.Map).Elem()
	for _, b := range L.Backs {
		peer := b.St.Load(b.St.IndexAddr(peers, ix[0], pt), pt)
		ev := evs(b, "call", "(main.algorithm).forwardTransaction")
		if len(ev) == 0 {
			if from == nil {
				c.Ob(b.St.F.ProveEq(peer, tb.Nil()), "relay", name+" skip", b.Pos, "a transaction the server created is not handed to a peer")
			} else {
				c.Ob(b.St.F.ProveEq(peer, from), "relay", name+" skip", b.Pos, "a new transaction is not handed to a peer it did not come from")
			}
			continue
		}
		hand := tb.Field(b.St.MapGet(L.HeadSt.MapContent(L.HeadSt.Peek(a.fa(a.me, a.tS, a.fH))), peer, elem), elem, 0)
		c.Ob(len(ev) == 1 && ev[0].Args[0] == hand && is(ev[0].Args[1]), "relay", name+" to", b.Pos, "a new transaction is not handed once to the link of a peer")
		if from != nil {
			c.Ob(b.St.F.ProveNe(peer, from), "relay", name+" back", b.Pos, "a new transaction may be handed to the peer it came from")
		}
	}
}

// created: an arrival makes the number of transactions it names.
func (a *accp) created(rt *ltRoot, p *Path, name string, t types.Type, val *Term) {
	c, tb := a.c, a.x.TB
	ls := a.loops(p)
	next := 0
	for _, e := range evs(p, "append", "") {
		for _, x := range e.Args[1:] {
			for _, y := range append([]*Term{x}, x.Args...) {
				if y.Op == "agg" && y.Typ != nil && types.Identical(y.Typ, a.tOut) {
					pay, _ := msgType(tb.Field(y, a.tOut, a.oPay))
					to := tb.Field(y, a.tOut, a.oTo)
					if pay == absint.TypeKey(t) && (to == tb.Nil() || to.Op == "zero") {
						next++
					}
				}
			}
		}
	}
	c.Ob(next == 1, "next", name, p.Pos, "an arrival schedules the next one %d times", next)
	if !c.Ob(len(ls) == 1, "created", name, p.Pos, "transactions are created in %d loops", len(ls)) {
		return
	}
	L := ls[0]
	a.around(rt, p, L, name)
	_, ok := a.counter(L, []*Path{p}, tb.Field(val, t, 0))
	c.Ob(ok, "created", name+" all", L.Pos, "an arrival does not create the number of transactions it names")
	for _, b := range L.Backs {
		g := evs(b, "call", "(*main.transactionGenerator).generate")
		if !c.Ob(len(g) == 1 && g[0].Args[1] == a.now, "created", name+" each", b.Pos, "not exactly one transaction is made, at the time of the arrival") {
			continue
		}
		tx := g[0].Res
		key := tb.Field(tx, a.tTx, a.iIdx)
		m0, m1 := a.seen(L.HeadSt), a.seen(b.St)
		c.Ob(m1.Op == "mput" && m1.Args[0] == m0 && m1.Args[1] == key, "recorded", name, b.Pos, "a transaction created is not recorded as seen: %s", m1)
		for n, k := range map[string]int64{"decodedTransactions": 0, "receivedTransactions": 1, "duplicateTransactions": 0} {
			c.Ob(b.St.F.ProveEq(b.St.Peek(a.loc(n)), tb.AddK(L.HeadSt.Peek(a.loc(n)), k)), "counted", name+" "+n, b.Pos, "a transaction created changes %s to %s", n, b.St.Peek(a.loc(n)))
		}
		is := func(x *Term) bool {
			if x.Typ == nil {
				return false
			}
			st, ok := structOf(x.Typ)
			if !ok || st.NumFields() != 2 {
				return false
			}
			hs, hh := field(x.Typ, "Symbol", nil), field(x.Typ, "Hash", nil)
			if hs < 0 || hh < 0 {
				return false
			}
			sy := tb.Field(x, x.Typ, hs)
			for _, h := range evs(b, "call", "(main.transaction).Hash") {
				if h.Res == tb.Field(x, x.Typ, hh) && a.whole(b, tx, h.Args[0]) == h.Args[0] {
					return a.whole(b, tx, sy) == sy
				}
			}
			return false
		}
		flood, known := b.St.F.Value(L.HeadSt.Peek(a.loc("initialFlood")))
		if known && flood {
			a.flood(b, name, is)
			continue
		}
		c.Ob(known, "created", name+" mode", b.Pos, "whether created transactions are flooded is not decided by the configuration")
		a.relay(b, name, a.forwards(b), nil, is)
	}
}

// flood: one message for every peer, with the delay of its link.
func (a *accp) flood(p *Path, name string, is func(*Term) bool) {
	c, tb := a.c, a.x.TB
	var L *Loop
	n := 0
	for _, e := range evs(p, "loop", "") {
		for _, v := range e.Loop.Vars {
			if v.LV.Typ != nil && sliceElem(v.LV.Typ) != nil && types.Identical(sliceElem(v.LV.Typ), a.tOut) {
				L = e.Loop
				n++
			}
		}
	}
	if !c.Ob(n == 1 && len(a.forwards(p)) == 0, "relay", name+" flood", p.Pos, "a created transaction is flooded in %d loops over the peers", n) {
		return
	}
	peers := L.HeadSt.Peek(a.fa(a.me, a.tS, a.fP))
	ix, ok := a.counter(L, []*Path{p}, tb.Len(peers))
	if !c.Ob(ok, "relay", name+" flood all", L.Pos, "a created transaction is not flooded to every peer") {
		return
	}
	pt := sliceElem(peers.Typ)
	elem := a.ftype(a.tS, a.fH).Underlying().(*types.Map).Elem()
	fd := field(elem, "delay", isDuration)
	for _, v := range L.Vars {
		if v.LV.Typ == nil || sliceElem(v.LV.Typ) == nil || !types.Identical(sliceElem(v.LV.Typ), a.tOut) {
			continue
		}
		for _, b := range L.Backs {
			peer := b.St.Load(b.St.IndexAddr(peers, ix[0], pt), pt)
			r := L.Back(b, v)
			if !c.Ob(r.Op == "append" && r.Args[0] == v.LV && len(r.Args) == 2, "relay", name+" flood each", b.Pos, "a peer is not flooded with exactly one message") {
				continue
			}
			m := r.Args[1]
			pay, val := msgType(tb.Field(m, a.tOut, a.oPay))
			ok := pay == "main.initialBroadcast" && val.Typ != nil
			if ok {
				ok = is(tb.Field(val, val.Typ, 0))
			}
			c.Ob(ok, "relay", name+" flood tx", b.Pos, "a peer is flooded with %s", tb.Field(m, a.tOut, a.oPay))
			c.Ob(tb.Field(m, a.tOut, a.oTo) == peer, "relay", name+" flood to", b.Pos, "a message for a peer is addressed to %s", tb.Field(m, a.tOut, a.oTo))
			hand := b.St.MapGet(L.HeadSt.MapContent(L.HeadSt.Peek(a.fa(a.me, a.tS, a.fH))), peer, elem)
			d := tb.Field(m, a.tOut, a.oDelay)
			c.Ob(fd >= 0 && b.St.F.ProveEq(d, tb.Field(hand, elem, fd)), "relay", name+" flood delay", b.Pos, "a message for a peer gets the delay %s", d)
		}
	}
}
