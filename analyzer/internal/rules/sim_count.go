package rules

import (
	"go/token"
	"go/types"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

func init() {
	register(&Rule{ID: "C47", Pkgs: []string{"simulator", "newsim"}, MinObl: 20, Run: ruleC47,
		What: "HandleMessage is executed per kind of message and the counters, the table of received transactions and the samples after it are compared with those the message calls for; sizes are linear in the transactions carried; main is executed abstractly from its flags: the run is advanced once per round, counters are reset for every server in the one round that first lies behind the warm-up, and every figure printed is traced through its sample, sorted where claimed, to one value per server, compared as a monomial with what its label says"})
}

// countp decides what the simulators count and report.
type countp struct {
	*simp
	tS    types.Type
	fH    int
	fP    int
	fSk   []int
	fOv   []int
	ctr   map[string][]int // counters by name
	names []string
	tx    *Term // TXSIZE
}

func ruleC47(c *C) {
	for _, rel := range []string{"simulator", "newsim"} {
		w := &countp{simp: c.sim(rel), ctr: map[string][]int{}}
		w.tS, w.fH, w.fP = w.server()
		if w.tS == nil || w.fH < 0 || w.fP < 0 || w.tOut == nil {
			continue
		}
		w.fSk, w.fOv = fieldPath(w.tS, "latencySketch"), fieldPath(w.tS, "overlapSketch")
		if !c.Ob(w.fSk != nil && (w.fOv != nil || rel == "newsim"), "anchor", rel+" recorders", token.NoPos, "recorders of a server not found") {
			continue
		}
		tM := c.Type(rel, "serverMetric")
		if tM == nil {
			continue
		}
		st, ok := structOf(tM)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			if p := fieldPath(w.tS, n); p != nil && isBasicInt(st.Field(i).Type()) {
				w.ctr[n] = p
				w.names = append(w.names, n)
			}
		}
		if rel == "simulator" {
			c.Ob(w.ctr["decodedTransactions"] != nil && w.ctr["receivedCodewords"] != nil, "anchor", rel+" counters", token.NoPos, "counters of a server not found")
			w.received()
		} else {
			c.Ob(w.ctr["decodedTransactions"] != nil && w.ctr["receivedTransactions"] != nil && w.ctr["duplicateTransactions"] != nil && w.ctr["receivedBytes"] != nil, "anchor", rel+" counters", token.NoPos, "counters of a server not found")
			w.bytes()
		}
		w.quantiles()
		w.reports()
	}
	// the transactions counted by the servers of the shard simulator
	c.borrow(func() { ruleC34(c) }, "counted")
}

func (w *countp) loc(me *Term, path []int) *Term {
	t, ty := me, w.tS
	for _, i := range path {
		t = w.fa(t, ty, i)
		ty = w.ftype(ty, i)
	}
	return t
}

// handle runs HandleMessage on a message of the type t.
func (w *countp) handle(fn *ssa.Function, t types.Type) (*ltRoot, *Term) {
	c, tb := w.c, w.x.TB
	val := w.x.Param("m", t)
	st := w.x.NewState()
	var args []*Term
	for i, p := range fn.Params {
		if i > 0 && isAny(p.Type()) {
			args = append(args, tb.MkT(p.Type(), "iface", absint.TypeKey(t), val))
		} else {
			args = append(args, w.x.Param(p.Name(), p.Type()))
		}
	}
	st0 := st.Clone()
	ps := c.Run(w.x, fn, st, args)
	return &ltRoot{fn: fn, name: w.rel + ".server.HandleMessage", args: args, st0: st0, ps: ps, idx: c.lvIndex(ps)}, val
}

func (w *countp) opaque(more func(f *ssa.Function) bool) func() {
	inl := w.x.Inline
	w.x.Inline = func(f *ssa.Function) bool {
		switch recvName(f) {
		case "receiver", "sender", "distributionSketch", "transactionGenerator", "pull", "coding":
			return more != nil && more(f)
		case "Transaction":
			return f.Name() == "Data"
		}
		return inl(f)
	}
	return func() { w.x.Inline = inl }
}

// total: v with what loops over the list add to it, one round being one element.
func (w *countp) total(rt *ltRoot, p *Path, v *Term, n *Term) *Term {
	tb := w.x.TB
	for k := 0; k < 8; k++ {
		lin := tb.LinOf(v)
		done := true
		for i, x := range lin.Vars {
			if !lin.Coef[i].IsInt() || lin.Coef[i].Num().Int64() != 1 {
				continue
			}
			for _, r := range rt.idx[x] {
				if !onPath(p, r.l) {
					continue
				}
				if _, ok := w.counter(r.l, []*Path{p}, n); !ok {
					continue
				}
				var step *Term
				same := len(r.l.Backs) > 0
				for _, b := range r.l.Backs {
					d := tb.Sub(r.l.Back(b, r.v), r.v.LV)
					same = same && (step == nil || d == step) && d.Op == "num"
					step = d
				}
				if !same || !step.Num.IsInt() {
					continue
				}
				rest := tb.Sub(v, x)
				v = tb.Add(rest, r.v.Entry)
				for j := int64(0); j < step.Num.Num().Int64() && j < 4; j++ {
					v = tb.Add(v, n)
				}
				done = false
				break
			}
			if !done {
				break
			}
		}
		if done {
			break
		}
	}
	return v
}

// each: on p exactly one of the events found is there for each element of the list.
func (w *countp) each(p *Path, list *Term, rule, name, what string, get func(*Path) []*Event, good func(b *Path, e *Event, t *Term) bool) {
	c := w.c
	n := w.x.TB.Len(list)
	var ls []*Loop
	for _, e := range evs(p, "loop", "") {
		hit := false
		for _, b := range e.Loop.Backs {
			hit = hit || len(get(b)) > 0
		}
		if hit {
			ls = append(ls, e.Loop)
		}
	}
	c.Ob(len(get(p)) == 0, rule, name+" once", p.Pos, "%s apart from the transactions handed up", what)
	if len(ls) == 0 && p.St.F.Entails(w.x.TB.Le(n, w.x.TB.Int(0))) {
		return
	}
	if !c.Ob(len(ls) == 1, rule, name+" loops", p.Pos, "%s in %d loops over the transactions", what, len(ls)) {
		return
	}
	L := ls[0]
	ix, ok := w.counter(L, []*Path{p}, n)
	if !c.Ob(ok, rule, name+" all", L.Pos, "%s not once for every transaction", what) {
		return
	}
	et := sliceElem(list.Typ)
	for _, b := range L.Backs {
		es := get(b)
		if !c.Ob(len(es) == 1, rule, name+" each", b.Pos, "%s %d times for a transaction", what, len(es)) {
			continue
		}
		t := b.St.Load(b.St.IndexAddr(list, ix[0], et), et)
		c.Ob(good(b, es[0], t), rule, name+" which", es[0].Pos, "%s for something else than the transaction", what)
	}
}

// received: counters, table and samples of the block simulator.
func (w *countp) received() {
	c, tb := w.c, w.x.TB
	defer w.opaque(nil)()
	fn := c.Fn(w.rel, "server", "HandleMessage")
	fR := w.need(w.tS, "table of transactions received", "received", isMapT)
	if fn == nil || fR < 0 {
		return
	}
	for _, typ := range []string{"blockArrival", "loopback", "createNewBlock", "codeword", "ack"} {
		t := c.Type(w.rel, typ)
		if !c.Ob(t != nil, "anchor", w.rel+" "+typ, token.NoPos, "message type %s not found", typ) {
			continue
		}
		rt, val := w.handle(fn, t)
		me, name := rt.args[0], rt.name+" "+typ
		now := rt.par(isDuration)
		tab := rt.st0.Peek(w.fa(me, w.tS, fR))
		sets := func(p *Path) []*Event {
			var out []*Event
			for _, e := range p.Events {
				if strings.HasPrefix(e.Kind, "map") && len(e.Args) > 1 && e.Args[0] == tab && e.Kind != "mapget" {
					out = append(out, e)
				}
			}
			return out
		}
		samples := func(p *Path) []*Event { return evs(p, "call", "(*main.distributionSketch).recordTxLatency") }
		n := 0
		for _, p := range rt.ps {
			if p.Kind != "return" {
				// refused: an unknown message or a transaction received before
				ok := typ != "codeword" && typ != "blockArrival"
				for _, e := range p.History() {
					if e.Kind == "branch" && e.Cond != nil {
						x := e.Cond
						if x.Op == "not" {
							x = x.Args[0]
						}
						v, known := p.St.F.Value(x)
						ok = ok || x.Op == "mhas" && known && v || typ == "blockArrival"
					}
				}
				c.Ob(ok, "total", name, p.Pos, "handling a %s can end in a %s although no transaction was received before", typ, p.Kind)
				continue
			}
			n++
			c.Ob(p.St.Peek(w.fa(me, w.tS, fR)) == tab, "recorded", name+" table", p.Pos, "the table of transactions received is replaced")
			hm := evs(p, "call", "(*main.receiver).onCodeword")
			want := map[string]*Term{}
			for _, k := range w.names {
				want[k] = rt.st0.Peek(w.loc(me, w.ctr[k]))
			}
			var list *Term
			if typ == "codeword" {
				if !c.Ob(len(hm) == 1, "counted", name+" decoded", p.Pos, "a codeword is given to a receiver %d times", len(hm)) {
					continue
				}
				list = hm[0].Res
				want["receivedCodewords"] = tb.AddK(want["receivedCodewords"], 1)
				want["decodedTransactions"] = tb.Add(want["decodedTransactions"], tb.Len(list))
			}
			for _, k := range w.names {
				v := p.St.Peek(w.loc(me, w.ctr[k]))
				if list != nil {
					v = w.total(rt, p, v, tb.Len(list))
				}
				c.Ob(v == want[k] || p.St.F.ProveEq(v, want[k]), "counted", name+" "+k, p.Pos, "a %s changes %s to %s", typ, k, v)
			}
			switch typ {
			case "codeword":
				tT := sliceElem(list.Typ)
				data := func(p *Path, t, x *Term) bool {
					f := tb.Field(t, tT, 0)
					return w.whole(p, f, x) == x
				}
				w.each(p, list, "recorded", name, "a transaction is recorded as received", sets, func(b *Path, e *Event, t *Term) bool { return e.Kind == "mapset" && data(b, t, e.Args[1]) })
				w.each(p, list, "sampled", name, "the latency of a transaction is recorded", samples, func(b *Path, e *Event, t *Term) bool {
					return e.Args[0] == rt.st0.Peek(w.loc(me, w.fSk)) && data(b, t, e.Args[1]) && e.Args[2] == now
				})
			case "blockArrival":
				var gl []*Loop
				for _, e := range evs(p, "loop", "") {
					hit := false
					for _, b := range e.Loop.Backs {
						hit = hit || len(sets(b)) > 0
					}
					if hit {
						gl = append(gl, e.Loop)
					}
				}
				if c.Ob(len(gl) == 1 && len(sets(p)) == 0, "recorded", name, p.Pos, "the transactions a server generates are recorded in %d loops", len(gl)) {
					_, ok := w.counter(gl[0], []*Path{p}, tb.Field(val, t, 0))
					c.Ob(ok, "recorded", name+" all", gl[0].Pos, "not every transaction a server generates is recorded")
					for _, b := range gl[0].Backs {
						g := evs(b, "call", "(*main.transactionGenerator).generate")
						es := sets(b)
						ok := len(g) == 1 && len(es) == 1 && es[0].Kind == "mapset"
						if ok {
							d := tb.Field(g[0].Res, g[0].Res.Typ, 0)
							ok = w.whole(b, d, es[0].Args[1]) == es[0].Args[1]
						}
						c.Ob(ok, "recorded", name+" each", b.Pos, "a transaction a server generates is not recorded once")
					}
				}
				c.Ob(len(deepSamples(p, samples)) == 0, "sampled", name, p.Pos, "the latency of a transaction is recorded where it is generated")
			default:
				c.Ob(len(deepSamples(p, sets)) == 0, "recorded", name, p.Pos, "a %s changes the transactions received", typ)
				c.Ob(len(deepSamples(p, samples)) == 0, "sampled", name, p.Pos, "a %s has a latency recorded", typ)
			}
			w.overlap(rt, p, name, me, now)
		}
		c.Ob(n > 0, "instances", name, token.NoPos, "handling a %s never ends", typ)
	}
}

// deepSamples: the events found on a path and in its loops.
func deepSamples(p *Path, get func(*Path) []*Event) []*Event {
	out := get(p)
	for _, e := range evs(p, "loop", "") {
		for _, b := range e.Loop.Backs {
			out = append(out, deepSamples(b, get)...)
		}
	}
	return out
}

// overlap: every block started in an event is sampled once, with the share of
// it that the peer has decoded.
func (w *countp) overlap(rt *ltRoot, p *Path, name string, me, now *Term) {
	c, tb := w.c, w.x.TB
	get := func(p *Path) []*Event { return evs(p, "call", "(*main.distributionSketch).recordRaw") }
	rec := rt.st0.Peek(w.loc(me, w.fOv))
	isNil, known := p.St.F.Value(tb.Eq(rec, tb.Nil(), false))
	if known && isNil {
		// nobody would take the sample
		return
	}
	var ls []*Loop
	for _, e := range evs(p, "loop", "") {
		if len(deepSamples(&Path{Events: []*Event{e}, St: p.St}, get)) > 0 {
			ls = append(ls, e.Loop)
		}
	}
	if !c.Ob(len(ls) == 1 && len(get(p)) == 0, "overlap", name, p.Pos, "the overlap of new blocks is recorded in %d loops over the messages sent", len(ls)) {
		return
	}
	L, out := ls[0], p.Vals[0]
	ix, ok := w.counter(L, []*Path{p}, tb.Len(out))
	if !c.Ob(ok, "overlap", name+" all", L.Pos, "not every message sent is looked at for a new block") {
		return
	}
	tCw := c.Type(w.rel, "codeword")
	fN := w.need(tCw, "mark of a codeword that starts a block", "newBlock", nil)
	hand := w.ftype(w.tS, w.fH).Underlying().(*types.Map).Elem()
	if tCw == nil || fN < 0 {
		return
	}
	for _, b := range L.Backs {
		m := b.St.Load(b.St.IndexAddr(out, ix[0], w.tOut), w.tOut)
		pay, to := tb.Field(m, w.tOut, w.oPay), tb.Field(m, w.tOut, w.oTo)
		isCw, k1 := b.St.F.Value(tb.MkT(types.Typ[types.Bool], "typeis", absint.TypeKey(tCw), pay))
		cw := tb.MkT(tCw, "tval", absint.TypeKey(tCw), pay)
		isNew, k2 := b.St.F.Value(tb.Field(cw, tCw, fN))
		es := get(b)
		if k1 && !isCw || k1 && k2 && !isNew {
			c.Ob(len(es) == 0, "overlap", name+" other", b.Pos, "an overlap is recorded for a message that starts no block")
			continue
		}
		if !c.Ob(k1 && k2, "overlap", name+" when", b.Pos, "an overlap is recorded without knowing that the message starts a block") {
			continue
		}
		if !c.Ob(len(es) == 1, "overlap", name+" each", b.Pos, "the overlap of a new block is recorded %d times", len(es)) {
			continue
		}
		e := es[0]
		c.Ob(e.Args[0] == rec && e.Args[len(e.Args)-1] == now, "overlap", name+" where", e.Pos, "an overlap is recorded by %s at %s", e.Args[0], e.Args[len(e.Args)-1])
		// the value
		mine := b.St.MapGet(b.St.MapContent(rt.st0.Peek(w.fa(me, w.tS, w.fH))), to, hand)
		var blk *Term
		k, mm := mono(tb, e.Args[1])
		var cnt *Term
		good := k.Cmp(big.NewRat(1, 1)) == 0 && len(mm) == 2
		for x, n := range mm {
			switch {
			case n == 1:
				cnt = x
			case n == -1 && x.Op == "len":
				blk = x.Args[0]
			}
		}
		good = good && cnt != nil && blk != nil && absint.Contains(blk, mine) && strings.Contains(blk.String(), "currentBlock")
		if !good {
			// the key may be the peer made an interface again
			good = k.Cmp(big.NewRat(1, 1)) == 0 && cnt != nil && blk != nil && strings.Contains(blk.String(), "currentBlock") && absint.Contains(blk, to)
		}
		if !c.Ob(good, "overlap", name+" value", e.Pos, "the overlap recorded is %s", e.Args[1]) {
			continue
		}
		good = false
		for _, r := range rt.idx[cnt] {
			if !onPath(b, r.l) || r.v.Entry != tb.Int(0) {
				continue
			}
			jx, ok := w.counter(r.l, []*Path{b}, tb.Len(blk))
			if !ok {
				continue
			}
			good = len(r.l.Backs) > 0
			et := sliceElem(blk.Typ)
			for _, q := range r.l.Backs {
				d := tb.Sub(r.l.Back(q, r.v), r.v.LV)
				t := q.St.Load(q.St.IndexAddr(blk, jx[0], et), et)
				hd := evs(q, "call", "(*lt.Decoder).HasDecoded")
				if len(hd) != 1 || w.whole(q, t, hd[0].Args[1]) != hd[0].Args[1] {
					good = false
					continue
				}
				v, known := q.St.F.Value(hd[0].Res)
				good = good && known && d == tb.Int(map[bool]int64{true: 1, false: 0}[v])
				// asked is the peer's decoder for this server
				dec := hd[0].Args[0].String()
				good = good && absint.Contains(hd[0].Args[0], to) && absint.Contains(hd[0].Args[0], me) && strings.Contains(dec, "receiver")
			}
		}
		c.Ob(good, "overlap", name+" counted", e.Pos, "the overlap recorded does not count the transactions of the block that the peer has decoded")
	}
}

// carried: transactions and symbols in a message of the type t.
func (w *countp) carried(val *Term, t types.Type) (int64, []*Term) {
	tb := w.x.TB
	var n int64
	var lists []*Term
	one := func(t types.Type) bool {
		nm := namedOf(t)
		return nm != nil && (nm.Obj().Name() == "HashedSymbol" || nm.Obj().Name() == "CodedSymbol")
	}
	st, ok := structOf(t)
	if !ok {
		return 0, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if one(ft) {
			n++
		} else if isSliceT(ft) && one(sliceElem(ft)) {
			lists = append(lists, tb.Len(tb.Field(val, t, i)))
		}
	}
	return n, lists
}

// bytes: sizes of the messages of the shard simulator, and their sum.
func (w *countp) bytes() {
	c, tb := w.c, w.x.TB
	fn := c.Fn(w.rel, "server", "HandleMessage")
	tMsg := c.Type(w.rel, "message")
	if fn == nil || !c.Ob(tMsg != nil, "anchor", "message", token.NoPos, "message interface not found") {
		return
	}
	defer w.opaque(nil)()
	im := tMsg.Underlying().(*types.Interface)
	sc := fn.Pkg.Pkg.Scope()
	kinds := 0
	for _, nm := range sc.Names() {
		o, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok || types.IsInterface(o.Type()) || !types.Implements(o.Type(), im) {
			continue
		}
		kinds++
		t := o.Type()
		rt, val := w.handle(fn, t)
		name := rt.name + " " + nm
		// the size by itself
		var size *Term
		if sf := c.Fn(w.rel, nm, "size"); sf != nil {
			ps := c.Run(w.x, sf, nil, []*Term{val})
			for _, p := range ps {
				if !c.Ob(p.Kind == "return" && len(p.Vals) == 1 && (size == nil || p.Vals[0] == size), "size", nm, p.Pos, "the size of a message is not one expression") {
					continue
				}
				size = p.Vals[0]
				n, ls := w.carried(val, t)
				if n == 0 && len(ls) == 0 {
					k := size.Op == "num" && size.Num.Sign() >= 0
					c.Ob(k, "size", nm, p.Pos, "a message that carries no transaction has the size %s", size)
					continue
				}
				if w.tx == nil {
					for _, a := range tb.LinOf(size).Vars {
						if a.Op == "load" && a.Args[0].Op == "global" {
							w.tx = a
						}
						if a.Op == "mul" {
							for _, x := range a.Args {
								if x.Op == "load" && x.Args[0].Op == "global" {
									w.tx = x
								}
							}
						}
					}
				}
				if !c.Ob(w.tx != nil, "size", nm, p.Pos, "the size of a message that carries transactions is %s", size) {
					continue
				}
				want := tb.Int(0)
				for i := int64(0); i < n; i++ {
					want = tb.Add(want, w.tx)
				}
				for _, l := range ls {
					want = tb.Add(want, tb.Mul(l, w.tx))
				}
				d := tb.Sub(size, want)
				c.Ob(d.Op == "num" && d.Num.Sign() >= 0, "size", nm, p.Pos, "the size of a message that carries %d transactions and %d lists of them is %s", n, len(ls), size)
			}
		}
		me := rt.args[0]
		b0 := rt.st0.Peek(w.loc(me, w.ctr["receivedBytes"]))
		n := 0
		for _, p := range rt.ps {
			if p.Kind != "return" || size == nil {
				continue
			}
			n++
			size := size
			for _, e := range evs(p, "call", "(main.message).size") {
				if k, v := msgType(e.Args[0]); k == absint.TypeKey(t) && v == val {
					size = e.Res
				}
			}
			want := b0
			if nm != "blockArrival" {
				want = tb.Add(b0, size)
			} else if !p.St.F.ProveEq(p.St.Peek(w.loc(me, w.ctr["receivedBytes"])), want) {
				want = tb.Add(b0, size)
			}
			got := p.St.Peek(w.loc(me, w.ctr["receivedBytes"]))
			c.Ob(p.St.F.ProveEq(got, want), "bytes", name, p.Pos, "after a %s the bytes received are %s", nm, got)
		}
		c.Ob(n > 0, "instances", name, token.NoPos, "handling a %s never ends", nm)
	}
	c.Ob(kinds >= 5, "instances", "messages", token.NoPos, "only %d kinds of messages found", kinds)
}

// quantiles: a recorder answers from its own sketch.
func (w *countp) quantiles() {
	c, tb := w.c, w.x.TB
	tD := c.Type(w.rel, "distributionSketch")
	fS := w.need(tD, "sketch of a recorder", "sketch", isNamed("DDSketch"))
	rt := w.run("distributionSketch", "getQuantiles", nil)
	if rt == nil || fS < 0 {
		return
	}
	n := 0
	for _, p := range rt.ps {
		if p.Kind != "return" {
			continue
		}
		n++
		es := evs(p, "call", "(*ddsketch.DDSketch).GetValuesAtQuantiles")
		ok := len(es) == 1 && len(p.Vals) == 1 && len(rt.args) == 2
		if ok {
			e := es[0]
			ok = e.Args[0] == rt.st0.Peek(w.fa(rt.args[0], tD, fS)) && e.Args[1] == rt.args[1] && p.Vals[0] == tb.Mk("extract", "0", e.Res)
			v, known := p.St.F.Value(tb.Eq(tb.Mk("extract", "1", e.Res), tb.Nil(), false))
			ok = ok && known && v
		}
		c.Ob(ok, "quantiles", rt.name, p.Pos, "the quantiles of a recorder are not those of its sketch")
	}
	c.Ob(n > 0, "instances", rt.name, token.NoPos, "%s never answers", rt.name)
}

// reports: the run, the reset of the counters and the figures printed.
func (w *countp) reports() {
	c, tb := w.c, w.x.TB
	fn := c.Fn(w.rel, "", "main")
	if fn == nil {
		return
	}
	defer w.opaque(nil)()
	rd := w.x.Reads
	w.x.Reads = func(ci *absint.CallInfo) bool {
		return ci.Key == "(*des.Simulator).Time" || rd != nil && rd(ci)
	}
	defer func() { w.x.Reads = rd }()
	ps := c.Run(w.x, fn, nil, nil)
	name := w.rel + ".main"
	rt := &ltRoot{fn: fn, name: name, ps: ps, idx: c.lvIndex(ps)}
	flags := map[string]*Term{}
	order := []string{"mean", "stddev", "p5", "p25", "p50", "p75", "p95"}
	header := false
	var runs []*Loop
	segs := c.Segs(ps)
	seen := map[*Loop]bool{}
	for _, s := range segs {
		for n, t := range flagsOf(s.P) {
			flags[n] = t
		}
		for _, e := range evs(s.P, "call", "") {
			if e.Callee == "(*des.Simulator).RunUntil" || e.Callee == "(*des.Simulator).Run" {
				if c.Ob(s.Loop != nil && len(s.Outer) == 0 && e.Callee == "(*des.Simulator).RunUntil", "run", name, e.Pos, "the simulation is not run round by round") && !seen[s.Loop] {
					seen[s.Loop] = true
					runs = append(runs, s.Loop)
				}
			}
			for _, x := range strs(e) {
				if i := strings.Index(x, "moments:"); i >= 0 && strings.HasPrefix(e.Callee, "fmt.") {
					var o []string
					for _, f := range strings.FieldsFunc(x[i+len("moments:"):], func(r rune) bool { return r == ',' || r == ' ' || r == '\n' }) {
						o = append(o, f)
					}
					order, header = o, true
				}
			}
		}
	}
	c.Ob(header, "instances", name+" header", token.NoPos, "the figures reported are not explained")
	c.Ob(len(runs) > 0, "instances", name+" run", token.NoPos, "the simulation is never run")
	for _, L := range runs {
		w.rounds(ps, L, name, flags)
	}
	w.recorders(ps, segs, name)
	// every label is reported by every run that ends
	wants := []string{"overhead", "latency p5", "latency p50", "latency p95"}
	if w.rel == "simulator" {
		wants = append(wants, "decoded transaction rate")
	} else {
		wants = append(wants, "received transaction rate", "duplicate transaction rate")
	}
	n := 0
	for _, p := range ps {
		if p.Kind != "return" {
			continue
		}
		n++
		got := map[string]int{}
		for _, e := range p.Events {
			if e.Kind != "call" || !strings.HasPrefix(e.Callee, "fmt.") {
				continue
			}
			l := figLabel(e)
			if l == "" {
				continue
			}
			got[l]++
			w.report(rt, p, e, l, order, runs, flags, name)
		}
		for _, l := range wants {
			c.Ob(got[l] == 1, "reported", name+" "+l, p.Pos, "the %s is reported %d times", l, got[l])
		}
	}
	c.Ob(n > 0, "instances", name+" end", token.NoPos, "%s never ends", name)
	_ = tb
}

// strs: the string constants given to a call.
func strs(e *Event) []string {
	var out []string
	var down func(t *Term, d int)
	down = func(t *Term, d int) {
		if d > 6 {
			return
		}
		switch t.Op {
		case "str":
			s := t.Aux
			if u, err := strconv.Unquote(s); err == nil {
				s = u
			}
			out = append(out, s)
		case "iface", "append", "appendsl", "conv":
			for _, a := range t.Args {
				down(a, d+1)
			}
		}
	}
	for _, a := range e.Args {
		down(a, 0)
	}
	return out
}

var labels = regexp.MustCompile(`(received|decoded|duplicate) transaction rate|overhead|latency p[0-9]+`)

func figLabel(e *Event) string {
	for _, s := range strs(e) {
		if m := labels.FindString(s); m != "" {
			return m
		}
	}
	return ""
}

// resets: the loops of b in which counters are set to zero, and writes elsewhere.
func (w *countp) resets(b *Path) (ls []*Loop, loose []*Event) {
	isCtr := func(e *Event) bool {
		if e.Kind != "store" || len(e.Args) < 2 || e.Args[0].Op != "faddr" {
			return false
		}
		o, is := e.Args[0].Obj.(*types.Var)
		for _, n := range append([]string{"serverMetric"}, w.names...) {
			if is && o.Name() == n {
				return e.Args[0].Args[0].Op != "alloc" || !strings.Contains(e.Args[0].Args[0].Aux, "newServers")
			}
		}
		return false
	}
	for _, e := range b.Events {
		if isCtr(e) {
			loose = append(loose, e)
		}
		if e.Kind != "loop" {
			continue
		}
		hit := false
		for _, q := range e.Loop.Backs {
			for _, x := range q.Events {
				hit = hit || isCtr(x)
			}
		}
		if hit {
			ls = append(ls, e.Loop)
		}
	}
	return
}

// list of servers whose element with the index idx is used in round b.
func (w *countp) serversOf(b *Path, at *Term) (list, idx *Term) {
	for at.Op == "faddr" {
		at = at.Args[0]
	}
	if at.Op == "load" && at.Args[0].Op == "iaddr" {
		return at.Args[0].Args[0], at.Args[0].Args[1]
	}
	return nil, nil
}

// rounds: one round of the loop that runs the simulation.
func (w *countp) rounds(ps []*Path, L *Loop, name string, flags map[string]*Term) {
	c, tb := w.c, w.x.TB
	warm, dur := flags["w"], flags["dur"]
	if !c.Ob(warm != nil && dur != nil, "anchor", name+" flags", L.Pos, "flags for the warm-up and the duration not found") {
		return
	}
	nres := 0
	for _, b := range L.Backs {
		var cur *Term
		at := -1
		for i, e := range b.Events {
			if e.Kind == "call" && e.Callee == "(*des.Simulator).RunUntil" {
				c.Ob(at < 0, "run", name+" once", e.Pos, "the simulation is advanced twice in a round")
				cur, at = e.Args[1], i
			}
		}
		if !c.Ob(cur != nil, "run", name+" each", b.Pos, "a round goes by without the simulation being advanced") {
			continue
		}
		// the time goes on in steps
		var lv *absint.LVInfo
		for _, v := range tb.LinOf(cur).Vars {
			if r := L.Var(v); r != nil {
				lv = r
			}
		}
		if !c.Ob(lv != nil, "run", name+" time", b.Pos, "the simulation is advanced to %s in every round", cur) {
			continue
		}
		step := tb.Sub(L.Back(b, lv), lv.LV)
		stepOk := step.Op == "num" && step.Num.Sign() > 0
		for _, f := range flags {
			stepOk = stepOk || f == step
		}
		c.Ob(stepOk, "run", name+" step", b.Pos, "from one round to the next the time goes on by %s", step)
		c.Ob(b.St.F.Entails(tb.Le(cur, dur)), "run", name+" end", b.Pos, "the simulation is advanced beyond its duration")
		// resets
		ls, loose := w.resets(b)
		c.Ob(len(loose) == 0, "reset", name+" loose", b.Pos, "counters are changed outside of the loop over all servers")
		past := b.St.F.Entails(tb.Le(warm, cur))
		before := b.St.F.Entails(tb.Le(cur, warm))
		prev := tb.Sub(cur, step)
		done, notyet := b.St.F.Entails(tb.Le(warm, prev)), b.St.F.Entails(tb.Le(prev, warm))
		for _, v := range L.Vars {
			if v.LV.Typ == nil || (v.Entry.Op != "true" && v.Entry.Op != "false") {
				continue
			}
			// a mark that is set in the rounds that reset, and only there
			mark := true
			for _, q := range L.Backs {
				r, _ := w.resets(q)
				x := L.Back(q, v)
				if len(r) > 0 {
					mark = mark && (x.Op == "true" || x.Op == "false") && x != v.Entry
				} else {
					val, known := q.St.F.Value(v.LV)
					mark = mark && (x == v.LV || known && val == (x.Op == "true") && (x.Op == "true" || x.Op == "false"))
				}
			}
			if !mark {
				continue
			}
			val, known := b.St.F.Value(v.LV)
			if known && val == (v.Entry.Op == "true") {
				notyet = true
			}
			if known && val != (v.Entry.Op == "true") {
				done = true
			}
		}
		if len(ls) == 0 {
			c.Ob(before || done, "reset", name+" missed", b.Pos, "a round behind the warm-up goes by without the counters having been reset")
			continue
		}
		nres++
		if !c.Ob(len(ls) == 1, "reset", name+" loops", b.Pos, "the counters are reset in %d loops", len(ls)) {
			continue
		}
		c.Ob(past, "reset", name+" early", ls[0].Pos, "the counters are reset before the end of the warm-up")
		c.Ob(notyet, "reset", name+" again", ls[0].Pos, "the counters are reset more than once")
		for i, e := range b.Events {
			if e.Kind == "loop" && e.Loop == ls[0] {
				c.Ob(i > at, "reset", name+" order", e.Pos, "the counters are reset before the simulation reaches the end of the warm-up")
			}
		}
		// all servers, all counters
		R := ls[0]
		for _, q := range R.Backs {
			var srv *Term
			for _, e := range q.Events {
				if e.Kind == "store" && e.Args[0].Op == "faddr" {
					x := e.Args[0]
					for x.Op == "faddr" {
						x = x.Args[0]
					}
					srv = x
				}
			}
			if srv == nil {
				continue
			}
			list, _ := w.serversOf(q, srv)
			if !c.Ob(list != nil, "reset", name+" which", q.Pos, "the counters reset are those of %s", srv) {
				continue
			}
			_, ok := w.counter(R, []*Path{b}, tb.Len(list))
			c.Ob(ok && w.all(ps, list), "reset", name+" all", R.Pos, "the counters are not reset for every server")
			for _, n := range w.names {
				v := q.St.Peek(w.loc(srv, w.ctr[n]))
				c.Ob(v == tb.Int(0) || q.St.F.ProveEq(v, tb.Int(0)), "reset", name+" "+n, q.Pos, "%s is %s after the reset", n, v)
			}
		}
	}
	c.Ob(nres > 0, "reset", name, L.Pos, "the counters are never reset after the warm-up")
	for _, p := range c.Exits(ps, L) {
		if p.Kind != "return" {
			continue
		}
		var cur *Term
		for _, b := range L.Backs {
			for _, e := range evs(b, "call", "(*des.Simulator).RunUntil") {
				cur = e.Args[1]
			}
		}
		c.Ob(cur != nil && p.St.F.Entails(tb.Le(dur, cur)), "run", name+" until", p.Pos, "the simulation ends before its duration")
	}
}

// all: the list holds the servers started, one for each round of that loop.
func (w *countp) all(ps []*Path, list *Term) bool {
	idx := w.c.lvIndex(ps)
	for _, r := range idx[list] {
		n := 0
		for _, b := range r.l.Backs {
			x := r.l.Back(b, r.v)
			if len(evs(b, "call", schedMsg)) > 0 && x.Op == "append" && x.Args[0] == r.v.LV && len(x.Args) == 2 {
				n++
			}
		}
		if n > 0 && n == len(r.l.Backs) && (r.v.Entry.Op == "nil" || r.v.Entry.Op == "makeslice" || r.v.Entry.Op == "slice" || r.v.Entry.Op == "zero" || r.v.Entry.Op == "append") {
			return true
		}
	}
	return list.Op != "slice" && len(idx[list]) == 0 && list.Op == "makeslice"
}

// recorders: every server gets recorders of its own.
func (w *countp) recorders(ps []*Path, segs []Seg, name string) {
	c := w.c
	want := map[int]bool{w.fSk[len(w.fSk)-1]: false}
	if w.fOv != nil {
		want[w.fOv[len(w.fOv)-1]] = false
	}
	for _, s := range segs {
		if s.Loop == nil && s.P.Kind != "return" {
			continue
		}
		used := map[*Term]bool{}
		for _, e := range s.P.Events {
			if e.Kind != "store" || len(e.Args) < 2 || e.Args[0].Op != "faddr" || e.Args[1].Op == "nil" {
				continue
			}
			base := e.Args[0].Args[0]
			for k := range want {
				if w.fa(base, w.tS, k) != e.Args[0] {
					continue
				}
				want[k] = true
				if !c.Ob(s.Loop != nil, "recorders", name, e.Pos, "a recorder is given to a server outside of the loops over all servers") {
					continue
				}
				v := e.Args[1]
				own := !used[v]
				used[v] = true
				switch v.Op {
				case "alloc":
					for loc := range s.Loop.HeadSt.Mem() {
						own = own && !absint.Contains(loc, v)
					}
				default:
					made := false
					for _, x := range evs(s.P, "call", "") {
						made = made || x.Res == v && strings.Contains(x.Callee, "ewDistributionSketch")
					}
					own = own && made
				}
				c.Ob(own, "recorders", name+" own", e.Pos, "a server is given a recorder that others use: %s", v)
				if base.Op != "alloc" {
					list, _ := w.serversOf(s.P, base)
					ok := list != nil && w.all(ps, list)
					if ok {
						_, ok = w.counter(s.Loop, c.Exits(ps, s.Loop), w.x.TB.Len(list))
					}
					c.Ob(ok, "recorders", name+" all", e.Pos, "not every server is given a recorder")
				}
			}
		}
	}
	for _, v := range want {
		c.Ob(v, "instances", name+" recorders", token.NoPos, "servers are not given their recorders")
	}
}

// report: the figures printed under the label.
func (w *countp) report(rt *ltRoot, p *Path, e *Event, l string, order []string, runs []*Loop, flags map[string]*Term, name string) {
	c, tb := w.c, w.x.TB
	name += " " + l
	var figs []*Term
	var flat func(t *Term, d int)
	flat = func(t *Term, d int) {
		if d > 12 {
			return
		}
		switch t.Op {
		case "iface", "append", "appendsl":
			for _, a := range t.Args {
				flat(a, d+1)
			}
		case "nil", "str":
		default:
			if t.Typ != nil && isSliceT(t.Typ) && tb.Len(t) == tb.Int(0) {
				return
			}
			for _, r := range rt.idx[t] {
				if isSliceT(r.v.LV.Typ) && onPath(p, r.l) {
					flat(r.v.Entry, d+1)
					figs = append(figs, w.unroll(p, r, figs)...)
					return
				}
			}
			figs = append(figs, t)
		}
	}
	for _, a := range e.Args {
		flat(a, 0)
	}
	if !c.Ob(len(figs) == len(order), "figures", name, e.Pos, "%d figures are reported where %d are announced", len(figs), len(order)) {
		return
	}
	var sample *Term
	for i, o := range order {
		fn, q := "", -1.0
		switch {
		case o == "mean":
			fn = "Mean"
		case o == "stddev":
			fn = "StdDev"
		case strings.HasPrefix(o, "p"):
			n, err := strconv.Atoi(o[1:])
			if err == nil {
				fn, q = "Quantile", float64(n)/100
			}
		}
		var ev *Event
		for _, x := range p.History() {
			if x.Kind == "call" && x.Res == figs[i] {
				ev = x
			}
		}
		var args []*Term
		callee := ""
		if ev != nil {
			args, callee = ev.Args, ev.Callee
		} else if figs[i].Op == "call" {
			args, callee = figs[i].Args, figs[i].Aux
		}
		ok := strings.HasSuffix(callee, "."+fn) && strings.Contains(callee, "stats.Sample") && len(args) > 0
		if ok && q >= 0 {
			ok = len(args) == 2 && args[1].Op == "num"
			if ok {
				f, _ := args[1].Num.Float64()
				ok = math.Abs(f-q) < 1e-9
			}
		}
		if ok && sample == nil {
			sample = args[0]
		}
		if !c.Ob(ok && args[0] == sample, "figures", name+" "+o, e.Pos, "the figure announced as %s is %s", o, figs[i]) {
			return
		}
	}
	if sample.Op == "alloc" || sample.Op == "faddr" {
		sample = p.St.Peek(sample)
	}
	xs, sorted := w.sample(rt, p, sample, 0)
	if !c.Ob(xs != nil, "sample", name, e.Pos, "the values of the sample are not known: %s", sample) {
		return
	}
	if sorted {
		ok := false
		for _, x := range p.History() {
			if x.Kind == "call" && (x.Callee == "sort.Float64s" || x.Callee == "slices.Sort") && len(x.Args) > 0 && x.Args[0] == xs {
				ok = true
			}
		}
		c.Ob(ok, "sample", name+" sorted", e.Pos, "the sample claims to be sorted but is not")
	}
	// one value per server
	var L *Loop
	var lv *absint.LVInfo
	var made *Term
	for _, r := range rt.idx[xs] {
		if onPath(p, r.l) && (r.v.Entry.Op == "nil" || r.v.Entry.Op == "zero" || p.St.F.Entails(tb.Le(tb.Len(r.v.Entry), tb.Int(0)))) {
			L, lv = r.l, r.v
		}
	}
	if L == nil {
		// filled in place
		for _, x := range evs(p, "loop", "") {
			for _, b := range x.Loop.Backs {
				for _, s := range evs(b, "store", "") {
					if s.Args[0].Op == "iaddr" && s.Args[0].Args[0] == xs {
						L, made = x.Loop, xs
					}
				}
			}
		}
	}
	if !c.Ob(L != nil, "sample", name+" values", e.Pos, "the values of the sample are not collected in a loop: %s", xs) {
		return
	}
	for _, b := range L.Backs {
		var val *Term
		var at *Term
		if lv != nil {
			x := L.Back(b, lv)
			if x.Op == "append" && x.Args[0] == lv.LV && len(x.Args) == 2 {
				val = x.Args[1]
			}
		} else {
			n := 0
			for _, s := range evs(b, "store", "") {
				if s.Args[0].Op == "iaddr" && s.Args[0].Args[0] == made {
					val, at = s.Args[1], s.Args[0].Args[1]
					n++
				}
			}
			if n != 1 {
				val = nil
			}
		}
		if !c.Ob(val != nil, "sample", name+" one", b.Pos, "a round does not add one value to the sample") {
			continue
		}
		// the server of the round
		var list *Term
		_, fac := mono(tb, val)
		for a := range fac {
			x := a
			for k := 0; k < 8 && x != nil; k++ {
				if li, _ := w.serversOf(b, x); li != nil {
					list = li
					break
				}
				if (x.Op == "load" || x.Op == "faddr" || x.Op == "field") && len(x.Args) > 0 {
					x = x.Args[0]
				} else {
					break
				}
			}
		}
		for _, x := range b.Events {
			if x.Kind == "call" && strings.HasSuffix(x.Callee, ".getQuantiles") && absint.Contains(val, x.Res) {
				y := x.Args[0]
				for k := 0; k < 8; k++ {
					if li, _ := w.serversOf(b, y); li != nil {
						list = li
						break
					}
					if len(y.Args) == 0 {
						break
					}
					y = y.Args[0]
				}
			}
		}
		if !c.Ob(list != nil && w.all(rt.ps, list), "sample", name+" servers", b.Pos, "the values reported are not those of the servers: %s", val) {
			continue
		}
		ix, ok := w.counter(L, []*Path{p}, tb.Len(list))
		if !c.Ob(ok && (at == nil || at == ix[0] || b.St.F.ProveEq(at, ix[0])), "sample", name+" all", L.Pos, "not every server enters the sample once") {
			continue
		}
		if made != nil {
			c.Ob(p.St.F.ProveEq(tb.Len(made), tb.Len(list)), "sample", name+" length", L.Pos, "the sample has %s values", tb.Len(made))
		}
		et := sliceElem(list.Typ)
		srv := b.St.Load(b.St.IndexAddr(list, ix[0], et), et)
		ctr := func(n string) *Term { return b.St.Peek(w.loc(srv, w.ctr[n])) }
		k, m := mono(tb, val)
		one := big.NewRat(1, 1)
		switch {
		case strings.HasSuffix(l, "rate"):
			n := strings.Fields(l)[0] + "Transactions"
			ok := k.Cmp(one) == 0 && len(m) == 2 && w.ctr[n] != nil && m[ctr(n)] == 1
			var sec *Term
			for x, d := range m {
				if d == -1 {
					sec = x
				}
			}
			ok = ok && sec != nil && sec.Op == "call" && sec.Aux == "(time.Duration).Seconds"
			if c.Ob(ok, "value", name, b.Pos, "the %s of a server is %s", l, val) {
				w.window(rt, p, b, sec.Args[0], runs, flags, name)
			}
		case l == "overhead":
			want := map[*Term]int{}
			if w.rel == "simulator" {
				want[ctr("receivedCodewords")], want[ctr("decodedTransactions")] = 1, -1
			} else {
				want[ctr("receivedBytes")], want[ctr("decodedTransactions")] = 1, -1
				if w.tx != nil {
					want[b.St.Peek(w.tx.Args[0])] = -1
					c.Ob(b.St.Peek(w.tx.Args[0]) == flags["txsize"], "value", name+" size", b.Pos, "the size of a transaction is %s", b.St.Peek(w.tx.Args[0]))
				}
			}
			c.Ob(eqMono(k, m, one, want), "value", name, b.Pos, "the %s of a server is %s", l, val)
		default:
			n, _ := strconv.Atoi(strings.TrimPrefix(l, "latency p"))
			ok := false
			for _, x := range b.Events {
				if x.Kind != "call" || !strings.HasSuffix(x.Callee, ".getQuantiles") || len(x.Args) != 2 {
					continue
				}
				if x.Args[0] != b.St.Peek(w.loc(srv, w.fSk)) || x.Args[1].Op != "append" {
					continue
				}
				for i, q := range x.Args[1].Args[1:] {
					if q.Op != "num" {
						continue
					}
					f, _ := q.Num.Float64()
					at := b.St.IndexAddr(x.Res, tb.Int(int64(i)), types.Typ[types.Float64])
					hit := b.St.Load(at, types.Typ[types.Float64]) == val || val.Op == "load" && val.Args[0] == at
					for _, s := range evs(b, "store", "") {
						hit = hit && !(s.Args[0].Op == "iaddr" && s.Args[0].Args[0] == x.Res)
					}
					ok = ok || hit && math.Abs(f-float64(n)/100) < 1e-9
				}
			}
			c.Ob(ok, "value", name, b.Pos, "the %s of a server is %s", l, val)
		}
	}
}

// unroll: the figures a loop over a list of constants adds.
func (w *countp) unroll(p *Path, r lvRec, before []*Term) []*Term {
	tb := w.x.TB
	if len(r.l.Backs) != 1 {
		return nil
	}
	b := r.l.Backs[0]
	x := r.l.Back(b, r.v)
	if x.Op != "append" || x.Args[0] != r.v.LV || len(x.Args) != 2 {
		return nil
	}
	for _, e := range b.Events {
		if e.Kind != "call" || e.Res != x.Args[1] || len(e.Args) != 2 {
			continue
		}
		q := e.Args[1]
		if q.Op != "load" && q.Op != "idx" {
			return nil
		}
		a := q.Args[0]
		var list *Term
		if a.Op == "iaddr" {
			list = a.Args[0]
		} else {
			list = a
		}
		n := tb.Len(list)
		if n.Op != "num" {
			return nil
		}
		if _, ok := w.counter(r.l, []*Path{p}, n); !ok {
			return nil
		}
		var out []*Term
		for i := int64(0); i < n.Num.Num().Int64(); i++ {
			v := p.St.Load(p.St.IndexAddr(list, tb.Int(i), types.Typ[types.Float64]), types.Typ[types.Float64])
			out = append(out, tb.Mk("call", e.Callee, e.Args[0], v))
		}
		return out
	}
	return nil
}

// sample: the values of a sample and whether it claims to be sorted.
func (w *countp) sample(rt *ltRoot, p *Path, s *Term, d int) (xs *Term, sorted bool) {
	if d > 8 {
		return nil, true
	}
	switch s.Op {
	case "upd":
		xs, sorted = w.sample(rt, p, s.Args[0], d+1)
		if strings.HasPrefix(s.Aux, "Xs@") {
			xs = s.Args[1]
		}
		if strings.HasPrefix(s.Aux, "Sorted@") {
			sorted = s.Args[1].Op != "false"
		}
		return
	case "zero":
		return w.x.TB.Nil(), false
	}
	// changed in a loop: what is in its field then
	for _, r := range rt.idx[s] {
		if !onPath(p, r.l) || r.v.Loc == nil {
			continue
		}
		_, sorted = w.sample(rt, p, r.v.Entry, d+1)
		for _, v := range r.l.Vars {
			if v.Loc != nil && v.Loc.Op == "faddr" && v.Loc.Args[0] == r.v.Loc {
				if strings.HasPrefix(v.Loc.Aux, "Xs@") {
					xs = v.LV
				} else {
					sorted = true
				}
			}
		}
		// nothing else changes it
		for _, b := range r.l.Backs {
			x := r.l.Back(b, r.v)
			for x.Op == "upd" {
				if !strings.HasPrefix(x.Aux, "Xs@") {
					return nil, true
				}
				x = x.Args[0]
			}
			if x != s {
				return nil, true
			}
		}
		return
	}
	return nil, true
}

// window: t is the time from the reset of the counters to the end of the run.
func (w *countp) window(rt *ltRoot, p, b *Path, t *Term, runs []*Loop, flags map[string]*Term, name string) {
	c, tb := w.c, w.x.TB
	lin := tb.LinOf(t)
	isTime := func(q *Path, x *Term) bool {
		for _, e := range q.Events {
			if e.Kind == "call" && e.Callee == "(*des.Simulator).Time" && e.Res == x {
				return true
			}
		}
		return false
	}
	var end, from *Term
	for i, v := range lin.Vars {
		if !lin.Coef[i].IsInt() {
			continue
		}
		switch lin.Coef[i].Num().Int64() {
		case 1:
			end = v
		case -1:
			from = v
		}
	}
	if !c.Ob(len(lin.Vars) == 2 && lin.K.Sign() == 0 && end != nil && from != nil, "window", name, b.Pos, "the rate is taken over %s", t) {
		return
	}
	// the end: the time after the run
	ok := isTime(b, end)
	after := false
	for _, e := range p.Events {
		if e.Kind == "loop" {
			for _, L := range runs {
				after = after || e.Loop == L
			}
		}
		ok = ok || after && e.Kind == "call" && e.Callee == "(*des.Simulator).Time" && e.Res == end
	}
	c.Ob(ok, "window", name+" end", b.Pos, "the rate is taken up to %s, not to the end of the run", end)
	// the beginning: the time of the reset
	ok = false
	for _, L := range runs {
		if !onPath(p, L) {
			continue
		}
		v := L.Var(from)
		if v == nil {
			continue
		}
		ok = true
		n := 0
		for _, q := range L.Backs {
			x := L.Back(q, v)
			if ls, _ := w.resets(q); len(ls) > 0 {
				n++
				is := false
				ran := false
				for _, e := range q.Events {
					if e.Kind != "call" {
						continue
					}
					ran = ran || e.Callee == "(*des.Simulator).RunUntil"
					is = is || ran && e.Callee == "(*des.Simulator).Time" && e.Res == x || e.Callee == "(*des.Simulator).RunUntil" && e.Args[1] == x
				}
				ok = ok && is
			} else {
				ok = ok && x == v.LV
			}
		}
		ok = ok && n > 0
	}
	c.Ob(ok, "window", name+" from", b.Pos, "the rate is taken from %s on, not from the time the counters were reset", from)
}
