package rules

import (
	"go/token"
	"go/types"
	"strings"

	"rsrcheck/internal/absint"
)

// ---------------------------------------------------------------- C36

func ruleC36(c *C) {
	s := c.sim("newsim")
	tb := s.x.TB
	tP := c.Type("newsim", "pull")
	fK := s.need(tP, "known transactions of a link", "known", isMapT)
	fO := s.need(tP, "queue of the pull protocol", "outbox", func(t types.Type) bool { e := sliceElem(t); return e != nil && isAny(e) })
	if fK < 0 || fO < 0 {
		return
	}
	elem := s.ftype(tP, fK).Underlying().(*types.Map).Elem()
	hf := field(elem, "Hash", isBasic(types.Uint64))
	if !c.Ob(hf >= 0, "anchor", "hash", token.NoPos, "hash of a transaction not found") {
		return
	}
	// sub reads field 0 of a message value
	type eff struct {
		out   []*Term   // queued
		puts  [][]*Term // remembered
		other bool
	}
	effects := func(rt *ltRoot, p *Path) eff {
		me := rt.args[0]
		var e eff
		o0, o1 := rt.st0.Peek(s.fa(me, tP, fO)), p.St.Peek(s.fa(me, tP, fO))
		w, ok := walk(p, rt.idx, o1, o0)
		e.other = !ok
		for _, q := range w {
			if q.kind == "append" {
				e.out = append(e.out, q.xs...)
			} else {
				e.other = true
			}
		}
		ref := rt.st0.Peek(s.fa(me, tP, fK))
		w, ok = walk(p, rt.idx, p.St.MapContent(ref), rt.st0.MapContent(ref))
		e.other = e.other || !ok || p.St.Peek(s.fa(me, tP, fK)) != ref
		for _, q := range w {
			if q.kind == "put" {
				e.puts = append(e.puts, q.xs)
			} else {
				e.other = true
			}
		}
		return e
	}
	one := func(xs []*Term, typ string, val *Term) bool {
		if len(xs) != 1 {
			return false
		}
		k, v := msgType(xs[0])
		return k == "main."+typ && v != nil && tb.Field(v, c.Type("newsim", typ), 0) == val
	}
	if rt := s.run("pull", "forwardTransaction", nil); rt != nil && len(rt.args) == 2 {
		tx := rt.args[1]
		h := tb.Field(tx, elem, hf)
		for _, p := range rt.ps {
			if !c.Ob(p.Kind == "return", "total", rt.name, p.Pos, "%s can end in a %s", rt.name, p.Kind) {
				continue
			}
			e := effects(rt, p)
			c.Ob(!e.other && one(e.out, "announce", h), "announce", rt.name, p.Pos, "a transaction handed to the link queues %v, not one announcement of its hash", e.out)
			c.Ob(!e.other && len(e.puts) == 1 && e.puts[0][0] == h && e.puts[0][1] == tx, "remember", rt.name, p.Pos, "a transaction handed to the link is not remembered under its hash: %v", e.puts)
		}
	}
	for _, typ := range []string{"announce", "request", "response"} {
		t := c.Type("newsim", typ)
		if !c.Ob(t != nil, "anchor", typ, token.NoPos, "message type %s not found", typ) {
			continue
		}
		fn := c.Fn("newsim", "pull", "handleMessage")
		if fn == nil {
			return
		}
		val := s.x.Param("m", t)
		st := s.x.NewState()
		me := s.x.Param(fn.Params[0].Name(), fn.Params[0].Type())
		args := []*Term{me, tb.MkT(t, "iface", absint.TypeKey(t), val)}
		st0 := st.Clone()
		ps := c.Run(s.x, fn, st, args)
		rt := &ltRoot{fn: fn, name: "newsim.pull.handleMessage", args: args, st0: st0, ps: ps, idx: c.lvIndex(ps)}
		m0 := st0.MapContent(st0.Peek(s.fa(me, tP, fK)))
		f0 := tb.Field(val, t, 0)
		for _, p := range ps {
			if !c.Ob(p.Kind == "return" && len(p.Vals) == 1, "total", rt.name+" "+typ, p.Pos, "handling a %s can end in a %s", typ, p.Kind) {
				continue
			}
			e := effects(rt, p)
			up, okUp := accum(p, rt.idx, p.Vals[0], tb.Nil())
			okUp = okUp || p.Vals[0].Op == "nil" || p.St.F.Entails(tb.Le(tb.Len(p.Vals[0]), tb.Int(0)))
			c.Ob(!e.other, "frame", rt.name+" "+typ, p.Pos, "handling a %s changes more than the queue and the known transactions", typ)
			switch typ {
			case "announce":
				has, known := p.St.F.Value(p.St.MapHas(m0, f0))
				if !c.Ob(known, "request", rt.name, p.Pos, "whether an announced hash is requested does not depend on its being known") {
					continue
				}
				c.Ob(has && len(e.out) == 0 || !has && one(e.out, "request", f0), "request", rt.name, p.Pos, "an announcement of a hash that is known: %t queues %v", has, e.out)
				c.Ob(len(e.puts) == 0 && okUp && len(up) == 0, "frame", rt.name+" announce", p.Pos, "an announcement is remembered or handed up as if it were the transaction")
			case "request":
				want := p.St.MapGet(m0, f0, elem)
				c.Ob(one(e.out, "response", want), "serve", rt.name, p.Pos, "a request queues %v, not one response with the transaction of the requested hash", e.out)
				c.Ob(len(e.puts) == 0 && okUp && len(up) == 0, "frame", rt.name+" request", p.Pos, "a request changes the known transactions or hands something up")
			case "response":
				h := tb.Field(f0, elem, hf)
				c.Ob(len(e.out) == 0, "frame", rt.name+" response", p.Pos, "a response queues %v", e.out)
				c.Ob(len(e.puts) == 1 && e.puts[0][0] == h && e.puts[0][1] == f0, "remember", rt.name, p.Pos, "the transaction of a response is not remembered under its hash: %v", e.puts)
				c.Ob(okUp && len(up) == 1 && up[0] == f0, "hand-up", rt.name, p.Pos, "a response hands up %s, not its transaction", p.Vals[0])
			}
		}
	}
	// a new link knows nothing and has nothing queued
	n := 0
	for _, fn := range c.P.Funcs("newsim") {
		if fn.Name() != "connectPullServers" {
			continue
		}
		rt := s.runFn(fn, nil)
		for _, p := range rt.ps {
			for _, e := range evs(p, "mapset", "") {
				for _, a := range subterms(e.Args[2]) {
					if a.Op == "iface" && strings.HasSuffix(a.Aux, "main.pull") {
						n++
						k := p.St.Peek(s.fa(a.Args[0], tP, fK))
						c.Ob(k.Op == "alloc" && p.St.MapContent(k).Op == "mempty", "new-link", rt.name, e.Pos, "a new link starts with %s as the known transactions", k)
					}
				}
			}
		}
	}
	c.Ob(n == 2, "instances", "new links", token.NoPos, "%d ends of new links found", n)
}

// ---------------------------------------------------------------- C37

func ruleC37(s *simp) {
	c, tb := s.c, s.x.TB
	scan := func(str, format, dst int) absint.Model {
		return func(st *State, ci *absint.CallInfo) []absint.CallResult {
			var out []absint.CallResult
			fm := ci.Args[format]
			var ptrs []*Term
			v := ci.Args[dst]
			for v.Op == "append" {
				ptrs = append(append([]*Term{}, v.Args[1:]...), ptrs...)
				v = v.Args[0]
			}
			bad := st.Clone()
			for i, q := range []*State{st, bad} {
				res := q.Fresh(ci.Key+"()", ci.Typ)
				tt := ci.Typ.(*types.Tuple)
				n := tb.MkT(tt.At(0).Type(), "extract", "0", res)
				e := tb.MkT(tt.At(1).Type(), "extract", "1", res)
				if i == 0 {
					q.F.Assume(tb.Eq(n, tb.Int(int64(len(ptrs))), true))
					q.F.Assume(tb.Eq(e, tb.Nil(), false))
				} else {
					q.F.Assume(tb.Not(tb.Eq(e, tb.Nil(), false)))
				}
				for k, a := range ptrs {
					if a.Op == "iface" {
						a = a.Args[0]
					}
					q.Poke(a, tb.MkT(types.Typ[types.Int], "scan", string(rune('0'+k)), res))
				}
				kind := "scan"
				if i == 1 {
					kind = "noscan"
				}
				q.Emit(&Event{Kind: "call", Pos: ci.Pos, Fn: ci.In, Callee: kind, Args: []*Term{ci.Args[str], fm, tb.Int(int64(len(ptrs)))}, Res: res, Instr: ci.Instr})
				out = append(out, absint.Ret(q, res)...)
			}
			return out
		}
	}
	s.x.Models["fmt.Sscanf"] = scan(0, 1, 2)
	rt := s.run("", "loadTopology", nil)
	if rt == nil || len(rt.args) != 1 {
		return
	}
	path := rt.args[0]
	tC := elemOf(rt.fn.Signature.Results().At(0).Type())
	if !c.Ob(tC != nil && rt.fn.Signature.Results().Len() == 2, "anchor", rt.name, rt.fn.Pos(), "loader's results") {
		return
	}
	fa, fb, fd := s.need(tC, "one end of a link", "a", nil), s.need(tC, "other end of a link", "b", nil), s.need(tC, "delay of a link", "delay", isDuration)
	if fa < 0 || fb < 0 || fd < 0 {
		return
	}
	nret := 0
	for _, p := range rt.ps {
		open := evs(p, "call", "os.Open")
		c.Ob(len(open) == 1 && open[0].Args[0] == path, "open", rt.name, p.Pos, "the loader does not open the file it is given")
		if p.Kind != "return" {
			continue
		}
		if len(open) != 1 {
			continue
		}
		nret++
		oerr := tb.MkT(nil, "extract", "1", open[0].Res)
		c.Ob(nilProved(p.St, oerr, open[0].Res), "open-error", rt.name, p.Pos, "the loader can return although the file could not be opened")
		sc := evs(p, "call", "bufio.NewScanner")
		if !c.Ob(len(sc) == 1 && absint.Contains(sc[0].Args[0], open[0].Res), "lines", rt.name, p.Pos, "the file is not read by one line scanner") {
			continue
		}
		scanner := sc[0].Res
		c.Ob(len(evs(p, "call", "(*bufio.Scanner).Split")) == 0, "lines", rt.name+" split", p.Pos, "the scanner does not deliver lines")
		er := evs(p, "call", "(*bufio.Scanner).Err")
		okErr := false
		for _, e := range er {
			okErr = okErr || e.Args[0] == scanner && p.St.F.ProveEq(e.Res, tb.Nil())
		}
		c.Ob(okErr, "read-error", rt.name, p.Pos, "the loader can return although reading the file failed")
		// the loop over the lines
		ls, ok := walk(p, rt.idx, p.Vals[0], tb.Nil())
		if !ok && len(ls) == 0 {
			ls, ok = walk(p, rt.idx, p.Vals[0], p.Vals[0])
		}
		var L *Loop
		var lv *absint.LVInfo
		for _, q := range ls {
			if q.kind == "loop" && L == nil {
				L, lv = q.l, q.lv
			} else {
				ok = false
			}
		}
		if !c.Ob(ok && L != nil, "links", rt.name, p.Pos, "the links returned are %s, not those collected from the lines", p.Vals[0]) {
			continue
		}
		stop := evs(p, "call", "(*bufio.Scanner).Scan")
		c.Ob(len(stop) >= 1 && isFalse(p.St, stop[len(stop)-1].Res), "all-lines", rt.name, p.Pos, "the loader can return before the last line")
		var ends []*Term // per back: connection appended
		for _, b := range L.Backs {
			line := evs(b, "call", "(*bufio.Scanner).Scan")
			got := evs(b, "call", "scan")
			bad := evs(b, "call", "noscan")
			c.Ob(len(line) == 1 && isTrue(b.St, line[0].Res), "all-lines", rt.name+" each", b.Pos, "a round of the loader takes %d lines", len(line))
			if !c.Ob(len(bad) == 0, "malformed", rt.name, b.Pos, "a malformed line does not stop the loader") {
				continue
			}
			v := L.Back(b, lv)
			if !c.Ob(len(got) == 1 && v.Op == "append" && v.Args[0] == lv.LV && len(v.Args) == 2, "links", rt.name+" each", b.Pos, "a line adds %s to the links, not exactly one", v) {
				continue
			}
			g := got[0]
			tx := evs(b, "call", "(*bufio.Scanner).Text")
			okText := len(tx) > 0 && g.Args[0] == tx[len(tx)-1].Res
			c.Ob(okText, "links", rt.name+" line", g.Pos, "what is scanned is %s, not the line", g.Args[0])
			c.Ob(strings.ReplaceAll(constStr(g.Args[1]), " ", "") == "%d,%d,%d" && g.Args[2] == tb.Int(3), "format", rt.name, g.Pos, "a line is scanned as %s", g.Args[1])
			v0 := func(i int) *Term { return tb.MkT(types.Typ[types.Int], "scan", string(rune('0'+i)), g.Res) }
			cn := v.Args[1]
			c.Ob(tb.Field(cn, tC, fa) == v0(0) && tb.Field(cn, tC, fb) == v0(1), "ends", rt.name, b.Pos, "a link joins %s and %s, not the first two numbers of the line", tb.Field(cn, tC, fa), tb.Field(cn, tC, fb))
			want := tb.Mul(v0(2), tb.Int(1000000))
			c.Ob(b.St.F.ProveEq(tb.Field(cn, tC, fd), want), "delay", rt.name, b.Pos, "a link gets the delay %s, not the third number in milliseconds", tb.Field(cn, tC, fd))
			ends = append(ends, v0(0), v0(1))
		}
		// node count
		s.maxOver(rt, p, p.Vals[1], p.Vals[0], tC, fa, fb)
	}
	c.Ob(nret > 0, "instances", rt.name, token.NoPos, "the loader never returns")
}

// maxOver: v is one more than the maximum of 0 and both ends of every link.
func (s *simp) maxOver(rt *ltRoot, p *Path, v, list *Term, tC types.Type, fa, fb int) {
	c, tb := s.c, s.x.TB
	count := v
	// the variable may hold the largest number or the count
	off := int64(0)
	if lin := tb.LinOf(v); len(rt.idx[v]) == 0 && len(lin.Vars) == 1 {
		v, off = lin.Vars[0], 1
	}
	for _, r := range rt.idx[v] {
		L := r.l
		if !onPath(p, L) || tb.AddK(r.v.LV, off) != count {
			continue
		}
		c.Ob(p.St.F.ProveEq(r.v.Entry, tb.Int(1-off)), "count", rt.name+" start", L.Pos, "the largest node number starts from %s", r.v.Entry)
		for _, b := range L.Backs {
			n := L.Back(b, r.v)
			var es []*Term
			for _, w := range L.Vars {
				x := L.Back(b, w)
				if x.Op == "append" && x.Args[0] == w.LV && w.LV == list {
					for _, el := range x.Args[1:] {
						es = append(es, tb.Field(el, tC, fa), tb.Field(el, tC, fb))
					}
				}
			}
			if len(es) == 0 {
				ix, ok := s.counter(L, []*Path{p}, tb.Len(list))
				if c.Ob(ok, "count", rt.name+" all", L.Pos, "the largest node number does not take every link into account") {
					el := b.St.Load(b.St.IndexAddr(list, ix[0], tC), tC)
					es = append(es, tb.Field(el, tC, fa), tb.Field(el, tC, fb))
				}
			}
			is := n == r.v.LV
			up := b.St.F.Entails(tb.Le(r.v.LV, n))
			for _, e := range es {
				e = tb.AddK(e, 1-off)
				up = up && b.St.F.Entails(tb.Le(e, n))
				is = is || n == e || b.St.F.ProveEq(n, e)
			}
			c.Ob(up, "count", rt.name, b.Pos, "after a link between %v the largest node number may be %s only", es, n)
			c.Ob(is, "count", rt.name+" exact", b.Pos, "after a link between %v the largest node number becomes %s", es, n)
		}
		return
	}
	c.Fail("count", rt.name, p.Pos, "the node count is %s, not one more than the largest node number", count)
}

func constStr(t *Term) string { return strings.Trim(t.String(), "\"`") }

func isTrue(st *State, t *Term) bool  { v, k := st.F.Value(t); return k && v }
func isFalse(st *State, t *Term) bool { v, k := st.F.Value(t); return k && !v }

// nilProved: component 1 of res is known to be nil.
func nilProved(st *State, e, res *Term) bool {
	if st.F.ProveEq(e, st.TB().Nil()) {
		return true
	}
	for a, v := range st.F.AtomList() {
		if !v || (a.Op != "eq" && a.Op != "eq0") {
			continue
		}
		hit, isNil := false, false
		for _, x := range subterms(a) {
			if x.Op == "extract" && x.Aux == "1" && x.Args[0] == res {
				hit = true
			}
			if x.Op == "nil" {
				isNil = true
			}
		}
		if hit && isNil {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C38

func ruleC38(s *simp) {
	c, tb := s.c, s.x.TB
	tD := c.Type(s.rel, "distributionSketch")
	fS := s.need(tD, "sketch of a recorder", "sketch", isNamed("DDSketch"))
	fW := s.need(tD, "warm-up of a recorder", "warmup", isDuration)
	if fS < 0 || fW < 0 {
		return
	}
	covered := map[string]bool{}
	sec := func(t *Term) *Term {
		return tb.MkT(types.Typ[types.Float64], "call", "(time.Duration).Seconds", t)
	}
	for _, name := range []string{"recordRaw", "recordTxLatency"} {
		rt := s.run("distributionSketch", name, nil)
		if rt == nil {
			continue
		}
		me := rt.args[0]
		tp := rt.par(isDuration)
		if !c.Ob(tp != nil, "anchor", rt.name, rt.fn.Pos(), "time of a sample") {
			continue
		}
		for f := range s.x.Funcs {
			covered[absint.FnKey(f)] = true
		}
		var want []*Term
		if name == "recordRaw" {
			want = []*Term{rt.par(func(t types.Type) bool { return isBasic(types.Float64)(t) })}
		} else {
			tx := rt.par(isNamed("transaction"))
			tT := c.Type(s.rel, "transaction")
			fT := s.need(tT, "creation time of a transaction", "ts", isDuration)
			if tx == nil || fT < 0 {
				c.Fail("anchor", rt.name, rt.fn.Pos(), "transaction of a sample")
				continue
			}
			ts := tb.Field(tx, tT, fT)
			want = []*Term{tb.Sub(sec(tp), sec(ts)), sec(tb.Sub(tp, ts))}
		}
		warm := rt.st0.Peek(s.fa(me, tD, fW))
		cases := []struct {
			what string
			cond []*Term
			n    int
		}{
			{"there is no recorder", []*Term{tb.Eq(me, tb.Nil(), false)}, 0},
			{"the sample lies before the end of the warm-up", []*Term{tb.Not(tb.Eq(me, tb.Nil(), false)), tb.Lt(tp, warm)}, 0},
			{"the sample lies exactly at the end of the warm-up", []*Term{tb.Not(tb.Eq(me, tb.Nil(), false)), tb.Eq(tp, warm, true)}, 1},
			{"the sample lies after the warm-up", []*Term{tb.Not(tb.Eq(me, tb.Nil(), false)), tb.Lt(warm, tp)}, 1},
		}
		nadd := 0
		for _, p := range rt.ps {
			var adds []*Event
			other := false
			for _, e := range evs(p, "call", "") {
				if strings.HasPrefix(e.Callee, "(*ddsketch.DDSketch).") {
					if e.Callee == "(*ddsketch.DDSketch).Add" {
						adds = append(adds, e)
					} else if strings.Contains(e.Callee, "Add") || strings.Contains(e.Callee, "Clear") || strings.Contains(e.Callee, "Merge") || strings.Contains(e.Callee, "Reweight") {
						other = true
					}
				}
			}
			c.EachLoop([]*Path{p}, func(_ []*Loop, l *Loop, _ *Path) {
				for _, b := range l.Backs {
					for _, e := range evs(b, "call", "") {
						if strings.HasPrefix(e.Callee, "(*ddsketch.DDSketch).") {
							other = true
						}
					}
				}
			})
			c.Ob(!other, "record", rt.name+" way", p.Pos, "%s adds to the sketch in another way than one sample at a time", rt.name)
			c.Ob(p.Kind == "return" || len(adds) > 0, "total", rt.name, p.Pos, "%s can end in a %s", rt.name, p.Kind)
			nadd += len(adds)
			for _, k := range cases {
				f := p.St.Clone().F
				ok := true
				for _, t := range k.cond {
					ok = ok && f.Assume(t)
				}
				if !ok || contradictory(f, tb) {
					continue
				}
				c.Ob(len(adds) == k.n, "record", rt.name+" "+k.what, p.Pos, "when %s, %s records %d samples", k.what, rt.name, len(adds))
			}
			for _, e := range adds {
				c.Ob(e.Args[0] == rt.st0.Peek(s.fa(me, tD, fS)), "record", rt.name+" sketch", e.Pos, "%s adds to %s", rt.name, e.Args[0])
				hit := false
				for _, w := range want {
					hit = hit || w != nil && (e.Args[1] == w || p.St.F.ProveEq(e.Args[1], w))
				}
				c.Ob(hit, "value", rt.name, e.Pos, "%s records %s", rt.name, e.Args[1])
			}
			c.Ob(p.St.Peek(s.fa(me, tD, fW)) == warm && p.St.Peek(s.fa(me, tD, fS)) == rt.st0.Peek(s.fa(me, tD, fS)), "frame", rt.name, p.Pos, "%s changes the recorder's warm-up or sketch", rt.name)
		}
		c.Ob(nadd > 0, "instances", rt.name, token.NoPos, "%s never records", rt.name)
	}
	// new recorders
	if rt := s.run("", "newDistributionSketch", nil); rt != nil && len(rt.args) == 1 {
		for _, p := range rt.ps {
			if p.Kind == "return" && len(p.Vals) == 1 {
				c.Ob(p.St.Peek(s.fa(p.Vals[0], tD, fW)) == rt.args[0], "new", rt.name, p.Pos, "a new recorder's warm-up is %s", p.St.Peek(s.fa(p.Vals[0], tD, fW)))
			}
		}
	}
	// samples are added nowhere else, the warm-up is set nowhere else
	for _, fn := range c.P.Funcs(s.rel) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				k := sketchUse(in)
				if k == "" {
					continue
				}
				c.Ob(covered[absint.FnKey(fn)] || k == "warmup" && fn.Name() == "newDistributionSketch", "only", s.rel+"."+shortFn(fn), in.Pos(), "%s changes a recorder by itself (%s)", shortFn(fn), k)
			}
		}
	}
	// counters
	if rt := s.run("serverMetric", "resetMetric", nil); rt != nil {
		t := c.Type(s.rel, "serverMetric")
		st := mustStruct(t)
		for _, p := range rt.ps {
			for i := 0; i < st.NumFields(); i++ {
				v := p.St.Peek(s.fa(rt.args[0], t, i))
				c.Ob(p.Kind == "return" && (v.Op == "zero" || p.St.F.ProveEq(v, tb.Int(0))), "reset", rt.name+" "+st.Field(i).Name(), p.Pos, "resetting the metrics leaves %s at %s", st.Field(i).Name(), v)
			}
		}
	}
}
