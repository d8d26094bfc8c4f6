package rules

import (
	"go/token"
	"go/types"
	"strings"

	"rsrcheck/internal/absint"
)

// ltStart is the state a segment starts in.
func (rt *ltRoot) start(sg Seg) *State {
	if sg.From != nil {
		return sg.From
	}
	return rt.st0
}

func (l *ltp) dloc(d *Term, i int) *Term { return l.fa(d, l.tDec, i) }

// content of a map field of the decoder.
func (l *ltp) table(st *State, d *Term, i int) *Term {
	return st.MapContent(st.Peek(l.dloc(d, i)))
}

// methods analyses every exported method of a type.
func (l *ltp) methods(typ string, assume func(st *State, args []*Term)) []*ltRoot {
	var out []*ltRoot
	for _, fn := range l.c.exportedRoots(l.rel) {
		if strings.HasPrefix(shortFn(fn), typ+".") {
			out = append(out, l.runFn(fn, assume))
		}
	}
	return out
}

func findLt(rs []*ltRoot, name string) *ltRoot {
	for _, r := range rs {
		if r.name == name {
			return r
		}
	}
	return nil
}

// decMethods: the decoder's methods from a state within its memory bound.
func (l *ltp) decMethods() []*ltRoot {
	tb := l.x.TB
	return l.methods("Decoder", func(st *State, args []*Term) {
		mem := st.Peek(l.dloc(args[0], l.dMem))
		st.F.Assume(tb.Le(tb.Int(1), mem))
		st.F.Assume(tb.Le(tb.Len(st.Peek(l.dloc(args[0], l.dRecent))), mem))
	})
}

// ---------------------------------------------------------------- C15

func ruleC15(l *ltp) {
	c, tb := l.c, l.x.TB
	rs := l.decMethods()
	recvT := l.ftype(l.tDec, l.dRecv).Underlying().(*types.Map).Elem()
	// is the table's entry for key the list element at a?
	same := func(st *State, m, key, a *Term) (yes, no bool) {
		if h, k := st.F.Value(tb.Mk("mhas", "", m, key)); k && !h {
			return false, true
		}
		e := st.MapGet(m, key, recvT)
		x := l.txAt(st, a, l.tRec, l.recTx)
		cmp := func(p, q *Term) {
			yes = yes || st.F.ProveEq(p, q)
			no = no || st.F.ProveNe(p, q)
		}
		if l.ref {
			cmp(e, x)
		}
		d1, h1 := l.txParts(st, e)
		d2, h2 := l.txParts(st, x)
		cmp(d1, d2)
		if l.ref {
			cmp(h1, h2)
		} else {
			for t := range st.F.AtomList() {
				if t.Op == "call:bytes.Equal" || t.Op == "call" && t.Aux == "bytes.Equal" {
					if t.Args[0] == h1 && t.Args[1] == h2 || t.Args[0] == h2 && t.Args[1] == h1 {
						if v, k := st.F.Value(t); k {
							yes, no = yes || v, no || !v
						}
					}
				}
			}
		}
		return
	}
	stores := 0
	for _, rt := range rs {
		d := rt.args[0]
		list, mem := l.dloc(d, l.dRecent), rt.st0.Peek(l.dloc(d, l.dMem))
		k := keep{list: "the list of known transactions", table: "the table of known transactions", limit: mem, elem: l.tRec, key: l.recKey, same: same}
		k.opaque = func(lp *Loop) bool { return l.adds(rt, lp, list) }
		var within func(p *Path, v *Term, n int) bool
		within = func(p *Path, v *Term, n int) bool {
			if p.St.F.Entails(tb.Le(tb.Len(v), mem)) {
				return true
			}
			if n > 6 {
				return false
			}
			for _, x := range rt.idx[v] {
				if !onPath(p, x.l) {
					continue
				}
				if !within(p, x.v.Entry, n+1) {
					return false
				}
				for _, b := range x.l.Backs {
					if w := x.l.Back(b, x.v); w != x.v.LV && !within(b, w, n+1) {
						return false
					}
				}
				return true
			}
			return false
		}
		for _, sg := range l.c.Segs(rt.ps) {
			if !complete(sg) {
				continue
			}
			p, from := sg.P, rt.start(sg)
			l0, l1 := from.Peek(list), p.St.Peek(list)
			t0, t1 := l.table(from, d, l.dRecv), l.table(p.St, d, l.dRecv)
			same := from.Peek(l.dloc(d, l.dRecv)) == p.St.Peek(l.dloc(d, l.dRecv)) && from.Peek(l.dloc(d, l.dMem)) == p.St.Peek(l.dloc(d, l.dMem))
			c.Ob(same, "frame", rt.name, p.Pos, "%s replaces the table of known transactions or the memory size", rt.name)
			for _, ev := range storesField(sg, l.tRec, l.recKey) {
				c.Fail("entries-kept", rt.name, ev.Pos, "an entry of the list of known transactions is overwritten")
			}
			for _, ev := range storesField(sg, l.tRec, l.recTx) {
				c.Fail("entries-kept", rt.name, ev.Pos, "an entry of the list of known transactions is overwritten")
			}
			for _, f := range []int{l.txData, l.txHash} {
				for _, ev := range storesField(sg, l.tTx, f) {
					if !isAlloc(ev.Args[0]) {
						c.Fail("entries-kept", rt.name, ev.Pos, "the content of a known transaction is overwritten")
					}
				}
			}
			if l0 == l1 && t0 == t1 {
				continue
			}
			if sg.Loop != nil && !l.adds(rt, sg.Loop, list) {
				continue // a trimming loop, judged where it runs
			}
			apps, puts, ok := l.bounded(p, rt.idx, from, k, rt.name, l1, l0, t1, t0, 0)
			if !ok {
				continue
			}
			if len(apps) > 0 || len(puts) > 0 {
				stores++
				c.Ob(within(p, l1, 0), "size", rt.name, p.Pos, "%s can leave more known transactions than the configured memory", rt.name)
			}
			if !c.Ob(len(apps) == len(puts), "together", rt.name, p.Pos, "%d transactions are appended to the list but %d set in the table", len(apps), len(puts)) {
				continue
			}
			for i, a := range apps {
				key, tx := tb.Field(a, l.tRec, l.recKey), tb.Field(a, l.tRec, l.recTx)
				c.Ob(p.St.F.ProveEq(key, puts[i][0]) && tx == puts[i][1], "together", rt.name, p.Pos, "the list gains %s but the table maps %s to %s", a, puts[i][0], puts[i][1])
			}
			if l.ref {
				l.counts(rt, sg, len(apps))
			}
		}
		switch shortFn(rt.fn) {
		case "Decoder.HasDecoded":
			_, h := l.txParts(rt.st0, rt.args[1])
			has := rt.st0.MapHas(l.table(rt.st0, d, l.dRecv), l.key(rt.st0.Peek(l.dloc(d, l.dHasher)), h))
			for _, p := range rt.ps {
				if !c.Ob(p.Kind == "return" && len(p.Vals) == 1, "lookup", rt.name, p.Pos, "HasDecoded can end without an answer") {
					continue
				}
				a, k1 := p.St.F.Value(p.Vals[0])
				b, k2 := p.St.F.Value(has)
				c.Ob(p.Vals[0] == has || k1 && k2 && a == b, "lookup", rt.name, p.Pos, "HasDecoded answers %s, not whether the table holds the salted hash of the transaction", p.Vals[0])
			}
		case "Decoder.AddCodeword", "Decoder.AddTransaction":
		default:
			for _, sg := range c.Segs(rt.ps) {
				p, from := sg.P, rt.start(sg)
				c.Ob(!complete(sg) || from.Peek(list) == p.St.Peek(list) && l.table(from, d, l.dRecv) == l.table(p.St, d, l.dRecv), "frame", rt.name, p.Pos, "%s changes the known transactions", rt.name)
			}
		}
	}
	c.Ob(stores >= 2, "instances", l.rel, token.NoPos, "transactions are stored at %d places only", stores)
	fn := c.Fn(l.rel, "", "NewDecoder")
	if fn == nil {
		return
	}
	r := l.runFn(fn, nil)
	for _, p := range r.ps {
		if !c.Ob(p.Kind == "return" && len(p.Vals) == 1, "new", r.name, p.Pos, "no decoder") {
			continue
		}
		d := p.Vals[0]
		rv, pd := p.St.Peek(l.dloc(d, l.dRecv)), p.St.Peek(l.dloc(d, l.dPend))
		c.Ob(rv.Op == "alloc" && pd.Op == "alloc" && rv != pd && p.St.MapContent(rv).Op == "mempty" && p.St.MapContent(pd).Op == "mempty", "new", r.name, p.Pos, "a new decoder does not start with two empty tables of its own")
		c.Ob(p.St.F.Entails(tb.Le(tb.Len(p.St.Peek(l.dloc(d, l.dRecent))), tb.Int(0))), "new", r.name, p.Pos, "a new decoder's list of known transactions is not empty")
		isP := false
		m := p.St.Peek(l.dloc(d, l.dMem))
		for i, prm := range fn.Params {
			if isBasic(types.Int)(prm.Type()) && m == r.args[i] {
				isP = true
			}
		}
		c.Ob(isP, "new", r.name, p.Pos, "a new decoder's memory is %s, not the one given", m)
	}
}

// adds: an iteration of the loop appends to the list.
func (l *ltp) adds(rt *ltRoot, lp *Loop, list *Term) bool {
	var v0 *absint.LVInfo
	for _, v := range lp.Vars {
		if v.Loc == list {
			v0 = v
		}
	}
	if v0 == nil {
		// only the table changes in it
		return false
	}
	for _, b := range lp.Backs {
		ss, ok := walk(b, rt.idx, lp.Back(b, v0), v0.LV)
		if !ok {
			return true
		}
		for _, s := range ss {
			if s.kind == "append" || s.kind == "loop" && l.adds(rt, s.l, list) {
				return true
			}
		}
	}
	return false
}

// counts: the number of transactions ever stored grows with each of them.
func (l *ltp) counts(rt *ltRoot, sg Seg, n int) {
	i := field(l.tDec, "numTransactionsDecoded", nil)
	if i < 0 {
		return
	}
	tb := l.x.TB
	loc := l.dloc(rt.args[0], i)
	v0, v1 := rt.start(sg).Peek(loc), sg.P.St.Peek(loc)
	for k := 0; k < 6; k++ { // back through the loops of the piece
		moved := false
		for _, v := range tb.LinOf(v1).Vars {
			for _, x := range rt.idx[v] {
				if v != v0 && onPath(sg.P, x.l) {
					v1 = tb.Add(tb.Sub(v1, v), x.v.Entry)
					moved = true
					break
				}
			}
			if moved {
				break
			}
		}
		if !moved {
			break
		}
	}
	l.c.Ob(tb.Sub(v1, v0) == tb.Int(int64(n)), "count", rt.name, sg.P.Pos, "the number of transactions received changes by %s where %d are stored", tb.Sub(v1, v0), n)
}

// ---------------------------------------------------------------- C16

func ruleC16(l *ltp) {
	c := l.c
	kinds := map[string]int{}
	for _, fn := range c.exportedRoots(l.rel) {
		rt := l.runFn(fn, nil)
		name := rt.name
		short := shortFn(fn)
		if short == "NewEncoder" || short == "NewDecoder" {
			l.saltedHasher(rt)
			continue
		}
		// the hasher of the object operated on
		var own *Term
		if rc := fn.Signature.Recv(); rc != nil {
			switch {
			case isNamed("Encoder")(rc.Type()):
				own = rt.st0.Peek(l.fa(rt.args[0], l.tEnc, l.eHasher))
			case isNamed("Decoder")(rc.Type()):
				own = rt.st0.Peek(l.dloc(rt.args[0], l.dHasher))
			}
		}
		for _, sg := range c.Segs(rt.ps) {
			p := sg.P
			for _, e := range p.Events {
				if e.Kind == "call" && strings.HasPrefix(e.Callee, "(hash.Hash64).Sum") {
					kinds["sum"]++
					l.keyed(name, own, e)
				}
				if e.Kind == "mapset" || e.Kind == "mapdel" {
					kinds["key"]++
					c.Ob(l.isKey(e.Args[1], own), "key", name, e.Pos, "%s is used as a salted hash, which it is not", e.Args[1])
				}
				if e.Kind == "store" {
					a := e.Args[0]
					if a.Op == "faddr" && l.isKeyField(a.Aux) {
						kinds["field"]++
						c.Ob(e.Args[1] == l.x.TB.Int(0) || l.isKey(e.Args[1], own), "field", name, e.Pos, "%s is stored as a salted hash, which it is not", e.Args[1])
					}
				}
			}
			for t := range p.St.F.AtomList() {
				for _, k := range mapKeysIn(t) {
					kinds["lookup"]++
					c.Ob(l.isKey(k, own), "lookup", name, p.Pos, "a table is looked up with %s, which is not a salted hash", k)
				}
			}
			// complete values appended carry their salted hash in the field
			for _, e := range p.Events {
				for _, a := range e.Args {
					l.aggKeys(name, own, a, e.Pos, kinds)
				}
			}
			if own != nil && complete(sg) {
				i, t, b := l.eHasher, l.tEnc, rt.args[0]
				if isNamed("Decoder")(fn.Signature.Recv().Type()) {
					i, t = l.dHasher, l.tDec
				}
				c.Ob(p.St.Peek(l.fa(b, t, i)) == own, "same-hasher", name, p.Pos, "%s replaces the keyed hasher", name)
			}
		}
	}
	for _, k := range []string{"sum", "key", "lookup"} {
		c.Ob(kinds[k] > 0, "instances", l.rel+" "+k, token.NoPos, "no %s of a salted hash was found", k)
	}
}

// keyed: one sum of the object's own hasher over a transaction hash.
func (l *ltp) keyed(name string, own *Term, e *Event) {
	ok := e.Res != nil && e.Res.Op == "hsum" && own != nil && e.Res.Args[0] == own && l.hashState(e.Res.Args[1])
	l.c.Ob(ok, "sum", name, e.Pos, "the keyed sum %s is not the own hasher's, reset and fed with the complete hash of a transaction", e.Res)
}

func (l *ltp) hashState(s *Term) bool {
	return s.Op == "hwrite" && len(s.Args) == 2 && s.Args[0].Op == "hempty" && l.isTxHash(s.Args[1])
}

// isTxHash: the complete hash of a transaction.
func (l *ltp) isTxHash(h *Term) bool {
	ss, _ := structOf(l.tTx)
	key := absint.FieldKey(ss.Field(l.txHash))
	switch h.Op {
	case "field":
		return h.Aux == key
	case "load":
		return h.Args[0].Op == "faddr" && h.Args[0].Aux == key
	}
	return h.Op == l.x.TB.Hash(l.x.TB.Int(0)).Op
}

func (l *ltp) isKeyField(aux string) bool {
	for _, f := range []struct {
		t types.Type
		i int
	}{{l.tST, l.stKey}, {l.tRec, l.recKey}, {l.tPT, l.ptKey}} {
		ss, _ := structOf(f.t)
		if aux == absint.FieldKey(ss.Field(f.i)) {
			return true
		}
	}
	return false
}

// isKey: a value that is a salted hash.
func (l *ltp) isKey(k, own *Term) bool {
	switch k.Op {
	case "conv":
		h := k.Args[0]
		return k.Aux == absint.TypeKey(types.Typ[types.Uint32]) && h.Op == "hsum" && own != nil && h.Args[0] == own && l.hashState(h.Args[1])
	case "field":
		return l.isKeyField(k.Aux)
	case "load":
		a := k.Args[0]
		if a.Op == "faddr" {
			return l.isKeyField(a.Aux)
		}
		if a.Op == "iaddr" {
			// an element of a codeword's members
			ss, _ := structOf(l.tCW)
			b := a.Args[0]
			if b.Op == "load" {
				b = b.Args[0]
			}
			return (b.Op == "field" || b.Op == "faddr") && b.Aux == absint.FieldKey(ss.Field(l.cwMem))
		}
	}
	return strings.HasPrefix(k.Op, "range") || strings.HasPrefix(k.Op, "mkey") || k.Op == "sym" && strings.HasPrefix(k.Aux, "key")
}

func mapKeysIn(t *Term) []*Term {
	var out []*Term
	var w func(t *Term, d int)
	w = func(t *Term, d int) {
		if t == nil || d > 12 {
			return
		}
		if t.Op == "mget" || t.Op == "mhas" {
			out = append(out, t.Args[1])
		}
		for _, a := range t.Args {
			w(a, d+1)
		}
		if t.Lin != nil {
			for _, v := range t.Lin.Vars {
				w(v, d+1)
			}
		}
	}
	w(t, 0)
	return out
}

// aggKeys: salted hashes inside aggregate values.
func (l *ltp) aggKeys(name string, own, t *Term, pos token.Pos, kinds map[string]int) {
	var w func(t *Term, d int)
	w = func(t *Term, d int) {
		if t == nil || d > 6 {
			return
		}
		if t.Op == "agg" && t.Typ != nil {
			for _, f := range []struct {
				t types.Type
				i int
			}{{l.tST, l.stKey}, {l.tRec, l.recKey}, {l.tPT, l.ptKey}} {
				if absint.TypeKey(t.Typ) == absint.TypeKey(f.t) {
					kinds["agg"]++
					k := l.x.TB.Field(t, f.t, f.i)
					l.c.Ob(k == l.x.TB.Int(0) || l.isKey(k, own), "field", name, pos, "%s is kept as a salted hash, which it is not", k)
				}
			}
		}
		for _, a := range t.Args {
			w(a, d+1)
		}
	}
	w(t, 0)
}

// saltedHasher: the constructor keys its hasher with the complete salt given.
func (l *ltp) saltedHasher(rt *ltRoot) {
	c := l.c
	for _, p := range rt.ps {
		if !c.Ob(p.Kind == "return" && len(p.Vals) == 1, "constructor", rt.name, p.Pos, "the constructor returns nothing") {
			continue
		}
		t, i := l.tEnc, l.eHasher
		if rt.fn.Name() == "NewDecoder" {
			t, i = l.tDec, l.dHasher
		}
		h := p.St.Peek(l.fa(p.Vals[0], t, i))
		ok := false
		for _, e := range evs(p, "call", "siphash.New") {
			if e.Res != h {
				continue
			}
			k := e.Args[0]
			if k.Op == "slicearr" && k.Args[1] == l.x.TB.Int(0) && k.Args[2] == l.x.TB.Int(16) {
				var v *Term // the salt as it was when the hasher was made
				for _, w := range p.Events {
					if w == e {
						break
					}
					if w.Kind == "store" && w.Args[0] == k.Args[0] {
						v = w.Args[1]
					} else if w.Kind == "store" && absint.Contains(w.Args[0], k.Args[0]) {
						v = nil
					}
				}
				for j, prm := range rt.fn.Params {
					if _, isArr := prm.Type().Underlying().(*types.Array); isArr && v == rt.args[j] {
						ok = true
					}
				}
			}
		}
		c.Ob(ok, "constructor", rt.name, p.Pos, "the hasher is %s, not one keyed with the complete salt given", h)
	}
}
