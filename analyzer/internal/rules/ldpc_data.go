package rules

import (
	"go/types"
	"strings"

	"rsrcheck/internal/absint"
)

// ---------------------------------------------------------------- C18

// chunk resolves an address inside a byte array: the array, the byte offset and the width accessed.
func (l *ltp) chunk(a *Term) (base, off *Term, w int64, ok bool) {
	tb := l.x.TB
	elemW := func(t types.Type) int64 {
		if t == nil {
			return 0
		}
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8, types.Int8:
				return 1
			case types.Uint16, types.Int16:
				return 2
			case types.Uint32, types.Int32:
				return 4
			case types.Uint64, types.Int64:
				return 8
			}
		}
		return 0
	}
	switch a.Op {
	case "iaddr":
		w = elemW(pointee(a))
		if w == 0 {
			return nil, nil, 0, false
		}
		b, o, _, ok := l.chunk(a.Args[0])
		if !ok {
			return nil, nil, 0, false
		}
		i := a.Args[1]
		if w > 1 {
			i = tb.Mul(tb.Int(w), i)
		}
		return b, tb.Add(o, i), w, true
	case "conv":
		in := a
		for in.Op == "conv" {
			in = in.Args[0]
		}
		b, o, _, ok := l.chunk(in)
		return b, o, elemW(pointee(a)), ok
	}
	return a, tb.Int(0), 0, true
}

// tiles: over the rounds of lp, off runs through 0, w, 2w, ... up to n.
func (l *ltp) tiles(lp *Loop, b *Path, exits []*Path, off *Term, w int64, n *Term) bool {
	tb := l.x.TB
	lin := tb.LinOf(off)
	var lv *absint.LVInfo
	var coef *Term
	for i, v := range lin.Vars {
		if r := lp.Var(v); r != nil {
			if lv != nil {
				return false
			}
			lv, coef = r, tb.Num(lin.Coef[i])
		}
	}
	if lv == nil || w <= 0 {
		return false
	}
	at := func(x *Term) *Term { return tb.Add(off, tb.Mul(coef, tb.Sub(x, lv.LV))) }
	// off is a multiple of w; if n is one too, off != n and off < n mean off+w <= n
	mult := false
	if k, ok := numOf(n); ok && k%w == 0 {
		mult = true
	}
	below := func(f *absint.Facts, x, y *Term) bool { // x+w <= y, moving towards y
		return f.Entails(tb.Le(tb.AddK(x, w), y)) || mult && (f.Entails(tb.Lt(x, y)) || f.ProveNe(x, y))
	}
	step, first := tb.Sub(at(lp.Back(b, lv)), off), at(lv.Entry)
	var end func(f *absint.Facts) bool
	switch {
	case step == tb.Int(w) && first == tb.Int(0):
		if !below(b.St.F, off, n) {
			return false
		}
		end = func(f *absint.Facts) bool { return f.Entails(tb.Le(n, off)) }
	case step == tb.Int(-w) && first == tb.AddK(n, -w):
		// downwards: off >= 0 in the round, off < 0 after it
		if !below(b.St.F, tb.Int(-w), off) && !b.St.F.Entails(tb.Le(tb.Int(0), off)) {
			return false
		}
		end = func(f *absint.Facts) bool { return f.Entails(tb.Lt(off, tb.Int(0))) }
	default:
		return false
	}
	seen := false
	for _, p := range exits {
		if p.Kind != "return" && p.Kind != "back" {
			continue
		}
		seen = true
		if !end(p.St.F) {
			return false
		}
	}
	return seen
}

// subterms lists t and everything in it, each once.
func subterms(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var w func(t *Term)
	w = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
	return out
}

// zeroWord: the round found the operand's word at its position to be zero.
func (l *ltp) zeroWord(lp *Loop, b *Path, t2 *Term) bool {
	tb := l.x.TB
	for _, e := range evs(b, "branch", "") {
		for _, v := range subterms(e.Cond) {
			if v.Op != "load" || !b.St.F.ProveEq(v, tb.Int(0)) {
				continue
			}
			base, off, w, ok := l.chunk(v.Args[0])
			if !ok || base != t2 {
				continue
			}
			for _, o := range lp.Backs {
				for _, s := range evs(o, "store", "") {
					if _, o2, w2, ok := l.chunk(s.Args[0]); ok && o2 == off && w2 == w {
						return true
					}
				}
			}
		}
	}
	return false
}

func ruleC18(l *ltp) {
	l.unmarshal()
	l.dataXor()
	l.serialized()
}

func (l *ltp) size() int64 {
	if a, ok := l.ftype(l.tTx, l.txData).Underlying().(*types.Array); ok {
		return a.Len()
	}
	return -1
}

func (l *ltp) plain(f func()) {
	models := l.x.Models
	own := map[string]absint.Model{}
	for n, m := range models {
		if !strings.HasPrefix(n, "(*ldpc.") {
			own[n] = m
		}
	}
	l.x.Models = own
	f()
	l.x.Models = models
}

func (l *ltp) unmarshal() {
	c, tb := l.c, l.x.TB
	var rt *ltRoot
	l.plain(func() { rt = l.run("Transaction", "UnmarshalBinary", nil) })
	if rt == nil || len(rt.args) != 2 {
		return
	}
	t, data := rt.args[0], rt.args[1]
	n := tb.Int(l.size())
	dLoc, hLoc := l.fa(t, l.tTx, l.txData), l.fa(t, l.tTx, l.txHash)
	nOK, nBad := 0, 0
	for _, p := range rt.ps {
		f := p.St.F
		if !c.Ob(p.Kind == "return" && len(p.Vals) == 1, "returns", rt.name, p.Pos, "unmarshalling gives up (panics) on some input") || p.Kind != "return" {
			continue
		}
		err := p.Vals[0]
		fails := err.Op == "iface" || f.ProveNe(err, tb.Nil())
		works := err.Op == "nil" || f.ProveEq(err, tb.Nil())
		switch {
		case f.ProveEq(tb.Len(data), n):
			nOK++
			c.Ob(works, "accept", rt.name, p.Pos, "input of the transaction size is refused")
			d1, h1 := p.St.Peek(dLoc), p.St.Peek(hLoc)
			full := l.isCopy(p, d1, dLoc, data)
			c.Ob(full, "copy", rt.name, p.Pos, "the transaction's bytes become %s, not all bytes of the input", d1)
			c.Ob(l.isDigest(p, h1, d1, dLoc, data), "hash", rt.name, p.Pos, "the transaction's hash becomes %s, not the digest of its bytes", h1)
		case f.ProveNe(tb.Len(data), n):
			nBad++
			c.Ob(fails, "refuse", rt.name, p.Pos, "input of another size is accepted")
			c.Ob(p.St.Peek(dLoc) == rt.st0.Peek(dLoc) && p.St.Peek(hLoc) == rt.st0.Peek(hLoc), "refuse-untouched", rt.name, p.Pos, "input of another size changes the transaction")
			for _, sg := range c.Segs([]*Path{p}) {
				for _, e := range sg.P.Events {
					if e.Kind == "store" && !isAlloc(e.Args[0]) || e.Kind == "copy" {
						c.Fail("refuse-untouched", rt.name, e.Pos, "input of another size changes the transaction")
					}
				}
			}
		default:
			c.Fail("size", rt.name, p.Pos, "whether input is accepted does not depend on its size being that of a transaction")
		}
	}
	c.Ob(nOK > 0, "instances", rt.name+" accept", rt.fn.Pos(), "no input is ever accepted")
	c.Ob(nBad > 0, "instances", rt.name+" refuse", rt.fn.Pos(), "no input is ever refused")
}

// isCopy: v is the whole content of list data.
func (l *ltp) isCopy(p *Path, v, loc, data *Term) bool {
	tb := l.x.TB
	n := tb.Int(l.size())
	if v.Op == "bytesof" && v.Args[0] == data && (len(v.Args) < 2 || p.St.F.ProveEq(v.Args[1], n)) {
		return true
	}
	if v.Op == "load" && v.Args[0].Op == "s2ap" && v.Args[0].Args[0] == data {
		return true
	}
	if v == p.St.Content(data) || v.Op == "load" && v.Args[0] == data {
		return true
	}
	// byte by byte
	for _, ev := range evs(p, "loop", "") {
		good := len(ev.Loop.Backs) > 0
		for _, b := range ev.Loop.Backs {
			st := evs(b, "store", "")
			ok := len(st) == 1
			if ok {
				base, off, w, k := l.chunk(st[0].Args[0])
				src := st[0].Args[1]
				ok = k && base == loc && w == 1 && l.tiles(ev.Loop, b, []*Path{p}, off, w, n) &&
					src.Op == "load" && src.Args[0].Op == "iaddr" && src.Args[0].Args[0] == data && src.Args[0].Args[1] == off
			}
			good = good && ok
		}
		if good {
			return true
		}
	}
	return false
}

// isDigest: h is the digest of the transaction's bytes d or of the input they are copied from.
func (l *ltp) isDigest(p *Path, h, d, dLoc, data *Term) bool {
	src := func(x *Term) bool {
		return x == d || x == p.St.Content(data) || x.Op == "bytesof" && x.Args[0] == data || x.Op == "slicearr" && x.Args[0] == dLoc || x == data
	}
	switch h.Op {
	case "digest":
		s := h.Args[1]
		return s.Op == "hwrite" && s.Args[0].Op == "hempty" && src(s.Args[1])
	case "sum":
		return src(h.Args[0])
	case "bytesof":
		return l.isDigest(p, h.Args[0], d, dLoc, data)
	case "appendsl":
		return h.Args[0].Op == "nil" && l.isDigest(p, h.Args[1], d, dLoc, data)
	}
	return false
}

func (l *ltp) dataXor() {
	c, tb := l.c, l.x.TB
	var rt *ltRoot
	l.plain(func() { rt = l.run("TransactionData", "XOR", nil) })
	if rt == nil || len(rt.args) != 2 {
		return
	}
	t, t2 := rt.args[0], rt.args[1]
	n := tb.Int(l.size())
	inst := 0
	for _, p := range rt.ps {
		if !c.Ob(p.Kind == "return", "returns", rt.name, p.Pos, "XOR gives up (panics) on some data") || p.Kind != "return" {
			continue
		}
		done := 0
		for _, e := range p.Events {
			switch e.Kind {
			case "store":
				c.Ob(isAlloc(e.Args[0]), "xor-only", rt.name, e.Pos, "XOR changes %s outside its pass over the bytes", e.Args[0])
			case "call":
				if strings.HasSuffix(e.Callee, "subtle.XORBytes") {
					ok := len(e.Args) == 3
					both := 0
					for i, a := range e.Args {
						full := a.Op == "slicearr" && a.Args[1] == tb.Int(0) && p.St.F.ProveEq(a.Args[2], n)
						ok = ok && full && (i > 0 || a.Args[0] == t)
						if full && i > 0 && a.Args[0] == t {
							both |= 1
						}
						if full && i > 0 && a.Args[0] == t2 {
							both |= 2
						}
					}
					c.Ob(ok && both == 3, "xor-all", rt.name, e.Pos, "XOR does not combine all bytes of both operands into the receiver")
					done++
				}
			case "loop":
				if len(e.Loop.Backs) == 0 {
					continue
				}
				done++
				lp := e.Loop
				for _, b := range lp.Backs {
					st := evs(b, "store", "")
					var keep []*Event
					for _, s := range st {
						if !isAlloc(s.Args[0]) {
							keep = append(keep, s)
						}
					}
					if len(keep) == 0 && len(evs(b, "loop", "")) == 0 && len(lp.Backs) > 1 {
						// a round may leave the receiver alone where the operand is zero
						c.Ob(l.zeroWord(lp, b, t2), "xor-all", rt.name, b.Pos, "a round of XOR leaves bytes of the receiver out although the operand's are not known to be zero")
						continue
					}
					if !c.Ob(len(keep) == 1 && len(evs(b, "loop", "")) == 0, "xor-all", rt.name, b.Pos, "a round of XOR writes %d places", len(keep)) || len(keep) != 1 {
						continue
					}
					inst++
					base, off, w, ok := l.chunk(keep[0].Args[0])
					if !c.Ob(ok && base == t && w > 0, "xor-all", rt.name, keep[0].Pos, "XOR writes %s, not bytes of its receiver", keep[0].Args[0]) {
						continue
					}
					c.Ob(l.tiles(lp, b, []*Path{p}, off, w, n), "xor-all", rt.name, lp.Pos, "XOR does not go through all %s bytes, each once", n)
					v := keep[0].Args[1]
					good := v.Op == "xor" && len(v.Args) == 2
					if good {
						seen := 0
						for _, x := range v.Args {
							if x.Op != "load" {
								continue
							}
							xb, xo, xw, ok := l.chunk(x.Args[0])
							if ok && xw == w && xo == off {
								switch xb {
								case t:
									seen |= 1
								case t2:
									seen |= 2
								}
							}
						}
						good = seen == 3
					}
					c.Ob(good, "xor-same", rt.name, keep[0].Pos, "XOR writes %s, not the combination of the same bytes of both operands", v)
				}
			}
		}
		c.Ob(done == 1, "xor-all", rt.name+" once", p.Pos, "XOR passes over the bytes %d times", done)
		inst += done
	}
	c.Ob(inst > 0, "instances", rt.name, rt.fn.Pos(), "no pass over the bytes was found")
}

// whole: the value an array copied completely has.
func whole(v, n *Term) *Term {
	for v.Op == "bytesof" && len(v.Args) > 1 && v.Args[1] == n {
		v = v.Args[0]
	}
	return v
}

func (l *ltp) serialized() {
	c, tb := l.c, l.x.TB
	rt := l.run("Transaction", "Serialized", nil)
	if rt == nil {
		return
	}
	loc := l.fa(rt.args[0], l.tTx, l.txData)
	n := tb.Int(l.size())
	for _, p := range rt.ps {
		ok := p.Kind == "return" && len(p.Vals) == 1
		if ok {
			v := p.Vals[0]
			ok = v.Op == "slicearr" && v.Args[0] == loc && v.Args[1] == tb.Int(0) && p.St.F.ProveEq(v.Args[2], n) ||
				whole(p.St.Content(v), n) == p.St.Peek(loc)
		}
		c.Ob(ok, "serialized", rt.name, p.Pos, "Serialized does not give the transaction's bytes, all of them")
	}
}
