package rules

import (
	"go/token"

	"rsrcheck/internal/absint"
)

// ---------------------------------------------------------------- C08, windowed codecs

// sums: whether values are sums of codewords (or empty, or copies), which XOR
// may overwrite.
type sums struct {
	*ltp
	idx  map[*Term][]lvRec
	busy map[*Term]bool
}

func (s *sums) symKey(aux string) bool {
	return aux == absint.FieldKey(mustStruct(s.tPC).Field(s.pcSym)) || aux == absint.FieldKey(mustStruct(s.tCW).Field(s.cwSym))
}

func (s *sums) is(t *Term) bool {
	switch t.Op {
	case "zero", "dup", "xorT":
		return true
	case "field":
		return s.symKey(t.Aux)
	}
	if loc := locOfValue(t); loc != nil && loc.Op == "faddr" && s.symKey(loc.Aux) {
		return true
	}
	recs := s.idx[t]
	if len(recs) == 0 || s.busy[t] {
		return len(recs) > 0
	}
	s.busy[t] = true
	defer delete(s.busy, t)
	for _, r := range recs {
		if !s.is(r.v.Entry) {
			return false
		}
		for _, b := range r.l.Backs {
			if !s.is(r.l.Back(b, r.v)) {
				return false
			}
		}
	}
	return true
}

// bare: the value is the very object a codeword holds as its sum, not a copy.
func (s *sums) bare(t *Term) bool {
	return t.Op != "dup" && t.Op != "zero" && s.is(t)
}

func ruleAlias(l *ltp) {
	c := l.c
	n := map[string]int{}
	for _, fn := range c.exportedRoots(l.rel) {
		if l.ref && fn.Signature.Recv() != nil {
			if r := shortFn(fn); r == "TransactionData.XOR" || r == "Transaction.UnmarshalBinary" {
				continue
			}
		}
		rt := l.runFn(fn, nil)
		s := &sums{ltp: l, idx: rt.idx, busy: map[*Term]bool{}}
		if fn.Name() == "NewTransaction" && !l.ref {
			for _, p := range rt.ps {
				if !c.Ob(p.Kind == "return" && len(p.Vals) == 1, "new", rt.name, p.Pos, "creating a transaction can end without one") {
					continue
				}
				n["new"]++
				d, h := l.txParts(p.St, p.Vals[0])
				c.Ob(d == l.x.TB.Dup(rt.args[0]), "new", rt.name, p.Pos, "a new transaction holds %s, not a copy of the data it is given", d)
				c.Ob(h == l.x.TB.Hash(rt.args[0]), "new", rt.name+" hash", p.Pos, "a new transaction's hash is %s, not that of its data", h)
			}
			continue
		}
		for _, sg := range c.Segs(rt.ps) {
			for _, e := range sg.P.Events {
				switch e.Kind {
				case "xor":
					n["xor"]++
					if l.ref {
						a := e.Args[2]
						c.Ob(a.Op == "faddr" && s.symKey(a.Aux) || a.Op == "alloc", "receiver", rt.name, e.Pos, "%s lets XOR overwrite %s, which is not the sum of a codeword", rt.name, a)
						continue
					}
					c.Ob(s.is(e.Args[0]), "receiver", rt.name, e.Pos, "%s lets XOR overwrite %s, which is not the sum of a codeword", rt.name, e.Args[0])
				case "store":
					if l.ref {
						continue
					}
					if e.Args[0].Op == "faddr" && s.symKey(e.Args[0].Aux) {
						n["store"]++
						c.Ob(s.is(e.Args[1]), "sum", rt.name, e.Pos, "%s makes %s itself the sum of a codeword; later XORs would overwrite it", rt.name, e.Args[1])
					}
				}
				// transactions never hold a sum itself
				if l.ref {
					continue
				}
				for _, a := range append(append([]*Term{}, e.Args...), e.Res) {
					l.noBare(s, rt, a, e.Pos, n)
				}
			}
			for _, v := range sg.P.Vals {
				l.noBare(s, rt, v, sg.P.Pos, n)
			}
		}
	}
	want := []string{"xor", "new", "store", "recovered"}
	if l.ref {
		want = want[:1]
	}
	for _, k := range want {
		c.Ob(n[k] > 0, "instances", l.rel+" "+k, token.NoPos, "no case of kind %s found in package %s", k, l.rel)
	}
}

func (l *ltp) noBare(s *sums, rt *ltRoot, t *Term, pos token.Pos, n map[string]int) {
	if t == nil {
		return
	}
	for _, x := range subterms(t) {
		if x.Op != "agg" || x.Typ == nil || absint.TypeKey(x.Typ) != absint.TypeKey(l.tTx) {
			continue
		}
		d, _ := l.txParts(nil, x)
		if d.Op == "dup" {
			n["recovered"]++
		}
		l.c.Ob(!s.bare(d), "reported", rt.name, pos, "%s makes a transaction of %s itself instead of a copy; later peeling would overwrite it", rt.name, d)
	}
}
