package absint

import (
	"go/types"
	"math/big"
	"sort"
)

// factNode is a persistent list of linear facts.
type factNode struct {
	kind string // "le" (L<=0), "lt" (float L<0), "ne" (L!=0)
	l    *Lin
	flt  bool
	prev *factNode
}

// Facts is the branch-condition domain: opaque boolean atoms with known truth
// value plus a set of linear (in)equalities.
type Facts struct {
	tb    *Table
	atoms map[*Term]bool
	lins  *factNode
	bad   bool
}

func newFacts(tb *Table) *Facts { return &Facts{tb: tb, atoms: map[*Term]bool{}} }

func (f *Facts) clone() *Facts {
	m := make(map[*Term]bool, len(f.atoms)+2)
	for k, v := range f.atoms {
		m[k] = v
	}
	return &Facts{tb: f.tb, atoms: m, lins: f.lins, bad: f.bad}
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func nonNegVar(v *Term) bool {
	if v.Op == "len" || v.Op == "cap" {
		return true
	}
	if v.Op == "call" && (v.Aux == "rand.Intn") {
		return true
	}
	return isUnsigned(v.Typ)
}

// proveLe tries to derive L<=0 (strict: L<0) from the facts.
func (f *Facts) proveLe(l *Lin, strict bool, depth int) bool {
	if len(l.Vars) == 0 {
		s := l.K.Sign()
		if strict {
			return s < 0
		}
		return s <= 0
	}
	if depth == 0 {
		return false
	}
	// eliminate the variable with the fewest candidate facts: try each variable of
	// the form in order, but only the first (any derivation eliminates it eventually)
	v, a := l.Vars[0], l.Coef[0]
	for i, w := range l.Vars {
		if w.Op == "quo" && v.Op != "quo" {
			v, a = w, l.Coef[i]
		}
	}
	// implicit: -v <= 0 for non-negative v
	if a.Sign() < 0 && nonNegVar(v) {
		r := AddScaled(l, &Lin{Vars: []*Term{v}, Coef: []*big.Rat{one}, K: new(big.Rat)}, new(big.Rat).Neg(a))
		if f.proveLe(r, strict, depth-1) {
			return true
		}
	}
	// rem(x, n) < n, rem >= 0 for unsigned handled by type
	if a.Sign() > 0 && v.Op == "rem" {
		r := AddScaled(l, AddScaled(&Lin{Vars: []*Term{v}, Coef: []*big.Rat{one}, K: big.NewRat(1, 1)}, f.tb.LinOf(v.Args[1]), minusOne), new(big.Rat).Neg(a))
		if f.proveLe(r, strict, depth-1) {
			return true
		}
	}
	// q = x/k for x >= 0 and a constant k >= 1: x-k+1 <= kq <= x and q >= 0
	if v.Op == "quo" && isInt(v.Typ) && v.Args[1].Op == "num" && v.Args[1].Num.Sign() > 0 {
		k, x := v.Args[1].Num, f.tb.LinOf(v.Args[0])
		if isUnsigned(v.Typ) || f.proveLe(AddScaled(&Lin{K: new(big.Rat)}, x, minusOne), false, depth-1) {
			self := AddScaled(l, &Lin{Vars: []*Term{v}, Coef: []*big.Rat{one}, K: new(big.Rat)}, new(big.Rat).Neg(a))
			b := new(big.Rat).Quo(a, k)
			if a.Sign() > 0 {
				if f.proveLe(AddScaled(self, x, b), strict, depth-1) {
					return true
				}
			} else {
				lo := AddScaled(x, &Lin{K: new(big.Rat).Sub(one, k)}, one)
				if f.proveLe(AddScaled(self, lo, b), strict, depth-1) || f.proveLe(self, strict, depth-1) {
					return true
				}
			}
		}
	}
	for n := f.lins; n != nil; n = n.prev {
		if n.kind == "ne" {
			continue
		}
		for i, w := range n.l.Vars {
			if w != v {
				continue
			}
			b := n.l.Coef[i]
			if b.Sign() != a.Sign() {
				break
			}
			c := new(big.Rat).Quo(a, b)
			r := AddScaled(l, n.l, new(big.Rat).Neg(c))
			st := strict
			if n.kind == "lt" {
				st = false
			}
			if f.proveLe(r, st, depth-1) {
				return true
			}
			break
		}
	}
	return false
}

const proofDepth = 5

// Entails reports whether the boolean term c is known to hold.
func (f *Facts) Entails(c *Term) bool {
	switch c.Op {
	case "true":
		return true
	case "false":
		return f.bad
	case "not":
		switch c.Args[0].Op {
		case "eq0":
			return f.proveNe(f.tb.LinOf(c.Args[0].Args[0]))
		}
		v, ok := f.lookup(c.Args[0])
		return ok && !v
	case "le0":
		return f.proveLe(f.tb.LinOf(c.Args[0]), false, proofDepth)
	case "fle0":
		return f.proveLe(f.tb.LinOf(c.Args[0]), false, proofDepth)
	case "flt0":
		return f.proveLe(f.tb.LinOf(c.Args[0]), true, proofDepth)
	case "eq0":
		l := f.tb.LinOf(c.Args[0])
		return f.proveLe(l, false, proofDepth) && f.proveLe(AddScaled(&Lin{K: new(big.Rat)}, l, minusOne), false, proofDepth)
	}
	v, ok := f.lookup(c)
	return ok && v
}

func (f *Facts) proveNe(l *Lin) bool {
	if len(l.Vars) == 0 {
		return l.K.Sign() != 0
	}
	neg := AddScaled(&Lin{K: new(big.Rat)}, l, minusOne)
	for n := f.lins; n != nil; n = n.prev {
		if n.kind == "ne" && (sameLin(n.l, l) || sameLin(n.l, neg)) {
			return true
		}
	}
	return f.proveLe(l, true, proofDepth) || f.proveLe(neg, true, proofDepth) ||
		f.proveLe(AddScaled(&Lin{K: big.NewRat(1, 1)}, l, one), false, proofDepth) ||
		f.proveLe(AddScaled(&Lin{K: big.NewRat(1, 1)}, neg, one), false, proofDepth)
}

func sameLin(a, b *Lin) bool {
	// up to a positive factor: both are compared with zero only
	if len(a.Vars) != len(b.Vars) || len(a.Vars) == 0 || a.Vars[0] != b.Vars[0] {
		return len(a.Vars) == 0 && len(b.Vars) == 0 && a.K.Cmp(b.K) == 0
	}
	k := new(big.Rat).Quo(a.Coef[0], b.Coef[0])
	if k.Sign() <= 0 || a.K.Cmp(new(big.Rat).Mul(b.K, k)) != 0 {
		return false
	}
	for i := range a.Vars {
		if a.Vars[i] != b.Vars[i] || a.Coef[i].Cmp(new(big.Rat).Mul(b.Coef[i], k)) != 0 {
			return false
		}
	}
	return true
}

func (f *Facts) lookup(c *Term) (bool, bool) {
	if v, ok := f.atoms[c]; ok {
		return v, true
	}
	if c.Op == "typeis" {
		// a value has at most one concrete dynamic type
		for a, v := range f.atoms {
			if v && a.Op == "typeis" && a.Args[0] == c.Args[0] && a.Aux != c.Aux && concreteKey(a) && concreteKey(c) {
				return false, true
			}
		}
	}
	return false, false
}

func concreteKey(t *Term) bool { return t.Typ != nil && !types.IsInterface(t.Typ) }

// Value evaluates a boolean term: known reports whether it is decided.
func (f *Facts) Value(c *Term) (val, known bool) {
	if c.Op == "true" {
		return true, true
	}
	if c.Op == "false" {
		return false, true
	}
	if f.Entails(c) {
		return true, true
	}
	if f.Entails(f.tb.Not(c)) {
		return false, true
	}
	return false, false
}

// Assume records that c holds; it returns false when this contradicts known facts.
func (f *Facts) Assume(c *Term) bool {
	if v, k := f.Value(c); k {
		if !v {
			f.bad = true
		}
		return v
	}
	add := func(kind string, l *Lin) { f.lins = &factNode{kind: kind, l: l, prev: f.lins} }
	switch c.Op {
	case "le0":
		l := f.tb.LinOf(c.Args[0])
		add("le", l)
		f.sharpen(l)
	case "fle0":
		add("le", f.tb.LinOf(c.Args[0]))
	case "flt0":
		add("lt", f.tb.LinOf(c.Args[0]))
	case "eq0":
		l := f.tb.LinOf(c.Args[0])
		add("le", l)
		add("le", AddScaled(&Lin{K: new(big.Rat)}, l, minusOne))
	case "not":
		if c.Args[0].Op == "eq0" {
			l := f.tb.LinOf(c.Args[0].Args[0])
			add("ne", l)
			f.sharpenNe(l)
			return true
		}
		f.atoms[c.Args[0]] = false
		if s := emptyText(c.Args[0]); s != nil {
			l := f.tb.LinOf(f.tb.Len(s))
			add("le", AddScaled(&Lin{K: big.NewRat(1, 1)}, l, minusOne))
		}
	default:
		f.atoms[c] = true
		if s := emptyText(c); s != nil {
			add("le", f.tb.LinOf(f.tb.Len(s)))
		}
	}
	return true
}

// sharpen combines a new L<=0 with a known L!=0 into L+1<=0 (integers).
func (f *Facts) sharpen(l *Lin) {
	neg := AddScaled(&Lin{K: new(big.Rat)}, l, minusOne)
	for n := f.lins; n != nil; n = n.prev {
		if n.kind == "ne" && (sameLin(n.l, l) || sameLin(n.l, neg)) {
			f.lins = &factNode{kind: "le", l: AddScaled(&Lin{K: big.NewRat(1, 1)}, l, one), prev: f.lins}
			return
		}
	}
}

func (f *Facts) sharpenNe(l *Lin) {
	neg := AddScaled(&Lin{K: new(big.Rat)}, l, minusOne)
	if f.proveLe(l, false, proofDepth) {
		f.lins = &factNode{kind: "le", l: AddScaled(&Lin{K: big.NewRat(1, 1)}, l, one), prev: f.lins}
	} else if f.proveLe(neg, false, proofDepth) {
		f.lins = &factNode{kind: "le", l: AddScaled(&Lin{K: big.NewRat(1, 1)}, neg, one), prev: f.lins}
	}
}

// ProveEq reports whether two terms are known equal.
func (f *Facts) ProveEq(a, b *Term) bool {
	if a == b {
		return true
	}
	if f.Entails(f.tb.Eq(a, b, false)) {
		return true
	}
	return numericish(a) && numericish(b) && f.Entails(f.tb.Eq(a, b, true))
}

func numericish(t *Term) bool {
	switch t.Op {
	case "num", "lin", "len", "mul", "quo", "rem":
		return true
	}
	if t.Typ == nil {
		return false
	}
	if _, ok := t.Typ.(*types.TypeParam); ok {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// ProveNe reports whether two terms are known different.
func (f *Facts) ProveNe(a, b *Term) bool {
	if a == b {
		return false
	}
	if numericish(a) && numericish(b) {
		return f.Entails(f.tb.Not(f.tb.Eq(a, b, true)))
	}
	return f.Entails(f.tb.Not(f.tb.Eq(a, b, false)))
}

// AtomList returns the known atoms for reports.
func (f *Facts) AtomList() map[*Term]bool { return f.atoms }

// Range returns the bounds known for a single term by comparison with constants.
func (f *Facts) Range(v *Term) (lo, hi *big.Rat) {
	for n := f.lins; n != nil; n = n.prev {
		if n.kind == "ne" || len(n.l.Vars) != 1 || n.l.Vars[0] != v {
			continue
		}
		b := new(big.Rat).Quo(new(big.Rat).Neg(n.l.K), n.l.Coef[0])
		if n.l.Coef[0].Sign() > 0 {
			if hi == nil || b.Cmp(hi) < 0 {
				hi = b
			}
		} else if lo == nil || b.Cmp(lo) > 0 {
			lo = b
		}
	}
	return
}

// Terms lists what the facts talk about, in a fixed order.
func (f *Facts) Terms() []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var w func(t *Term)
	w = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
		for _, a := range t.Args {
			w(a)
		}
	}
	for a := range f.atoms {
		w(a)
	}
	for n := f.lins; n != nil; n = n.prev {
		for _, v := range n.l.Vars {
			w(v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}
