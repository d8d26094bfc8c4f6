// Package absint is a path-partitioned abstract interpreter over go/ssa.
//
// Abstract values are hash-consed canonical terms (a global value numbering
// domain with linear, XOR-set, sequence and map normal forms); loops are
// summarised by a fixpoint over the set of locations they may change. Nothing
// is executed and no solver is consulted: branch feasibility is decided by a
// syntactic linear-inequality domain (facts.go).
package absint

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Term is an immutable abstract value; equal terms are pointer-equal.
type Term struct {
	ID   int
	Op   string
	Aux  string
	Args []*Term
	Lin  *Lin       // Op "lin"
	Num  *big.Rat   // Op "num"
	Typ  types.Type // informational
	Obj  any        // informational (field var, function, ...)
	atms []*Term    // cached base atoms
}

// Lin is sum(Coef[i]*Var[i]) + K with Vars sorted by ID.
type Lin struct {
	Vars []*Term
	Coef []*big.Rat
	K    *big.Rat
}

type Table struct {
	m map[string]*Term
	n int
}

func NewTable() *Table { return &Table{m: map[string]*Term{}} }

func (tb *Table) mk(op, aux string, args []*Term, init func(*Term)) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.ID)
	}
	k := b.String()
	if t, ok := tb.m[k]; ok {
		return t
	}
	tb.n++
	t := &Term{ID: tb.n, Op: op, Aux: aux, Args: args}
	if init != nil {
		init(t)
	}
	tb.m[k] = t
	return t
}

func (tb *Table) Mk(op, aux string, args ...*Term) *Term { return tb.mk(op, aux, args, nil) }

func (tb *Table) MkT(typ types.Type, op, aux string, args ...*Term) *Term {
	return tb.mk(op, aux, args, func(t *Term) { t.Typ = typ })
}

func (tb *Table) Num(r *big.Rat) *Term {
	return tb.mk("num", r.RatString(), nil, func(t *Term) { t.Num = r })
}
func (tb *Table) Int(i int64) *Term { return tb.Num(new(big.Rat).SetInt64(i)) }
func (tb *Table) Bool(b bool) *Term {
	if b {
		return tb.Mk("true", "")
	}
	return tb.Mk("false", "")
}
func (tb *Table) Nil() *Term { return tb.Mk("nil", "") }
func (tb *Table) Any() *Term { return tb.Mk("any", "") }

func (tb *Table) Const(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return tb.Zero(typ)
	}
	switch v.Kind() {
	case constant.Bool:
		return tb.Bool(constant.BoolVal(v))
	case constant.Int, constant.Float:
		r := new(big.Rat)
		if _, ok := r.SetString(v.ExactString()); ok {
			return tb.Num(r)
		}
	case constant.String:
		return tb.MkT(typ, "str", constant.StringVal(v))
	}
	return tb.MkT(typ, "const", v.ExactString())
}

// Zero is the zero value of a type, normalised for basic types.
func (tb *Table) Zero(typ types.Type) *Term {
	if _, ok := typ.(*types.TypeParam); ok {
		return tb.MkT(typ, "zero", "T")
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsNumeric != 0:
			return tb.Int(0)
		case u.Info()&types.IsBoolean != 0:
			return tb.Bool(false)
		case u.Info()&types.IsString != 0:
			return tb.MkT(typ, "str", "")
		}
		return tb.Nil()
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return tb.Nil()
	case *types.Interface:
		if types.IsInterface(typ) {
			return tb.Nil()
		}
	case *types.Struct:
		if Decomposable(typ) {
			args := make([]*Term, u.NumFields())
			for i := range args {
				args[i] = tb.Zero(u.Field(i).Type())
			}
			return tb.Agg(typ, args)
		}
	}
	return tb.MkT(typ, "zero", TypeKey(typ))
}

func (tb *Table) Agg(typ types.Type, args []*Term) *Term {
	// fold {Field(x,0),...,Field(x,n-1)} back to x
	if len(args) > 0 && args[0].Op == "field" {
		x := args[0].Args[0]
		same := true
		st := typ.Underlying().(*types.Struct)
		for i, a := range args {
			if a.Op != "field" || a.Args[0] != x || a.Aux != FieldKey(st.Field(i)) {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	return tb.mk("agg", TypeKey(typ), args, func(t *Term) { t.Typ = typ })
}

// Field selects a field of a struct value.
func (tb *Table) Field(x *Term, st types.Type, i int) *Term {
	s := st.Underlying().(*types.Struct)
	if x.Op == "agg" && len(x.Args) == s.NumFields() {
		return x.Args[i]
	}
	if x.Op == "zero" {
		return tb.Zero(s.Field(i).Type())
	}
	return tb.mk("field", FieldKey(s.Field(i)), []*Term{x}, func(t *Term) { t.Typ = s.Field(i).Type(); t.Obj = s.Field(i) })
}

// TypeKey names a type, ignoring type arguments (types of the module are
// instantiated with one symbol type per program part).
func TypeKey(t types.Type) string {
	switch t := t.(type) {
	case *types.Alias:
		return TypeKey(types.Unalias(t))
	case *types.TypeParam:
		return "T"
	case *types.Named:
		n := t.Obj().Name()
		if p := t.Obj().Pkg(); p != nil {
			return p.Name() + "." + n
		}
		return n
	case *types.Pointer:
		return "*" + TypeKey(t.Elem())
	case *types.Slice:
		return "[]" + TypeKey(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), TypeKey(t.Elem()))
	case *types.Map:
		return "map[" + TypeKey(t.Key()) + "]" + TypeKey(t.Elem())
	case *types.Chan:
		return "chan " + TypeKey(t.Elem())
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// FieldKey identifies a struct field across instantiations.
func FieldKey(v *types.Var) string {
	v = v.Origin()
	return fmt.Sprintf("%s@%d", v.Name(), v.Pos())
}

// MainModule decides whether a package belongs to the analysed module.
var MainModule = func(p *types.Package) bool { return false }

// Decomposable reports whether values of struct type t are modelled field by field.
func Decomposable(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	t = types.Unalias(t)
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg() != nil && MainModule(n.Obj().Pkg())
	}
	return true
}

// ---- linear forms

func (tb *Table) LinOf(t *Term) *Lin {
	switch t.Op {
	case "num":
		return &Lin{K: t.Num}
	case "lin":
		return t.Lin
	}
	return &Lin{Vars: []*Term{t}, Coef: []*big.Rat{big.NewRat(1, 1)}, K: new(big.Rat)}
}

func (tb *Table) FromLin(l *Lin) *Term {
	if len(l.Vars) == 0 {
		return tb.Num(l.K)
	}
	if len(l.Vars) == 1 && l.K.Sign() == 0 && l.Coef[0].Cmp(big.NewRat(1, 1)) == 0 {
		return l.Vars[0]
	}
	var b strings.Builder
	for i := range l.Vars {
		fmt.Fprintf(&b, "%s*%d,", l.Coef[i].RatString(), l.Vars[i].ID)
	}
	b.WriteString(l.K.RatString())
	return tb.mk("lin", b.String(), nil, func(t *Term) {
		t.Lin = l
		t.Typ = l.Vars[0].Typ
		t.Args = l.Vars
	})
}

// AddScaled is a + c*b.
func AddScaled(a, b *Lin, c *big.Rat) *Lin {
	r := &Lin{K: new(big.Rat).Add(a.K, new(big.Rat).Mul(c, b.K))}
	i, j := 0, 0
	for i < len(a.Vars) || j < len(b.Vars) {
		switch {
		case j >= len(b.Vars) || (i < len(a.Vars) && a.Vars[i].ID < b.Vars[j].ID):
			r.Vars = append(r.Vars, a.Vars[i])
			r.Coef = append(r.Coef, a.Coef[i])
			i++
		case i >= len(a.Vars) || b.Vars[j].ID < a.Vars[i].ID:
			k := new(big.Rat).Mul(c, b.Coef[j])
			if k.Sign() != 0 {
				r.Vars = append(r.Vars, b.Vars[j])
				r.Coef = append(r.Coef, k)
			}
			j++
		default:
			k := new(big.Rat).Add(a.Coef[i], new(big.Rat).Mul(c, b.Coef[j]))
			if k.Sign() != 0 {
				r.Vars = append(r.Vars, a.Vars[i])
				r.Coef = append(r.Coef, k)
			}
			i++
			j++
		}
	}
	return r
}

var one = big.NewRat(1, 1)
var minusOne = big.NewRat(-1, 1)

func (tb *Table) Add(a, b *Term) *Term {
	return tb.FromLin(AddScaled(tb.LinOf(a), tb.LinOf(b), one))
}
func (tb *Table) Sub(a, b *Term) *Term {
	return tb.FromLin(AddScaled(tb.LinOf(a), tb.LinOf(b), minusOne))
}
func (tb *Table) AddK(a *Term, k int64) *Term { return tb.Add(a, tb.Int(k)) }
func (tb *Table) Scale(a *Term, c *big.Rat) *Term {
	return tb.FromLin(AddScaled(&Lin{K: new(big.Rat)}, tb.LinOf(a), c))
}
func (tb *Table) Mul(a, b *Term) *Term {
	if a.Op == "num" {
		return tb.Scale(b, a.Num)
	}
	if b.Op == "num" {
		return tb.Scale(a, b.Num)
	}
	var fs []*Term
	k := big.NewRat(1, 1)
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "mul" {
			fs = append(fs, t.Args...)
		} else if t.Op == "lin" && len(t.Lin.Vars) == 1 && t.Lin.K.Sign() == 0 {
			k = new(big.Rat).Mul(k, t.Lin.Coef[0])
			add(t.Lin.Vars[0])
		} else {
			fs = append(fs, t)
		}
	}
	add(a)
	add(b)
	sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	r := tb.mk("mul", "", fs, func(t *Term) { t.Typ = a.Typ })
	if k.Cmp(one) != 0 {
		return tb.Scale(r, k)
	}
	return r
}

// ---- XOR sets

func (tb *Table) xorset(op string, typ types.Type, ts ...*Term) *Term {
	cnt := map[*Term]int{}
	var order []*Term
	var add func(t *Term)
	add = func(t *Term) {
		t = Undup(t)
		if t.Op == op {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if t.Op == "zero" || (t.Op == "num" && t.Num.Sign() == 0) {
			return
		}
		if cnt[t] == 0 {
			order = append(order, t)
		}
		cnt[t]++
	}
	for _, t := range ts {
		add(t)
	}
	var args []*Term
	seen := map[*Term]bool{}
	for _, t := range order {
		if cnt[t]%2 == 1 && !seen[t] {
			seen[t] = true
			args = append(args, t)
		}
	}
	sort.Slice(args, func(i, j int) bool { return args[i].ID < args[j].ID })
	if len(args) == 0 {
		if op == "xor" {
			return tb.Int(0)
		}
		return tb.MkT(typ, "zero", "T")
	}
	if len(args) == 1 {
		return args[0]
	}
	return tb.mk(op, "", args, func(t *Term) { t.Typ = typ })
}

func (tb *Table) Xor(a, b *Term) *Term { return tb.xorset("xor", a.Typ, a, b) }

// XorT is the user-supplied XOR of symbol data. XORing into the zero value
// yields a duplicate of the argument.
func (tb *Table) XorT(a, b *Term) *Term {
	if a.Op == "zero" {
		return tb.Dup(b)
	}
	return tb.xorset("xorT", a.Typ, a, b)
}

func (tb *Table) Dup(b *Term) *Term {
	b = Undup(b)
	if b.Op == "zero" {
		return b
	}
	return tb.MkT(b.Typ, "dup", "", b)
}

// Undup strips copies.
func Undup(t *Term) *Term {
	for t.Op == "dup" {
		t = t.Args[0]
	}
	return t
}

// XorArgs returns the elements of an XOR set (op "xor" or "xorT").
func XorArgs(t *Term, op string) []*Term {
	t = Undup(t)
	if t.Op == op {
		return t.Args
	}
	if t.Op == "zero" || (t.Op == "num" && t.Num.Sign() == 0) {
		return nil
	}
	return []*Term{t}
}

// ---- sequences

func (tb *Table) Len(s *Term) *Term {
	switch s.Op {
	case "nil":
		return tb.Int(0)
	case "append":
		return tb.AddK(tb.Len(s.Args[0]), int64(len(s.Args)-1))
	case "appendsl":
		return tb.Add(tb.Len(s.Args[0]), tb.Len(s.Args[1]))
	case "slice":
		return tb.Sub(s.Args[2], s.Args[1])
	case "makeslice":
		return s.Args[0]
	case "slicearr":
		return tb.Sub(s.Args[2], s.Args[1])
	case "str":
		return tb.Int(int64(len(s.Aux)))
	}
	return tb.MkT(types.Typ[types.Int], "len", "", s)
}

func (tb *Table) Append(s *Term, xs ...*Term) *Term {
	if len(xs) == 0 {
		return s
	}
	if s.Op == "append" {
		xs = append(append([]*Term{}, s.Args[1:]...), xs...)
		s = s.Args[0]
	}
	return tb.mk("append", "", append([]*Term{s}, xs...), func(t *Term) { t.Typ = s.Typ })
}

func (tb *Table) AppendSl(s, u *Term) *Term {
	if u.Op == "nil" {
		return s
	}
	if u.Op == "append" && u.Args[0].Op == "nil" {
		return tb.Append(s, u.Args[1:]...)
	}
	return tb.MkT(s.Typ, "appendsl", "", s, u)
}

// Slice is s[lo:hi]; hi nil means len(s).
func (tb *Table) Slice(s, lo, hi *Term) *Term {
	ln := tb.Len(s)
	if lo == nil {
		lo = tb.Int(0)
	}
	if hi == nil {
		hi = ln
	}
	zero := tb.Int(0)
	if lo == zero && hi == ln {
		return s
	}
	if s.Op == "slice" {
		return tb.Slice(s.Args[0], tb.Add(s.Args[1], lo), tb.Add(s.Args[1], hi))
	}
	if s.Op == "append" && lo == zero {
		if hi == tb.Len(s.Args[0]) {
			return s.Args[0]
		}
		for n := len(s.Args) - 1; n > 1; n-- {
			if hi == tb.AddK(tb.Len(s.Args[0]), int64(n-1)) {
				return tb.Append(s.Args[0], s.Args[1:n]...)
			}
		}
	}
	if s.Op == "nil" {
		return s
	}
	return tb.mk("slice", "", []*Term{s, lo, hi}, func(t *Term) { t.Typ = s.Typ })
}

// ---- booleans

func (tb *Table) Not(c *Term) *Term {
	switch c.Op {
	case "true":
		return tb.Bool(false)
	case "false":
		return tb.Bool(true)
	case "not":
		return c.Args[0]
	case "le0": // not (L<=0)  ==  -L+1 <= 0 (integers)
		return tb.le0(AddScaled(&Lin{K: big.NewRat(1, 1)}, tb.LinOf(c.Args[0]), minusOne))
	case "flt0": // not (L<0) == -L<=0
		return tb.fle0(AddScaled(&Lin{K: new(big.Rat)}, tb.LinOf(c.Args[0]), minusOne))
	case "fle0":
		return tb.flt0(AddScaled(&Lin{K: new(big.Rat)}, tb.LinOf(c.Args[0]), minusOne))
	}
	return tb.Mk("not", "", c)
}

func normInt(l *Lin) *Lin {
	// divide by gcd of coefficients, floor constants stay exact only for divisibility; keep simple
	if len(l.Vars) == 0 {
		return l
	}
	g := new(big.Int)
	for _, c := range l.Coef {
		if !c.IsInt() {
			return l
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(c.Num()))
	}
	if g.Cmp(big.NewInt(1)) <= 0 {
		return l
	}
	r := &Lin{Vars: l.Vars}
	for _, c := range l.Coef {
		r.Coef = append(r.Coef, new(big.Rat).Quo(c, new(big.Rat).SetInt(g)))
	}
	// sum c_i v_i + K <= 0  <=>  sum (c_i/g) v_i <= floor(-K/g)
	if !l.K.IsInt() {
		return l
	}
	q := new(big.Int).Div(new(big.Int).Neg(l.K.Num()), g) // Euclidean == floor for positive g
	r.K = new(big.Rat).SetInt(new(big.Int).Neg(q))
	return r
}

func (tb *Table) le0(l *Lin) *Term {
	if len(l.Vars) == 0 {
		return tb.Bool(l.K.Sign() <= 0)
	}
	l = normInt(l)
	if s := textLen(l); s != nil {
		if l.Coef[0].Sign() > 0 && l.K.Sign() == 0 {
			return tb.Eq(s, tb.MkT(s.Typ, "str", ""), false)
		}
		if l.Coef[0].Sign() < 0 && l.K.Cmp(one) == 0 {
			return tb.Not(tb.Eq(s, tb.MkT(s.Typ, "str", ""), false))
		}
	}
	return tb.Mk("le0", "", tb.FromLin(l))
}

// textLen: the text l is about the length of, if it is about nothing else.
func textLen(l *Lin) *Term {
	if len(l.Vars) != 1 || l.Vars[0].Op != "len" || l.Coef[0].Num().BitLen() != 1 || !l.Coef[0].IsInt() {
		return nil
	}
	if s := l.Vars[0].Args[0]; isText(s) {
		return s
	}
	return nil
}

func isText(s *Term) bool {
	if s.Typ == nil {
		return false
	}
	b, ok := s.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// emptyText: c says that a text is empty.
func emptyText(c *Term) *Term {
	if c.Op != "eq" {
		return nil
	}
	for i, a := range c.Args {
		if a.Op == "str" && a.Aux == "" && isText(c.Args[1-i]) {
			return c.Args[1-i]
		}
	}
	return nil
}
func (tb *Table) flt0(l *Lin) *Term {
	if len(l.Vars) == 0 {
		return tb.Bool(l.K.Sign() < 0)
	}
	return tb.Mk("flt0", "", tb.FromLin(l))
}
func (tb *Table) fle0(l *Lin) *Term {
	if len(l.Vars) == 0 {
		return tb.Bool(l.K.Sign() <= 0)
	}
	return tb.Mk("fle0", "", tb.FromLin(l))
}

// Le is a<=b over integers, Lt a<b.
func (tb *Table) Le(a, b *Term) *Term {
	return tb.le0(AddScaled(tb.LinOf(a), tb.LinOf(b), minusOne))
}
func (tb *Table) Lt(a, b *Term) *Term { return tb.Le(tb.AddK(a, 1), b) }
func (tb *Table) FLe(a, b *Term) *Term {
	return tb.fle0(AddScaled(tb.LinOf(a), tb.LinOf(b), minusOne))
}
func (tb *Table) FLt(a, b *Term) *Term {
	return tb.flt0(AddScaled(tb.LinOf(a), tb.LinOf(b), minusOne))
}

// Eq is a==b. numeric marks integer/float operands.
func (tb *Table) Eq(a, b *Term, numeric bool) *Term {
	if a == b {
		return tb.Bool(true)
	}
	if numeric {
		l := AddScaled(tb.LinOf(a), tb.LinOf(b), minusOne)
		if len(l.Vars) == 0 {
			return tb.Bool(l.K.Sign() == 0)
		}
		if l.Coef[0].Sign() < 0 {
			l = AddScaled(&Lin{K: new(big.Rat)}, l, minusOne)
		}
		if s := textLen(l); s != nil && l.K.Sign() == 0 {
			return tb.Eq(s, tb.MkT(s.Typ, "str", ""), false)
		}
		return tb.Mk("eq0", "", tb.FromLin(l))
	}
	if a.Op == "true" {
		return b
	}
	if b.Op == "true" {
		return a
	}
	if a.Op == "false" {
		return tb.Not(b)
	}
	if b.Op == "false" {
		return tb.Not(a)
	}
	if isConstLike(a) && isConstLike(b) {
		return tb.Bool(false)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	if (a.Op == "nil" && nonNil(b)) || (b.Op == "nil" && nonNil(a)) {
		return tb.Bool(false)
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return tb.Bool(false)
	}
	return tb.Mk("eq", "", a, b)
}

func isConstLike(t *Term) bool { return t.Op == "num" || t.Op == "str" }
func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "global", "faddr", "iaddr", "iface", "closure", "func", "makeslice":
		return true
	case "append":
		return len(t.Args) > 1
	}
	return false
}

// ---- traversal and printing

// Contains reports whether sub occurs in t.
func Contains(t, sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.Args {
		if Contains(a, sub) {
			return true
		}
	}
	return false
}

// Atoms returns the base atoms (symbols, allocations, loop variables, versions) in t.
func Atoms(t *Term) []*Term {
	if t.atms != nil {
		return t.atms
	}
	seen := map[*Term]bool{}
	out := []*Term{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "sym", "alloc", "lv", "ver", "makeslice", "makemap", "makechan":
			out = append(out, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	t.atms = out
	return out
}

func (t *Term) String() string { return str(t, 0) }

// locStr prints the location an address denotes.
func locStr(t *Term, d int) string {
	if d > 40 {
		return "..."
	}
	switch t.Op {
	case "faddr":
		n := t.Aux
		if i := strings.IndexByte(n, '@'); i >= 0 {
			n = n[:i]
		}
		b := t.Args[0]
		if b.Op == "faddr" || b.Op == "iaddr" {
			return locStr(b, d+1) + "." + n
		}
		return str(b, d+1) + "." + n
	case "iaddr":
		return str(t.Args[0], d+1) + "[" + str(t.Args[1], d+1) + "]"
	}
	return "*" + str(t, d+1)
}

func str(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 40 {
		return "..."
	}
	sub := func(ts []*Term) string {
		var s []string
		for _, a := range ts {
			s = append(s, str(a, d+1))
		}
		return strings.Join(s, ", ")
	}
	short := func(s string) string {
		if i := strings.IndexByte(s, '@'); i >= 0 {
			return s[:i]
		}
		return s
	}
	switch t.Op {
	case "num":
		return t.Num.RatString()
	case "true", "false", "nil", "any":
		return t.Op
	case "str":
		return fmt.Sprintf("%q", t.Aux)
	case "sym", "alloc", "lv", "global", "ver":
		if t.Op == "lv" {
			if l, ok := t.Obj.(*Term); ok {
				return "~" + locStr(l, d+1)
			}
			return "~" + t.Aux[strings.LastIndexByte(t.Aux, ':')+1:]
		}
		if t.Op == "sym" {
			return t.Aux
		}
		return t.Op + ":" + t.Aux
	case "zero":
		return "zero(" + t.Aux + ")"
	case "faddr":
		return "&" + locStr(t, d)
	case "iaddr":
		return "&" + locStr(t, d)
	case "load":
		s := locStr(t.Args[0], d+1)
		if t.Args[1].Aux != "0" {
			s += "'" + t.Args[1].Aux
		}
		return s
	case "field":
		return str(t.Args[0], d+1) + "." + short(t.Aux)
	case "agg":
		return short(t.Aux) + "{" + sub(t.Args) + "}"
	case "lin":
		var b strings.Builder
		b.WriteByte('(')
		for i, v := range t.Lin.Vars {
			c := t.Lin.Coef[i]
			switch {
			case c.Cmp(one) == 0:
				if i > 0 {
					b.WriteString(" + ")
				}
			case c.Cmp(minusOne) == 0:
				b.WriteString(" - ")
			default:
				if i > 0 && c.Sign() > 0 {
					b.WriteString(" + ")
				}
				b.WriteString(c.RatString() + "*")
			}
			b.WriteString(str(v, d+1))
		}
		if t.Lin.K.Sign() > 0 {
			b.WriteString(" + " + t.Lin.K.RatString())
		} else if t.Lin.K.Sign() < 0 {
			b.WriteString(" - " + new(big.Rat).Neg(t.Lin.K).RatString())
		}
		b.WriteByte(')')
		return b.String()
	case "slice":
		return str(t.Args[0], d+1) + "[" + str(t.Args[1], d+1) + ":" + str(t.Args[2], d+1) + "]"
	case "le0", "flt0", "fle0", "eq0":
		op := map[string]string{"le0": "<=0", "flt0": "<0", "fle0": "<=0f", "eq0": "==0"}[t.Op]
		return "[" + str(t.Args[0], d+1) + op + "]"
	case "eq":
		return "[" + str(t.Args[0], d+1) + "==" + str(t.Args[1], d+1) + "]"
	case "not":
		return "!" + str(t.Args[0], d+1)
	}
	a := ""
	if t.Aux != "" {
		a = ":" + short(t.Aux)
	}
	return t.Op + a + "(" + sub(t.Args) + ")"
}

// Subst replaces terms, rebuilding what contains them in normal form.
func (tb *Table) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		if r, ok := m[t]; ok && r != nil {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = w(a)
			same = same && args[i] == a
		}
		r := t
		if !same {
			switch t.Op {
			case "lin":
				r = tb.Num(t.Lin.K)
				for i := range args {
					r = tb.Add(r, tb.Scale(args[i], t.Lin.Coef[i]))
				}
			case "le0":
				r = tb.le0(tb.LinOf(args[0]))
			case "flt0":
				r = tb.flt0(tb.LinOf(args[0]))
			case "fle0":
				r = tb.fle0(tb.LinOf(args[0]))
			case "eq0":
				r = tb.Eq(args[0], tb.Int(0), true)
			case "eq":
				r = tb.Eq(args[0], args[1], false)
			case "not":
				r = tb.Not(args[0])
			case "mul":
				r = args[0]
				for _, a := range args[1:] {
					r = tb.Mul(r, a)
				}
			case "len":
				r = tb.Len(args[0])
			case "append":
				r = tb.Append(args[0], args[1:]...)
			case "appendsl":
				r = tb.AppendSl(args[0], args[1])
			case "slice":
				r = tb.Slice(args[0], args[1], args[2])
			case "agg":
				r = tb.Agg(t.Typ, args)
			default:
				r = tb.mk(t.Op, t.Aux, args, func(n *Term) { n.Typ, n.Obj = t.Typ, t.Obj })
			}
		}
		memo[t] = r
		return r
	}
	return w(t)
}
