package rules

import (
	"go/types"
	"math"
	"math/big"

	"rsrcheck/internal/absint"
)

// iv is a closed interval of floating-point or integer values; nan: the value
// may be NaN.
type iv struct {
	lo, hi float64
	nan    bool
	bad    string // an operation whose result the language does not define
}

var top = iv{lo: math.Inf(-1), hi: math.Inf(1), nan: true}

// intervals evaluates terms over intervals, given bounds for atoms and the
// path's comparisons.
type intervals struct {
	tb   *absint.Table
	f    *absint.Facts
	pre  map[*Term]iv
	memo map[*Term]iv
}

func typeRange(t types.Type) (lo, hi float64, ok bool) {
	if t == nil {
		return
	}
	b, k := t.Underlying().(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return
	}
	bits := 64.0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	if b.Info()&types.IsUnsigned != 0 {
		return 0, math.Pow(2, bits), true // the excluded upper end rounds to itself
	}
	return -math.Pow(2, bits-1), math.Pow(2, bits-1), true
}

func (e *intervals) eval(t *Term) iv {
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.eval1(t)
	if lo, hi, ok := typeRange(t.Typ); ok && (v.nan || v.lo < lo || v.hi > hi) {
		// unknown or wrapped around
		v.lo, v.hi, v.nan = lo, hi, false
	}
	if t.Op != "num" {
		l, h := e.f.Range(t)
		if l != nil {
			if x, _ := l.Float64(); x > v.lo {
				v.lo = x
			}
		}
		if h != nil {
			if x, _ := h.Float64(); x < v.hi {
				v.hi = x
			}
		}
	}
	e.memo[t] = v
	return v
}

func corners(a, b iv, f func(x, y float64) float64) iv {
	r := iv{lo: math.Inf(1), hi: math.Inf(-1), nan: a.nan || b.nan}
	r.bad = a.bad + b.bad
	for _, x := range []float64{a.lo, a.hi} {
		for _, y := range []float64{b.lo, b.hi} {
			z := f(x, y)
			if math.IsNaN(z) {
				r.nan = true
				continue
			}
			r.lo, r.hi = math.Min(r.lo, z), math.Max(r.hi, z)
		}
	}
	if r.lo > r.hi {
		return top
	}
	return r
}

func pow2(r *big.Rat) bool {
	n, d := new(big.Int).Abs(r.Num()), r.Denom()
	one := func(x *big.Int) bool {
		return x.Sign() > 0 && new(big.Int).And(x, new(big.Int).Sub(x, big.NewInt(1))).Sign() == 0
	}
	return one(n) && one(d)
}

func (e *intervals) eval1(t *Term) iv {
	if v, ok := e.pre[t]; ok {
		return v
	}
	switch t.Op {
	case "num":
		x, _ := t.Num.Float64()
		return iv{lo: x, hi: x}
	case "lin":
		l := e.tb.LinOf(t)
		r := iv{}
		exact := len(l.Vars) == 1
		for i, v := range l.Vars {
			x := e.eval(v)
			c, _ := l.Coef[i].Float64()
			if !pow2(l.Coef[i]) {
				exact = false
			}
			m := corners(x, iv{lo: c, hi: c}, func(a, b float64) float64 { return a * b })
			r = corners(r, m, func(a, b float64) float64 { return a + b })
			// opposite infinities inside the intervals
			if math.IsInf(r.lo, -1) && math.IsInf(r.hi, 1) {
				r.nan = true
			}
		}
		k, _ := l.K.Float64()
		r.lo, r.hi = r.lo+k, r.hi+k
		if !exact {
			r.lo, r.hi = math.Nextafter(r.lo, math.Inf(-1)), math.Nextafter(r.hi, math.Inf(1))
		}
		return r
	case "mul":
		r := e.eval(t.Args[0])
		for _, a := range t.Args[1:] {
			b := e.eval(a)
			z := func(v iv) bool { return v.lo <= 0 && v.hi >= 0 }
			inf := func(v iv) bool { return math.IsInf(v.lo, 0) || math.IsInf(v.hi, 0) }
			nan := z(r) && inf(b) || z(b) && inf(r)
			r = corners(r, b, func(x, y float64) float64 {
				if x == 0 || y == 0 {
					return 0
				}
				return x * y
			})
			r.nan = r.nan || nan
		}
		return r
	case "fdiv":
		a, b := e.eval(t.Args[0]), e.eval(t.Args[1])
		if b.lo < 0 && b.hi > 0 {
			return top
		}
		nan := a.lo <= 0 && a.hi >= 0 && b.lo <= 0 && b.hi >= 0 || math.IsInf(b.hi, 0) && (math.IsInf(a.lo, 0) || math.IsInf(a.hi, 0)) || math.IsInf(b.lo, 0) && (math.IsInf(a.lo, 0) || math.IsInf(a.hi, 0))
		r := corners(a, b, func(x, y float64) float64 { return x / y })
		r.nan = r.nan || nan
		return r
	case "conv":
		x := e.eval(t.Args[0])
		lo, hi, isInt := typeRange(t.Typ)
		if !isInt {
			return x
		}
		if isFloatT(t.Args[0].Typ) || t.Args[0].Typ == nil {
			if x.nan || x.lo <= lo-1 || x.hi >= hi {
				return iv{lo: lo, hi: hi, bad: x.bad + "conversion of a value outside the integer type"}
			}
			return iv{lo: math.Trunc(x.lo), hi: math.Trunc(x.hi), bad: x.bad}
		}
		return x
	case "call":
		arg := func(i int) iv { return e.eval(t.Args[i]) }
		switch t.Aux {
		case "math.Sqrt":
			x := arg(0)
			if x.lo < 0 {
				return iv{lo: 0, hi: math.Sqrt(math.Max(x.hi, 0)), nan: true, bad: x.bad}
			}
			return iv{lo: math.Sqrt(x.lo), hi: math.Sqrt(x.hi), nan: x.nan, bad: x.bad}
		case "math.Ceil", "math.Floor", "math.Trunc", "math.Round":
			f := map[string]func(float64) float64{"math.Ceil": math.Ceil, "math.Floor": math.Floor, "math.Trunc": math.Trunc, "math.Round": math.Round}[t.Aux]
			x := arg(0)
			return iv{lo: f(x.lo), hi: f(x.hi), nan: x.nan, bad: x.bad}
		case "math.Max":
			x, y := arg(0), arg(1)
			return iv{lo: math.Max(x.lo, y.lo), hi: math.Max(x.hi, y.hi), nan: x.nan || y.nan, bad: x.bad + y.bad}
		case "math.Min":
			x, y := arg(0), arg(1)
			return iv{lo: math.Min(x.lo, y.lo), hi: math.Min(x.hi, y.hi), nan: x.nan || y.nan, bad: x.bad + y.bad}
		}
	}
	return top
}

func isFloatT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
