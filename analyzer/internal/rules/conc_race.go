package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

// access is one read or write of memory that several goroutines may reach.
type access struct {
	in    ssa.Instruction
	fn    *ssa.Function
	write bool
	class string
	objs  []ssa.Value // the objects it may belong to (nil: any)
	what  string
	elem  ssa.Value // index of a written slice element
}

type races struct {
	g        *conc
	l        *locks
	immut    func(t types.Type) bool // values never changed once made
	shared   func(t types.Type) bool // values that may be used concurrently
	pointees bool                    // also track objects of other packages
	acc      []*access
	objs     map[ssa.Value]map[ssa.Value]bool // object -> objects it holds
	addr     map[ssa.Value][]place
	want     string // the place a construction is about
}

// place is what an address stands for.
type place struct {
	class string
	objs  []ssa.Value
	what  string
}

func newRaces(g *conc) *races {
	return &races{g: g, l: newLocks(g), objs: map[ssa.Value]map[ssa.Value]bool{}, addr: map[ssa.Value][]place{}, immut: func(types.Type) bool { return false }, shared: func(types.Type) bool { return false }}
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// places resolves an address.
func (r *races) places(a ssa.Value) []place {
	if p, ok := r.addr[a]; ok {
		return p
	}
	r.addr[a] = nil
	var out []place
	switch x := a.(type) {
	case *ssa.Alloc:
		out = append(out, place{"variable " + valName(x), []ssa.Value{x}, "the variable " + varName(x)})
	case *ssa.FreeVar:
		for _, c := range r.g.cells(x) {
			out = append(out, r.places(c)...)
		}
		if len(out) == 0 {
			for _, o := range r.g.origins(x) {
				if o != a {
					out = append(out, r.places(o)...)
				}
			}
		}
	case *ssa.Global:
		out = append(out, place{"global " + x.Name(), []ssa.Value{x}, "the global variable " + x.Name()})
	case *ssa.FieldAddr:
		k := fieldKey(x.X.Type(), x.Field)
		nm := k
		if s, ok := structOf(x.X.Type().Underlying().(*types.Pointer).Elem()); ok {
			nm = s.Field(x.Field).Name()
			if n := namedOf(x.X.Type()); n != nil {
				nm = n.Obj().Name() + "." + nm
			}
		}
		out = append(out, place{"field " + k, r.owners(x.X), "the field " + nm})
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			out = r.places(x.X)
		} else {
			out = r.contents(x.X)
		}
	case *ssa.Slice:
		out = r.contents(x)
	case *ssa.Convert:
		out = r.places(x.X)
	case *ssa.ChangeType:
		out = r.places(x.X)
	default:
		if b := r.inside(a); b != nil {
			out = r.places(b)
			break
		}
		for _, o := range r.g.origins(a) {
			if o == a {
				out = append(out, place{"object " + valName(o), []ssa.Value{o}, "the object " + varName(o)})
				continue
			}
			out = append(out, r.places(o)...)
		}
	}
	r.addr[a] = out
	return out
}

// inside: the address is one into the array or list given to a function that
// computes it (and returns nothing else); the argument it was given.
func (r *races) inside(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	fs := r.g.direct(c)
	if len(fs) != 1 || c.Call.IsInvoke() || len(c.Call.Args) != len(fs[0].Params) {
		return nil
	}
	var arg ssa.Value
	for _, ret := range returns(fs[0]) {
		if len(ret.Results) != 1 {
			return nil
		}
		w := ret.Results[0]
		for done := false; !done; {
			switch x := w.(type) {
			case *ssa.IndexAddr:
				w = x.X
			case *ssa.Convert:
				w = x.X
			case *ssa.ChangeType:
				w = x.X
			case *ssa.Slice:
				w = x.X
			default:
				done = true
			}
		}
		p, ok := w.(*ssa.Parameter)
		if !ok || w == ret.Results[0] {
			return nil
		}
		for i, q := range fs[0].Params {
			if q == p {
				if arg != nil && arg != c.Call.Args[i] {
					return nil
				}
				arg = c.Call.Args[i]
			}
		}
	}
	return arg
}

// owners lists the objects an address into a structure may belong to.
func (r *races) owners(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			visit(x.X)
		case *ssa.IndexAddr:
			for _, p := range r.places(x) {
				out = append(out, p.objs...)
			}
		case *ssa.Alloc:
			out = append(out, x)
		default:
			for _, o := range r.g.origins(v) {
				if o == v {
					out = append(out, o)
					continue
				}
				visit(o)
			}
		}
	}
	visit(v)
	return out
}

// contents resolves the elements of a slice or map.
func (r *races) contents(v ssa.Value) []place {
	var out []place
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				for _, p := range r.places(x.X) {
					out = append(out, place{p.class + " content", p.objs, "the content of " + p.what})
				}
				// the container itself, wherever it is kept
				for _, o := range r.g.origins(x) {
					if o != x {
						visit(o)
					}
				}
				return
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
			return
		case *ssa.Slice:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				out = append(out, r.places(x.X)...)
				return
			}
			visit(x.X)
			return
		case *ssa.ChangeType:
			visit(x.X)
			return
		case *ssa.Const:
			return
		case *ssa.Alloc, *ssa.FieldAddr:
			out = append(out, r.places(x)...)
			return
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				visit(x.Call.Args[0])
				out = append(out, place{"object " + valName(x), []ssa.Value{x}, "the list made in " + shortFn(x.Parent())})
				return
			}
		}
		os := r.g.origins(v)
		for _, o := range os {
			if o == v {
				out = append(out, place{"object " + valName(o), []ssa.Value{o}, "the object " + varName(o)})
			} else {
				visit(o)
			}
		}
	}
	visit(v)
	return out
}

func valName(v ssa.Value) string {
	if f := v.Parent(); f != nil {
		return absint.FnKey(f) + ":" + v.Name()
	}
	return v.Name()
}

func varName(v ssa.Value) string {
	if a, ok := v.(*ssa.Alloc); ok && a.Comment != "" {
		return a.Comment
	}
	if f := v.Parent(); f != nil {
		return "made in " + shortFn(f)
	}
	return v.Name()
}

func (r *races) add(in ssa.Instruction, write bool, ps []place, elem ssa.Value) {
	for _, p := range ps {
		r.acc = append(r.acc, &access{in, in.Parent(), write, p.class, p.objs, p.what, elem})
	}
}

// collect finds all accesses.
func (r *races) collect() {
	for _, f := range r.g.fns {
		if f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					var e ssa.Value
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						e = ia.Index
					}
					r.add(in, true, r.places(x.Addr), e)
				case *ssa.UnOp:
					if x.Op == token.MUL {
						var e ssa.Value
						if ia, ok := x.X.(*ssa.IndexAddr); ok {
							e = ia.Index
						}
						r.add(in, false, r.places(x.X), e)
					}
				case *ssa.MapUpdate:
					r.add(in, true, r.contents(x.Map), nil)
				case *ssa.Lookup:
					if isMapT(x.X.Type()) {
						r.add(in, false, r.contents(x.X), nil)
					}
				case *ssa.Range:
					if isMapT(x.X.Type()) {
						r.add(in, false, r.contents(x.X), nil)
					}
				case ssa.CallInstruction:
					r.call(x)
				}
			}
		}
	}
}

// readsOnly: external functions that only look at the slices they are given, by
// the contract of io.Writer and of the functions making values from bytes.
func readsOnly(cc *ssa.CallCommon) bool {
	n := ""
	if cc.IsInvoke() {
		n = cc.Method.Name()
	} else if f := cc.StaticCallee(); f != nil {
		n = f.Name()
	}
	for _, p := range []string{"Write", "New", "Equal", "Compare", "Uint", "Encode", "Sum64", "Sum32", "Sum256", "Hash"} {
		if strings.HasPrefix(n, p) && !strings.HasPrefix(n, "EncodeTo") {
			return true
		}
	}
	return false
}

func (r *races) call(ci ssa.CallInstruction) {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			r.add(ci, true, r.contents(cc.Args[0]), nil)
			if isSliceT(cc.Args[1].Type()) {
				r.add(ci, false, r.contents(cc.Args[1]), nil)
			}
		case "delete", "clear":
			r.add(ci, true, r.contents(cc.Args[0]), nil)
		case "append":
			if len(cc.Args) > 1 && isSliceT(cc.Args[1].Type()) {
				r.add(ci, false, r.contents(cc.Args[1]), nil)
			}
		}
		return
	}
	if len(r.g.direct(ci)) > 0 {
		return
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	res, _ := ci.(ssa.Value)
	for i, a := range args {
		t := a.Type()
		if _, ok := t.Underlying().(*types.Signature); ok || isChan(t) || r.safe(t) {
			continue
		}
		if lk, _ := r.l.lockOp(cc); len(lk) > 0 {
			continue
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if cc.IsInvoke() || cc.StaticCallee() != nil {
				// the elements of a variadic argument are read only
				r.add(ci, !variadic(a) && !readsOnly(cc), r.contents(a), nil)
			}
		case *types.Pointer:
			// a variable of ours whose address is given away for the time of the call
			for _, o := range r.g.origins(a) {
				switch o.(type) {
				case *ssa.Alloc, *ssa.FieldAddr, *ssa.Global:
					if !syncType(u.Elem()) {
						r.add(ci, true, r.places(o), nil)
					}
				}
			}
			if r.pointees {
				r.pointee(ci, a, res, i)
			}
		case *types.Interface:
			if mi, ok := a.(*ssa.MakeInterface); ok {
				if p, ok := mi.X.Type().Underlying().(*types.Pointer); ok && !r.safe(mi.X.Type()) {
					for _, o := range r.g.origins(mi.X) {
						switch o.(type) {
						case *ssa.Alloc, *ssa.FieldAddr, *ssa.Global:
							if !syncType(p.Elem()) {
								r.add(ci, true, r.places(o), nil)
							}
						}
					}
				}
			}
			if r.pointees {
				r.pointee(ci, a, res, i)
			}
		}
	}
}

// variadic: the list of arguments collected for a variadic call.
func variadic(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	a, ok := s.X.(*ssa.Alloc)
	return ok && a.Comment == "varargs"
}

func syncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// safe: values of the type may be used by several goroutines at once.
func (r *races) safe(t types.Type) bool {
	if r.immut(t) || r.shared(t) || isErr(t) {
		return true
	}
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "net", "context", "log", "sync", "sync/atomic", "time", "flag", "regexp", "reflect", "os", "syscall":
			return true
		}
	}
	return false
}

// pointee: an object of another package is used by the call.
func (r *races) pointee(ci ssa.CallInstruction, a, res ssa.Value, i int) {
	for _, o := range r.g.origins(a) {
		c, ok := r.object(o)
		if !ok || r.safe(o.Type()) {
			continue
		}
		r.acc = append(r.acc, &access{ci, ci.Parent(), true, "object " + valName(c), []ssa.Value{c}, "the object made by " + objName(c), nil})
		// what is made from an object or given to one may use it later
		if res != nil {
			if t, ok := r.object(res); ok && t != c {
				r.hold(t, c)
			}
		}
		if i > 0 || res == nil {
			args := ci.Common().Args
			recv := ci.Common().Value
			if !ci.Common().IsInvoke() {
				if ci.Common().Signature().Recv() == nil || len(args) == 0 {
					continue
				}
				recv = args[0]
			}
			for _, t := range r.g.origins(recv) {
				if t, ok := r.object(t); ok && t != c {
					r.hold(t, c)
				}
			}
		}
	}
}

func (r *races) hold(a, b ssa.Value) {
	if r.objs[a] == nil {
		r.objs[a] = map[ssa.Value]bool{}
	}
	r.objs[a][b] = true
}

// object: the value is an object made by another package.
func (r *races) object(v ssa.Value) (ssa.Value, bool) {
	if e, ok := v.(*ssa.Extract); ok {
		if isErr(e.Type()) {
			return nil, false
		}
		v = e.Tuple
		if !pointy(e.Type()) {
			return nil, false
		}
	} else if c, ok := v.(*ssa.Call); ok {
		if _, ok := c.Type().(*types.Tuple); !ok && !pointy(c.Type()) {
			return nil, false
		}
	}
	c, ok := v.(*ssa.Call)
	if !ok || len(r.g.direct(c)) > 0 {
		return nil, false
	}
	if _, ok := c.Call.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	return c, true
}

func objName(v ssa.Value) string {
	if c, ok := v.(*ssa.Call); ok {
		if c.Call.IsInvoke() {
			return c.Call.Method.Name()
		}
		return calleeName(&c.Call)
	}
	return v.Name()
}

func pointy(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice:
		return true
	}
	return false
}

// holds lists an object and all it may reach.
func (r *races) closure(o ssa.Value) []ssa.Value {
	out := []ssa.Value{o}
	seen := map[ssa.Value]bool{o: true}
	for i := 0; i < len(out); i++ {
		var next []ssa.Value
		for h := range r.objs[out[i]] {
			if !seen[h] {
				seen[h] = true
				next = append(next, h)
			}
		}
		sort.Slice(next, func(a, b int) bool { return valName(next[a]) < valName(next[b]) })
		out = append(out, next...)
	}
	return out
}

// ---------------------------------------------------------------- construction

// making: at the instruction, the object behind base is not yet known to any
// other goroutine.
func (r *races) making(in ssa.Instruction, base ssa.Value, depth int) bool {
	if depth > 12 {
		return false
	}
	switch x := base.(type) {
	case *ssa.FieldAddr:
		return r.making(in, x.X, depth+1)
	case *ssa.IndexAddr:
		return r.making(in, x.X, depth+1)
	case *ssa.Slice:
		return r.making(in, x.X, depth+1)
	case *ssa.Convert:
		return r.making(in, x.X, depth+1)
	case *ssa.ChangeType:
		return r.making(in, x.X, depth+1)
	case *ssa.MakeInterface:
		return r.making(in, x.X, depth+1)
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return !r.published(base, in, map[ssa.Value]bool{})
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return r.madeBy(c, x.Index, depth) && !r.published(x, in, map[ssa.Value]bool{})
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "append" && r.making(in, x.Call.Args[0], depth+1) && !r.published(x, in, map[ssa.Value]bool{})
		}
		if b := r.inside(x); b != nil {
			return r.making(in, b, depth+1)
		}
		return r.madeBy(x, 0, depth) && !r.published(x, in, map[ssa.Value]bool{})
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != base && !r.making(in, e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			// a variable holding the object
			if r.published(a, in, map[ssa.Value]bool{}) {
				return false
			}
			for _, v := range cellStores(r.g, a) {
				if !r.making(in, v, depth+1) {
					return false
				}
			}
			return true
		case *ssa.FieldAddr:
			if al, ok := a.X.(*ssa.Alloc); ok {
				// a local structure holds what was put into it
				for _, v := range cellStores(r.g, al) {
					if !r.making(in, v, depth+1) {
						return false
					}
				}
			}
			return r.making(in, a, depth+1)
		case *ssa.IndexAddr:
			return r.making(in, a, depth+1)
		}
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		ss := r.g.sites[f]
		if len(ss) == 0 || idx < 0 || r.published(x, in, map[ssa.Value]bool{}) {
			return false
		}
		for _, s := range ss {
			if _, ok := s.(*ssa.Call); !ok {
				return false
			}
			args := s.Common().Args
			if s.Common().IsInvoke() {
				args = append([]ssa.Value{s.Common().Value}, args...)
			}
			if len(args) != len(f.Params) {
				return false
			}
			if r.want != "" && !r.mayMean(args[idx], r.want) {
				continue
			}
			if !r.making(s, args[idx], depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// mayMean: an address (or something inside what it points to) may be of a class.
func (r *races) mayMean(v ssa.Value, class string) bool {
	ps := r.places(v)
	if isSliceT(v.Type()) {
		ps = r.contents(v)
	}
	for _, p := range ps {
		if p.class == class {
			return true
		}
		if !strings.HasPrefix(p.class, "field ") {
			return true
		}
	}
	return len(ps) == 0
}

// madeBy: the call returns an object nobody else knows.
func (r *races) madeBy(c *ssa.Call, idx, depth int) bool {
	fs := r.g.direct(c)
	if len(fs) == 0 {
		_, ok := r.object(c)
		return ok
	}
	for _, f := range fs {
		for _, ret := range returns(f) {
			if idx >= len(ret.Results) || !r.making(ret, ret.Results[idx], depth+1) {
				return false
			}
		}
	}
	return true
}

// published: before in, the value may have been made known to other goroutines.
func (r *races) published(v ssa.Value, in ssa.Instruction, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	def, _ := v.(ssa.Instruction)
	before := func(p ssa.Instruction) bool {
		return p == in || reachable(p, in, def)
	}
	for _, u := range *v.Referrers() {
		if u.Parent() != in.Parent() {
			continue
		}
		switch x := u.(type) {
		case *ssa.Store:
			if x.Val == v {
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					if r.published(a, in, seen) {
						return true
					}
					// what is read back from the variable
					for _, u2 := range *a.Referrers() {
						if ld, ok := u2.(*ssa.UnOp); ok && ld.Op == token.MUL && r.published(ld, in, seen) {
							return true
						}
					}
					continue
				}
				if before(x) && !r.making(x, x.Addr, 6) {
					return true
				}
			}
		case *ssa.MakeClosure:
			// a function that is only called here does not publish
			if before(x) && r.async(x) {
				return true
			}
		case *ssa.Send:
			if x.X == v && before(x) {
				return true
			}
		case *ssa.Select:
			for _, s := range x.States {
				if s.Send == v && before(x) {
					return true
				}
			}
		case *ssa.MapUpdate:
			if (x.Value == v || x.Key == v) && before(x) {
				return true
			}
		case *ssa.Go:
			if before(x) {
				return true
			}
		case *ssa.Call:
			if !before(x) || x == in {
				continue
			}
			for _, f := range r.g.direct(x) {
				args := x.Call.Args
				if x.Call.IsInvoke() {
					args = append([]ssa.Value{x.Call.Value}, args...)
				}
				for i, a := range args {
					if a == v && i < len(f.Params) && r.leaks(f.Params[i], seen) {
						return true
					}
				}
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.Extract:
			if x, ok := u.(ssa.Value); ok && pointy(x.Type()) && r.published(x, in, seen) {
				return true
			}
		}
	}
	return false
}

// leaks: a function may make its parameter known to other goroutines.
func (r *races) leaks(p *ssa.Parameter, seen map[ssa.Value]bool) bool {
	for _, ret := range exits(p.Parent()) {
		if r.published(p, ret, seen) {
			return true
		}
		delete(seen, p)
	}
	seen[p] = true
	return false
}

func exits(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range f.Blocks {
		if len(b.Succs) == 0 {
			out = append(out, b.Instrs[len(b.Instrs)-1])
		}
	}
	if len(out) == 0 {
		// never returns: the last instruction of every block
		for _, b := range f.Blocks {
			out = append(out, b.Instrs[len(b.Instrs)-1])
		}
	}
	return out
}

// async: the closure may run in another goroutine or be kept.
func (r *races) async(mc *ssa.MakeClosure) bool {
	f := mc.Fn.(*ssa.Function)
	for _, g := range r.g.roots {
		if g.fn == f {
			return true
		}
		if g.name != "main" && g.reach[f] && !g.reach[mc.Parent()] {
			return true
		}
	}
	return false
}

// own: every goroutine of body r has its own object.
func (r *races) own(root *groot, obj ssa.Value) bool {
	f := obj.Parent()
	if f == nil {
		return false
	}
	if root.reach[f] {
		return true
	}
	if len(root.goes) == 0 {
		return true // the only goroutine
	}
	for _, gi := range root.goes {
		var vals []ssa.Value
		cc := gi.Common()
		vals = append(vals, cc.Args...)
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			vals = append(vals, mc.Bindings...)
		} else if cc.IsInvoke() {
			vals = append(vals, cc.Value)
		} else {
			for _, o := range r.g.origins(cc.Value) {
				if mc, ok := o.(*ssa.MakeClosure); ok {
					vals = append(vals, mc.Bindings...)
				}
			}
		}
		for _, v := range vals {
			if !r.leadsTo(v, obj, map[ssa.Value]bool{}) {
				continue
			}
			if !r.perRun(gi, v, obj, 0) {
				return false
			}
		}
	}
	return true
}

// leadsTo: obj may be found by way of v.
func (r *races) leadsTo(v, obj ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if v == obj {
		return true
	}
	var os []ssa.Value
	if cs := r.g.cells(v); len(cs) > 0 {
		for _, c := range cs {
			if ssa.Value(c) == obj {
				return true
			}
			os = append(os, cellStores(r.g, c)...)
			os = append(os, r.fieldStores(c)...)
		}
	} else {
		for _, o := range r.g.origins(v) {
			if o == obj {
				return true
			}
			if t, ok := r.object(o); ok {
				for _, h := range r.closure(t) {
					if h == obj {
						return true
					}
				}
			}
			if a, ok := o.(*ssa.Alloc); ok {
				os = append(os, a)
			}
		}
	}
	for _, o := range os {
		if r.leadsTo(o, obj, seen) {
			return true
		}
	}
	return false
}

// fieldStores lists what is stored into the fields of a structure variable.
func (r *races) fieldStores(a *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	for _, v := range r.g.aliases(a) {
		for _, u := range *v.Referrers() {
			fa, ok := u.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, w := range *fa.Referrers() {
				if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
					out = append(out, s.Val)
				}
			}
		}
	}
	return out
}

// perRun: each execution of in finds a new object obj behind v.
func (r *races) perRun(in ssa.Instruction, v, obj ssa.Value, depth int) bool {
	if depth > 12 {
		return false
	}
	fresh := func(d ssa.Instruction) bool { return d.Parent() == in.Parent() && !reachable(in, in, d) }
	if !r.leadsTo(v, obj, map[ssa.Value]bool{}) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		if !fresh(x) {
			return false
		}
		if x == obj {
			return true
		}
		for _, s := range append(cellStores(r.g, x), r.fieldStores(x)...) {
			if si, ok := s.(ssa.Instruction); ok && si.Parent() != in.Parent() {
				continue
			}
			if !r.perRun(in, s, obj, depth+1) {
				return false
			}
		}
		return true
	case *ssa.MakeInterface:
		return r.perRun(in, x.X, obj, depth+1)
	case *ssa.ChangeType:
		return r.perRun(in, x.X, obj, depth+1)
	case *ssa.Extract:
		if d, ok := x.Tuple.(*ssa.Call); ok {
			return r.perCall(in, d, obj, depth)
		}
	case *ssa.Call:
		return r.perCall(in, x, obj, depth)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !r.perRun(in, e, obj, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			return r.perRun(in, a, obj, depth+1)
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if a, ok := fa.X.(*ssa.Alloc); ok {
				return r.perRun(in, a, obj, depth+1)
			}
		}
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return fresh(v.(ssa.Instruction))
	case *ssa.Parameter:
		f := x.Parent()
		if reachable(in, in, nil) {
			return false
		}
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		n := 0
		for _, s := range r.g.sites[f] {
			args := s.Common().Args
			if s.Common().IsInvoke() {
				args = append([]ssa.Value{s.Common().Value}, args...)
			}
			if idx < 0 || len(args) != len(f.Params) {
				return false
			}
			n++
			if !r.perRun(s, args[idx], obj, depth+1) {
				return false
			}
		}
		return n == 1
	}
	return false
}

func (r *races) perCall(in ssa.Instruction, c *ssa.Call, obj ssa.Value, depth int) bool {
	if c.Parent() != in.Parent() || reachable(in, in, c) {
		return false
	}
	if c == obj {
		return true
	}
	fs := r.g.direct(c)
	for _, f := range fs {
		if obj.Parent() == f {
			// made in the callee for every call
			continue
		}
		for _, ret := range returns(f) {
			for _, v := range ret.Results {
				if r.leadsTo(v, obj, map[ssa.Value]bool{}) && !r.perRun(ret, v, obj, depth+1) {
					return false
				}
			}
		}
	}
	if len(fs) == 0 {
		// the object is held by what the call makes
		for _, a := range c.Call.Args {
			if r.leadsTo(a, obj, map[ssa.Value]bool{}) && !r.perRun(c, a, obj, depth+1) {
				return false
			}
		}
		if c.Call.IsInvoke() && r.leadsTo(c.Call.Value, obj, map[ssa.Value]bool{}) {
			return r.perRun(c, c.Call.Value, obj, depth+1)
		}
	}
	return true
}

// ---------------------------------------------------------------- conflicts

// ordered: access a of the spawning function happens before the goroutine r
// exists or after it has been waited for.
func (r *races) ordered(a *access, root *groot) bool {
	if len(root.goes) == 0 {
		return false
	}
	for _, gi := range root.goes {
		if !r.before(a.in, gi, 0) && !r.after(a.in, gi, root, 0) {
			return false
		}
	}
	return true
}

// after: in only runs once the goroutines gi started were waited for. What a
// goroutine does comes after the go statement that starts it.
func (r *races) after(in, gi ssa.Instruction, root *groot, depth int) bool {
	if r.joined(in, gi, root, 0) {
		return true
	}
	x := r.isRoot(in.Parent())
	if x == nil || x == root || len(x.goes) == 0 || depth > 2 || len(r.g.sites[x.fn]) != len(x.goes) {
		return false
	}
	for _, s := range x.goes {
		if !r.after(s, gi, root, depth+1) {
			return false
		}
	}
	return true
}

// before: in never runs once gi has started its goroutine. Only decided when
// both are in functions that run once.
func (r *races) before(in ssa.Instruction, gi ssa.Instruction, depth int) bool {
	if in.Parent() == gi.Parent() {
		return in != gi && !reachable(gi, in, nil) && !r.g.repeats(gi, map[*ssa.Function]bool{})
	}
	// lift the go statement to the call that leads to it, or the access to its call
	if depth > 6 {
		return false
	}
	if ss := r.plainSites(gi.Parent()); len(ss) == 1 && len(r.g.rootsOf(gi.Parent())) == 1 {
		if r.before(in, ss[0], depth+1) {
			return true
		}
	}
	if ss := r.plainSites(in.Parent()); len(ss) > 0 && r.isRoot(in.Parent()) == nil {
		for _, s := range ss {
			if !r.before(s, gi, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (r *races) isRoot(f *ssa.Function) *groot {
	for _, g := range r.g.roots {
		if g.fn == f {
			return g
		}
	}
	return nil
}

func (r *races) plainSites(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	for _, s := range r.g.sites[f] {
		if _, ok := s.(*ssa.Call); ok {
			out = append(out, s)
		} else {
			return nil
		}
	}
	return out
}

// joined: on every path from the go statement to in, the goroutine is waited for.
func (r *races) joined(in, gi ssa.Instruction, root *groot, depth int) bool {
	f := gi.Parent()
	dones := r.doneOf(root)
	if len(dones) == 0 || depth > 6 {
		return false
	}
	var waits []ssa.Instruction
	for _, ci := range calls(f) {
		cc := ci.Common()
		if cc.IsInvoke() || calleeName(cc) != "(*sync.WaitGroup).Wait" {
			continue
		}
		if _, ok := ci.(*ssa.Call); !ok {
			continue
		}
		for _, o := range r.g.origins(cc.Args[0]) {
			if dones[o] {
				waits = append(waits, ci)
			}
		}
	}
	if len(waits) == 0 {
		return false
	}
	if in.Parent() == f {
		return !reachableAvoiding(gi, in, waits)
	}
	// the access is in a function only called once the goroutine was waited for
	if ss := r.plainSites(in.Parent()); len(ss) > 0 && r.isRoot(in.Parent()) == nil {
		all := true
		for _, s := range ss {
			all = all && r.joined(s, gi, root, depth+1)
		}
		if all {
			return true
		}
	}
	// the access is outside: all ways out of f must have waited, and the access
	// must not run while f does
	for _, ret := range returns(f) {
		if reachableAvoiding(gi, ret, waits) {
			return false
		}
	}
	for _, g := range r.g.roots {
		if g.reach[in.Parent()] && g.reach[f] {
			return !r.calledWithin(in, f)
		}
	}
	return false
}

// calledWithin: in may run during a call of f.
func (r *races) calledWithin(in ssa.Instruction, f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(h *ssa.Function) bool
	visit = func(h *ssa.Function) bool {
		if seen[h] {
			return false
		}
		seen[h] = true
		if h == in.Parent() {
			return true
		}
		for _, ci := range calls(h) {
			if _, ok := ci.(*ssa.Go); ok {
				continue
			}
			for _, t := range append(r.g.direct(ci), r.g.callbacks(ci)...) {
				if visit(t) {
					return true
				}
			}
		}
		return false
	}
	return visit(f)
}

// doneOf: the wait groups the goroutine reports its end to, on all ways out
// and as the last thing it does.
func (r *races) doneOf(root *groot) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, ci := range calls(root.fn) {
		cc := ci.Common()
		if cc.IsInvoke() || calleeName(cc) != "(*sync.WaitGroup).Done" {
			continue
		}
		ok := true
		switch x := ci.(type) {
		case *ssa.Defer:
			ok = onAllWays(root.fn, x)
		case *ssa.Call:
			ok = onAllWays(root.fn, x)
			// nothing but the return may follow
			for _, b := range root.fn.Blocks {
				for _, in := range b.Instrs {
					switch in.(type) {
					case *ssa.Store, *ssa.MapUpdate, *ssa.UnOp, ssa.CallInstruction:
						if in != ssa.Instruction(x) && reachable(x, in, nil) {
							ok = false
						}
					}
				}
			}
		default:
			ok = false
		}
		if ok {
			for _, o := range r.g.origins(cc.Args[0]) {
				out[o] = true
			}
		}
	}
	return out
}

// onAllWays: every way through f passes in.
func onAllWays(f *ssa.Function, in ssa.Instruction) bool {
	first := f.Blocks[0].Instrs[0]
	if first == in {
		return true
	}
	for _, r := range returns(f) {
		if ssa.Instruction(r) == first || reachable(first, r, in) {
			return false
		}
	}
	return true
}

func reachableAvoiding(from, to ssa.Instruction, avoid []ssa.Instruction) bool {
	skip := map[ssa.Instruction]bool{}
	for _, a := range avoid {
		skip[a] = true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, start int) bool
	scan = func(b *ssa.BasicBlock, start int) bool {
		for _, in := range b.Instrs[start:] {
			if in == to {
				return true
			}
			if skip[in] {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if scan(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for k, in := range from.Block().Instrs {
		if in == from {
			return scan(from.Block(), k+1)
		}
	}
	return true
}

type pairKey struct {
	class string
	root  string
}

// check reports every pair of accesses that may happen at the same time.
func (r *races) check(rule string) {
	c := r.g.c
	// an object reached through another one
	var extra []*access
	for _, a := range r.acc {
		if !strings.HasPrefix(a.class, "object ") || len(a.objs) != 1 || len(r.closure(a.objs[0])) < 2 || r.construction(a) {
			continue
		}
		for _, h := range r.closure(a.objs[0])[1:] {
			extra = append(extra, &access{a.in, a.fn, a.write, "object " + valName(h), []ssa.Value{h}, "the object made by " + objName(h), nil})
		}
	}
	acc := append(append([]*access{}, r.acc...), extra...)
	by := map[string][]*access{}
	var classes []string
	for _, a := range acc {
		if by[a.class] == nil {
			classes = append(classes, a.class)
		}
		by[a.class] = append(by[a.class], a)
	}
	sort.Strings(classes)
	n := 0
	for _, cl := range classes {
		as := by[cl]
		w := false
		for _, a := range as {
			w = w || a.write
		}
		if !w {
			continue
		}
		var live []*access
		mk := map[*access]bool{}
		for _, a := range as {
			if !r.construction(a) {
				live = append(live, a)
			} else {
				mk[a] = true
			}
		}
		var bad string
		var at token.Pos
		multi := false
		for i, a := range live {
			for _, b := range live[i:] {
				if bad != "" || !a.write && !b.write || !overlap(a.objs, b.objs) {
					continue
				}
				if r.guarded(a, b) {
					continue
				}
				for _, x := range r.g.rootsOf(a.fn) {
					for _, y := range r.g.rootsOf(b.fn) {
						if bad != "" {
							continue
						}
						if x == y && (!x.multi || len(x.goes) == 0) {
							continue
						}
						if x != y {
							multi = true
						}
						if x == y && r.ownAll(x, a, b) {
							continue
						}
						if x == y && distinct(r, x, a, b) {
							continue
						}
						if x != y && (r.apart(x, y, a, b)) {
							continue
						}
						if r.ordered(a, y) && x != y || r.ordered(b, x) && x != y {
							continue
						}
						at = a.in.Pos()
						if !at.IsValid() || !a.write && b.in.Pos().IsValid() {
							at = b.in.Pos()
						}
						if x == y {
							bad = fmt.Sprintf("several goroutines run %s and share %s (%s, %s)", x.name, a.what, c.Pos(a.in.Pos()), c.Pos(b.in.Pos()))
						} else {
							bad = fmt.Sprintf("%s is used by %s (%s) and by %s (%s) without anything that orders them", a.what, x.name, c.Pos(a.in.Pos()), y.name, c.Pos(b.in.Pos()))
						}
					}
				}
			}
		}
		_ = multi
		n++
		con := lockName(cl)
		c.Ob(bad == "", rule, con, at, "%s", bad)
	}
	c.Ob(n > 0, "instances", "shared memory", token.NoPos, "no memory written by the program was found")
}

// construction: the access happens while the object is made.
func (r *races) construction(a *access) bool {
	var base ssa.Value
	switch x := a.in.(type) {
	case *ssa.Store:
		base = x.Addr
	case *ssa.UnOp:
		base = x.X
	case *ssa.MapUpdate:
		base = x.Map
	case *ssa.Lookup:
		base = x.X
	case *ssa.Range:
		base = x.X
	case ssa.CallInstruction:
		cc := x.Common()
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		ok := true
		for _, v := range args {
			if !pointy(v.Type()) {
				continue
			}
			hit := false
			var ps []place
			if isSliceT(v.Type()) {
				ps = r.contents(v)
			} else {
				ps = r.places(v)
			}
			for _, p := range ps {
				hit = hit || p.class == a.class
			}
			for _, o := range r.g.origins(v) {
				if t, k := r.object(o); k && "object "+valName(t) == a.class {
					hit = true
				}
			}
			if hit && !r.making(a.in, v, 0) {
				ok = false
			}
			if hit {
				base = v
			}
		}
		return ok && base != nil
	}
	r.want = ""
	if strings.HasPrefix(a.class, "field ") {
		r.want = a.class
	}
	return base != nil && r.making(a.in, base, 0)
}

func overlap(a, b []ssa.Value) bool {
	if len(a) == 0 || len(b) == 0 {
		return true
	}
	for _, x := range a {
		for _, y := range b {
			if x == y {
				return true
			}
		}
	}
	return false
}

// oneLock: the lock is made once for each of the objects both accesses may mean.
func (r *races) oneLock(k string, a, b *access) bool {
	lk := r.l.made[strings.TrimSuffix(k, " (shared)")]
	in, ok := lk.(ssa.Instruction)
	if !ok {
		return true // a global, or part of the object
	}
	for _, o := range a.objs {
		if !overlap([]ssa.Value{o}, b.objs) {
			continue
		}
		if oi, ok := o.(ssa.Instruction); ok && oi.Parent() == in.Parent() {
			if reachable(in, in, oi) {
				return false
			}
			continue
		}
		if r.g.repeats(in, map[*ssa.Function]bool{}) {
			return false
		}
	}
	return true
}

// guarded: both accesses hold a common lock.
func (r *races) guarded(a, b *access) bool {
	la, lb := r.l.sure(a.in), r.l.sure(b.in)
	for k := range la {
		if !r.oneLock(k, a, b) {
			continue
		}
		s := strings.HasSuffix(k, " (shared)")
		base := strings.TrimSuffix(k, " (shared)")
		if lb[k] && !s {
			return true
		}
		if s && lb[base] && !a.write || !s && lb[k+" (shared)"] && !b.write {
			return true
		}
	}
	return false
}

// ownAll: every object both accesses may mean belongs to one goroutine.
func (r *races) ownAll(x *groot, a, b *access) bool {
	if len(a.objs) == 0 {
		return false
	}
	for _, o := range a.objs {
		if overlap([]ssa.Value{o}, b.objs) && !r.own(x, o) {
			return false
		}
	}
	return true
}

// apart: the objects are made by each of the two goroutines for itself.
func (r *races) apart(x, y *groot, a, b *access) bool {
	if len(a.objs) == 0 {
		return false
	}
	for _, o := range a.objs {
		if !overlap([]ssa.Value{o}, b.objs) {
			continue
		}
		f := o.Parent()
		if f == nil || !x.reach[f] || !y.reach[f] || r.handed(o) {
			return false
		}
	}
	return true
}

// handed: the object may get from one goroutine to another.
func (r *races) handed(o ssa.Value) bool {
	in, ok := o.(ssa.Instruction)
	if !ok {
		return true
	}
	for _, e := range exits(in.Parent()) {
		if r.published(o, e, map[ssa.Value]bool{}) {
			return true
		}
		// returned: follow the callers
		if ret, ok := e.(*ssa.Return); ok {
			for _, v := range ret.Results {
				for _, p := range r.g.origins(v) {
					if p == o {
						for _, s := range r.g.sites[in.Parent()] {
							if c, ok := s.(*ssa.Call); ok && r.handed(c) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// distinct: each goroutine of the body uses an element of its own.
func distinct(r *races, x *groot, a, b *access) bool {
	own := func(v ssa.Value) ssa.Value {
		if len(x.goes) != 1 || r.g.repeatsOutside(x.goes[0]) {
			return nil
		}
		gi := x.goes[0]
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			// a variable of the turn of the loop that starts the goroutine
			fv, ok := u.X.(*ssa.FreeVar)
			if ok && fv.Parent() == x.fn && turnVar(fv, gi) {
				return fv
			}
			return nil
		}
		p, ok := v.(*ssa.Parameter)
		if !ok || p.Parent() != x.fn {
			return nil
		}
		args := gi.Common().Args
		for i, q := range x.fn.Params {
			if q == p && i < len(args) && stepping(args[i]) {
				return p
			}
		}
		return nil
	}
	if a.elem == nil || b.elem == nil {
		return false
	}
	o := own(a.elem)
	return o != nil && o == own(b.elem)
}

// turnVar: the captured variable is made anew in each turn of the loop with
// the go statement and holds the number of the turn.
func turnVar(fv *ssa.FreeVar, gi ssa.CallInstruction) bool {
	mc, ok := gi.Common().Value.(*ssa.MakeClosure)
	if !ok {
		return false
	}
	for i, q := range fv.Parent().FreeVars {
		if q != fv || i >= len(mc.Bindings) {
			continue
		}
		al, ok := mc.Bindings[i].(*ssa.Alloc)
		if !ok || al.Parent() != gi.Parent() || reachableAvoiding(gi, gi, []ssa.Instruction{al}) {
			return false
		}
		n := 0
		for _, u := range *al.Referrers() {
			switch y := u.(type) {
			case *ssa.Store:
				if y.Addr != ssa.Value(al) || !stepping(y.Val) {
					return false
				}
				n++
			case *ssa.UnOp:
			case *ssa.MakeClosure:
				if !onlyRead(y, al) {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return n == 1
	}
	return false
}

// onlyRead: the closure reads the captured variable and does nothing else to it.
func onlyRead(mc *ssa.MakeClosure, al ssa.Value) bool {
	f, ok := mc.Fn.(*ssa.Function)
	if !ok {
		return false
	}
	for i, b := range mc.Bindings {
		if b != al {
			continue
		}
		for _, u := range *f.FreeVars[i].Referrers() {
			switch y := u.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				if !onlyRead(y, f.FreeVars[i]) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// repeatsOutside: the function of the go statement may itself run several
// times at once.
func (g *conc) repeatsOutside(gi ssa.Instruction) bool {
	for _, r := range g.rootsOf(gi.Parent()) {
		if r.multi {
			return true
		}
	}
	return false
}

// stepping: a loop counter that never takes a value twice.
func stepping(v ssa.Value) bool {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if ph, ok := b.X.(*ssa.Phi); ok {
			return stepPhi(ph)
		}
	}
	if ph, ok := v.(*ssa.Phi); ok {
		return stepPhi(ph)
	}
	if e, ok := v.(*ssa.Extract); ok {
		_, isNext := e.Tuple.(*ssa.Next)
		return isNext && e.Index == 1
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		// a loop variable kept in memory
		if a, ok := u.X.(*ssa.Alloc); ok {
			for _, s := range *a.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					if !stepping(st.Val) {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

func stepPhi(ph *ssa.Phi) bool {
	for i, e := range ph.Edges {
		if _, ok := e.(*ssa.Const); ok {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Int64() == 0 {
			return false
		}
		_ = i
	}
	return true
}
