package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

// conc is a flow-insensitive model of a program's goroutines: where values
// come from, which functions each goroutine runs, and what they touch.
type conc struct {
	c      *C
	rels   []string
	fns    []*ssa.Function
	in     map[*ssa.Function]bool
	sites  map[*ssa.Function][]ssa.CallInstruction
	fields map[string][]ssa.Value
	elems  map[string][]ssa.Value
	globs  map[*ssa.Global][]ssa.Value
	bound  map[*ssa.FreeVar][]ssa.Value
	sends  []chanOp
	roots  []*groot
	memo   map[ssa.Value][]ssa.Value
	back   map[ssa.CallInstruction][]*ssa.Function
}

type chanOp struct {
	in   ssa.Instruction
	ch   ssa.Value
	send bool
	val  ssa.Value // sent
	fn   *ssa.Function
}

// groot is the body of a goroutine.
type groot struct {
	name  string
	fn    *ssa.Function
	goes  []*ssa.Go
	reach map[*ssa.Function]bool
	multi bool
	site  ssa.CallInstruction // the call of the starting function this goroutine belongs to
	env   map[ssa.Value]ssa.Value
}

func elemKey(t types.Type) string { return absint.TypeKey(t) }

func newConc(c *C, rels ...string) *conc {
	g := &conc{c: c, rels: rels, in: map[*ssa.Function]bool{}, sites: map[*ssa.Function][]ssa.CallInstruction{}, fields: map[string][]ssa.Value{},
		elems: map[string][]ssa.Value{}, globs: map[*ssa.Global][]ssa.Value{}, bound: map[*ssa.FreeVar][]ssa.Value{}, memo: map[ssa.Value][]ssa.Value{}, back: map[ssa.CallInstruction][]*ssa.Function{}}
	for _, r := range rels {
		for _, f := range c.P.Funcs(r) {
			if !g.in[f] {
				g.in[f] = true
				g.fns = append(g.fns, f)
				c.Funcs[absint.FnKey(f)] = true
			}
		}
	}
	// bound-method wrappers and the like
	for i := 0; i < len(g.fns); i++ {
		for _, b := range g.fns[i].Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && !g.in[f] && f.Blocks != nil && f.Synthetic != "" && f.Pkg == nil {
						g.in[f] = true
						g.fns = append(g.fns, f)
					}
				}
			}
		}
	}
	for _, f := range g.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeClosure:
					for i, fv := range x.Fn.(*ssa.Function).FreeVars {
						g.bound[fv] = append(g.bound[fv], x.Bindings[i])
					}
				case *ssa.Store:
					g.store(x.Addr, x.Val)
				case *ssa.Send:
					g.sends = append(g.sends, chanOp{in, x.Chan, true, x.X, f})
				case *ssa.Select:
					for _, s := range x.States {
						g.sends = append(g.sends, chanOp{in, s.Chan, s.Dir == types.SendOnly, s.Send, f})
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						g.sends = append(g.sends, chanOp{in, x.X, false, nil, f})
					}
				}
			}
		}
	}
	// call sites: static callees first, then those found through values
	for pass := 0; pass < 2; pass++ {
		g.sites = map[*ssa.Function][]ssa.CallInstruction{}
		g.memo = map[ssa.Value][]ssa.Value{}
		next := map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range g.fns {
			for _, ci := range calls(f) {
				for _, t := range g.direct(ci) {
					next[t] = append(next[t], ci)
				}
			}
		}
		g.sites = next
		g.memo = map[ssa.Value][]ssa.Value{}
	}
	return g
}

func calls(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				out = append(out, ci)
			}
		}
	}
	return out
}

func (g *conc) store(addr, v ssa.Value) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		k := fieldKey(a.X.Type(), a.Field)
		g.fields[k] = append(g.fields[k], v)
	case *ssa.IndexAddr:
		k := elemKey(v.Type())
		g.elems[k] = append(g.elems[k], v)
	case *ssa.Global:
		g.globs[a] = append(g.globs[a], v)
	}
}

// direct lists the functions of the program a call, go or defer enters.
func (g *conc) direct(ci ssa.CallInstruction) []*ssa.Function {
	cc := ci.Common()
	if f := cc.StaticCallee(); f != nil {
		f = origin(f)
		if g.in[f] {
			return []*ssa.Function{f}
		}
		return nil
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	var out []*ssa.Function
	if cc.IsInvoke() {
		for _, f := range g.fns {
			if f.Name() == cc.Method.Name() && f.Signature.Recv() != nil && types.Implements(f.Signature.Recv().Type(), cc.Value.Type().Underlying().(*types.Interface)) {
				out = append(out, f)
			}
		}
		return out
	}
	for _, o := range g.origins(cc.Value) {
		switch x := o.(type) {
		case *ssa.Function:
			if g.in[x] {
				out = append(out, x)
			}
		case *ssa.MakeClosure:
			if f := x.Fn.(*ssa.Function); g.in[f] {
				out = append(out, f)
			}
		}
	}
	return out
}

// callbacks lists the program's functions an external callee may call.
func (g *conc) callbacks(ci ssa.CallInstruction) []*ssa.Function {
	if r, ok := g.back[ci]; ok {
		return r
	}
	var out []*ssa.Function
	if len(g.direct(ci)) == 0 {
		for _, a := range ci.Common().Args {
			if _, ok := a.Type().Underlying().(*types.Signature); ok {
				for _, o := range g.origins(a) {
					switch x := o.(type) {
					case *ssa.Function:
						if g.in[x] {
							out = append(out, x)
						}
					case *ssa.MakeClosure:
						if f := x.Fn.(*ssa.Function); g.in[f] {
							out = append(out, f)
						}
					}
				}
			}
			// values with methods that are called back (sort.Sort, and functions in structures)
			t := a.Type()
			if mi, ok := a.(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			if n, ok := t.(*types.Named); ok && types.IsInterface(a.Type()) {
				for _, f := range g.fns {
					if r := f.Signature.Recv(); r != nil && types.Identical(r.Type(), n) {
						out = append(out, f)
					}
				}
			}
		}
	}
	g.back[ci] = out
	return out
}

// origins follows a value back to the instructions that made it.
func (g *conc) origins(v ssa.Value) []ssa.Value {
	if r, ok := g.memo[v]; ok {
		return r
	}
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	leaf := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	add := func(v ssa.Value) {
		if !leaf[v] {
			leaf[v] = true
			out = append(out, v)
		}
	}
	many := func(self ssa.Value, vs []ssa.Value) {
		if len(vs) == 0 {
			add(self)
		}
		for _, x := range vs {
			visit(x)
		}
	}
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		case *ssa.ChangeType:
			visit(x.X)
		case *ssa.ChangeInterface:
			visit(x.X)
		case *ssa.MakeInterface:
			visit(x.X)
		case *ssa.Convert:
			visit(x.X)
		case *ssa.TypeAssert:
			if x.CommaOk {
				add(x)
			} else {
				visit(x.X)
			}
		case *ssa.Slice:
			visit(x.X)
		case *ssa.Field:
			many(x, g.fields[fieldKey(types.NewPointer(x.X.Type()), x.Field)])
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Call:
				fs := g.direct(t)
				if len(fs) == 0 {
					add(x)
				}
				for _, f := range fs {
					for _, r := range returns(f) {
						if x.Index < len(r.Results) {
							visit(r.Results[x.Index])
						}
					}
				}
			case *ssa.Select:
				if x.Index >= 2 {
					k := 2
					for _, s := range t.States {
						if s.Dir == types.RecvOnly {
							if k == x.Index {
								many(x, g.sent(s.Chan))
							}
							k++
						}
					}
				}
			case *ssa.UnOp:
				if t.Op == token.ARROW && x.Index == 0 {
					many(x, g.sent(t.X))
				} else {
					add(x)
				}
			case *ssa.TypeAssert:
				if x.Index == 0 {
					visit(t.X)
				}
			default:
				add(x)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					visit(x.Call.Args[0])
				}
				add(x)
				return
			}
			fs := g.direct(x)
			if len(fs) == 0 {
				add(x)
			}
			for _, f := range fs {
				for _, r := range returns(f) {
					if len(r.Results) > 0 {
						visit(r.Results[0])
					}
				}
			}
		case *ssa.Parameter:
			f := x.Parent()
			n := 0
			for i, p := range f.Params {
				if p != x {
					continue
				}
				for _, s := range g.sites[f] {
					cc := s.Common()
					args := cc.Args
					if cc.IsInvoke() {
						args = append([]ssa.Value{cc.Value}, args...)
					}
					if len(args) == len(f.Params) {
						visit(args[i])
						n++
					}
				}
			}
			if n == 0 {
				add(x)
			}
		case *ssa.FreeVar:
			many(x, g.bound[x])
		case *ssa.UnOp:
			switch x.Op {
			case token.MUL:
				switch a := x.X.(type) {
				case *ssa.FieldAddr:
					many(x, g.fields[fieldKey(a.X.Type(), a.Field)])
				case *ssa.IndexAddr:
					many(x, g.elems[elemKey(x.Type())])
				case *ssa.Global:
					many(x, g.globs[a])
				case *ssa.Alloc, *ssa.FreeVar:
					for _, cell := range g.cells(a) {
						many(x, cellStores(g, cell))
					}
				default:
					add(x)
				}
			case token.ARROW:
				many(x, g.sent(x.X))
			default:
				add(x)
			}
		default:
			add(v)
		}
	}
	visit(v)
	g.memo[v] = out
	return out
}

// cells lists the variables an address of a variable may stand for.
func (g *conc) cells(a ssa.Value) []*ssa.Alloc {
	var out []*ssa.Alloc
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc:
			out = append(out, x)
		case *ssa.FreeVar:
			for _, b := range g.bound[x] {
				visit(b)
			}
		}
	}
	visit(a)
	return out
}

// aliases lists a variable's address and the captured copies of it.
func (g *conc) aliases(a *ssa.Alloc) []ssa.Value {
	out := []ssa.Value{a}
	for i := 0; i < len(out); i++ {
		if out[i].Referrers() == nil {
			continue
		}
		for _, r := range *out[i].Referrers() {
			if mc, ok := r.(*ssa.MakeClosure); ok {
				for k, b := range mc.Bindings {
					if b == out[i] {
						out = append(out, mc.Fn.(*ssa.Function).FreeVars[k])
					}
				}
			}
		}
	}
	return out
}

func cellStores(g *conc, a *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	for _, v := range g.aliases(a) {
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == v {
				out = append(out, s.Val)
			}
		}
	}
	return out
}

func returns(f *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, r)
		}
	}
	return out
}

// channels are the places where the channels of a value are made.
func (g *conc) channels(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, o := range g.origins(v) {
		if k, ok := o.(*ssa.Const); ok && k.IsNil() {
			continue
		}
		out = append(out, o)
	}
	return out
}

// sent lists the values sent on the channels of v.
func (g *conc) sent(v ssa.Value) []ssa.Value {
	mine := map[ssa.Value]bool{}
	for _, o := range g.channels(v) {
		mine[o] = true
	}
	var out []ssa.Value
	for _, s := range g.sends {
		if !s.send || !types.Identical(s.val.Type(), v.Type().Underlying().(*types.Chan).Elem()) {
			continue
		}
		for _, o := range g.channels(s.ch) {
			if mine[o] {
				out = append(out, s.val)
				break
			}
		}
	}
	return out
}

// after lists the instructions that may follow an instruction directly.
func reachable(from, to ssa.Instruction, avoid ssa.Instruction) bool {
	if from.Parent() != to.Parent() {
		return false
	}
	type pos struct {
		b *ssa.BasicBlock
	}
	scan := func(b *ssa.BasicBlock, start int) (hit, open bool) {
		for _, in := range b.Instrs[start:] {
			if in == to {
				return true, false
			}
			if avoid != nil && in == avoid {
				return false, false
			}
		}
		return false, true
	}
	i := 0
	for k, in := range from.Block().Instrs {
		if in == from {
			i = k + 1
		}
	}
	hit, open := scan(from.Block(), i)
	if hit {
		return true
	}
	if !open {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, from.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		hit, open := scan(b, 0)
		if hit {
			return true
		}
		if open {
			work = append(work, b.Succs...)
		}
	}
	return false
}

// findRoots finds the goroutines started by the program that begins with fns.
func (g *conc) findRoots(fns ...*ssa.Function) {
	type rkey struct {
		f *ssa.Function
		s ssa.CallInstruction
	}
	byFn := map[rkey]*groot{}
	main := &groot{name: "main", fn: fns[0], reach: map[*ssa.Function]bool{}}
	g.roots = []*groot{main}
	var walk func(r *groot, f *ssa.Function)
	start := func(r *groot, gi *ssa.Go, t *ssa.Function, site ssa.CallInstruction, env map[ssa.Value]ssa.Value) {
		k := rkey{t, site}
		nr := byFn[k]
		if nr == nil {
			nr = &groot{name: shortFn(t), fn: t, reach: map[*ssa.Function]bool{}, site: site, env: env}
			byFn[k] = nr
			g.roots = append(g.roots, nr)
			walk(nr, t)
		}
		for _, x := range nr.goes {
			if x == gi {
				return
			}
		}
		nr.goes = append(nr.goes, gi)
	}
	walk = func(r *groot, f *ssa.Function) {
		if r.reach[f] {
			return
		}
		r.reach[f] = true
		for _, ci := range calls(f) {
			if gi, ok := ci.(*ssa.Go); ok {
				// a helper that starts what it is given: one goroutine for each of its calls
				if ss := g.plain(f); len(ss) > 1 && r.env == nil && g.given(f) {
					for _, s := range ss {
						if s.Common().IsInvoke() || len(s.Common().Args) != len(f.Params) {
							continue
						}
						env := map[ssa.Value]ssa.Value{}
						for i, p := range f.Params {
							env[p] = s.Common().Args[i]
						}
						for _, t := range g.under(ci, env) {
							start(r, gi, t, s, env)
						}
					}
					continue
				}
				for _, t := range append(g.under(ci, r.env), g.callbacks(ci)...) {
					start(r, gi, t, nil, nil)
				}
				continue
			}
			for _, t := range g.under(ci, r.env) {
				walk(r, t)
			}
			for _, t := range g.callbacks(ci) {
				walk(r, t)
			}
		}
	}
	for _, f := range fns {
		if f != nil {
			walk(main, f)
		}
	}
	// goroutines that may exist several times
	for i := 0; i <= len(g.roots); i++ {
		for _, r := range g.roots {
			if r == main || r.multi {
				continue
			}
			r.multi = len(r.goes) > 1
			for _, gi := range r.goes {
				if r.site != nil {
					r.multi = r.multi || reachable(gi, gi, nil) || g.repeats(r.site, map[*ssa.Function]bool{})
					continue
				}
				r.multi = r.multi || g.repeats(gi, map[*ssa.Function]bool{})
			}
		}
	}
	sort.SliceStable(g.roots[1:], func(i, j int) bool { return g.roots[i+1].fn.Pos() < g.roots[j+1].fn.Pos() })
}

// plain lists the calls of a function that run it in the calling goroutine.
func (g *conc) plain(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, s := range g.sites[f] {
		if _, ok := s.(*ssa.Go); !ok {
			out = append(out, s)
		}
	}
	return out
}

// given: a function with functions among its parameters.
func (g *conc) given(f *ssa.Function) bool {
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// under resolves a call in a goroutine whose starting helper was given the
// functions in env.
func (g *conc) under(ci ssa.CallInstruction, env map[ssa.Value]ssa.Value) []*ssa.Function {
	cc := ci.Common()
	if env == nil || cc.IsInvoke() || cc.StaticCallee() != nil {
		return g.direct(ci)
	}
	var resolve func(v ssa.Value, n int) []ssa.Value
	resolve = func(v ssa.Value, n int) []ssa.Value {
		if n > 10 {
			return nil
		}
		if a, ok := env[v]; ok {
			return g.origins(a)
		}
		switch x := v.(type) {
		case *ssa.ChangeType:
			return resolve(x.X, n+1)
		case *ssa.FreeVar:
			var out []ssa.Value
			for _, b := range g.bound[x] {
				out = append(out, resolve(b, n+1)...)
			}
			return out
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			var out []ssa.Value
			as := []ssa.Value{x.X}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				as = g.bound[fv]
			}
			for _, a := range as {
				al, ok := a.(*ssa.Alloc)
				if !ok {
					return nil
				}
				for _, w := range cellStores(g, al) {
					r := resolve(w, n+1)
					if r == nil {
						return nil
					}
					out = append(out, r...)
				}
			}
			return out
		}
		return nil
	}
	var out []*ssa.Function
	for _, o := range resolve(cc.Value, 0) {
		switch x := o.(type) {
		case *ssa.Function:
			if g.in[x] {
				out = append(out, x)
			}
		case *ssa.MakeClosure:
			if f := x.Fn.(*ssa.Function); g.in[f] {
				out = append(out, f)
			}
		}
	}
	if len(out) == 0 {
		return g.direct(ci)
	}
	return out
}

// repeats: the instruction may run more than once in the life of the program.
func (g *conc) repeats(in ssa.Instruction, seen map[*ssa.Function]bool) bool {
	if reachable(in, in, nil) {
		return true
	}
	f := in.Parent()
	if seen[f] {
		return true
	}
	seen[f] = true
	defer delete(seen, f)
	n := 0
	for _, r := range g.roots {
		if r.fn == f {
			n++
			if r.multi {
				return true
			}
		}
	}
	ss := g.sites[f]
	for _, s := range ss {
		if _, ok := s.(*ssa.Go); ok {
			continue
		}
		n++
		if g.repeats(s, seen) {
			return true
		}
	}
	return n > 1
}

// rootsOf lists the goroutines that run a function.
func (g *conc) rootsOf(f *ssa.Function) []*groot {
	var out []*groot
	for _, r := range g.roots {
		if r.reach[f] {
			out = append(out, r)
		}
	}
	return out
}

func isChan(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }

// ---------------------------------------------------------------- waiting

// wop is a point where a goroutine may wait.
type wop struct {
	r            *groot
	in           ssa.Instruction
	sends, recvs [][]ssa.Value
	what         string
}

// waits lists the points where goroutine r may wait for another goroutine.
func (g *conc) waits(r *groot) []*wop {
	var out []*wop
	for _, f := range g.fns {
		if !r.reach[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					out = append(out, &wop{r: r, in: in, sends: [][]ssa.Value{g.channels(x.Chan)}, what: "sends on " + chanName(x.Chan)})
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						out = append(out, &wop{r: r, in: in, recvs: [][]ssa.Value{g.channels(x.X)}, what: "receives from " + chanName(x.X)})
					}
				case *ssa.Select:
					if !x.Blocking {
						continue
					}
					w := &wop{r: r, in: in}
					var ns []string
					for _, s := range x.States {
						if s.Dir == types.SendOnly {
							w.sends = append(w.sends, g.channels(s.Chan))
							ns = append(ns, "sends on "+chanName(s.Chan))
						} else {
							w.recvs = append(w.recvs, g.channels(s.Chan))
							ns = append(ns, "receives from "+chanName(s.Chan))
						}
					}
					w.what = strings.Join(ns, " or ")
					out = append(out, w)
				case ssa.CallInstruction:
					if x.Common().IsInvoke() {
						continue
					}
					if n := calleeName(x.Common()); n == "(*sync.WaitGroup).Wait" {
						out = append(out, &wop{r: r, in: in, recvs: [][]ssa.Value{g.origins(x.Common().Args[0])}, what: "waits for a group"})
					}
				}
			}
		}
	}
	return out
}

func chanName(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if s, ok := structOf(fa.X.Type().Underlying().(*types.Pointer).Elem()); ok {
					return s.Field(fa.Field).Name()
				}
			}
			v = x.X
			continue
		case *ssa.Phi:
			return x.Comment
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return v.Name()
	}
}

// parties finds the goroutines that receive from (or send on) each channel.
func (g *conc) parties() (recv, send map[ssa.Value]map[*groot]bool) {
	recv, send = map[ssa.Value]map[*groot]bool{}, map[ssa.Value]map[*groot]bool{}
	put := func(m map[ssa.Value]map[*groot]bool, v ssa.Value, f *ssa.Function) {
		if m[v] == nil {
			m[v] = map[*groot]bool{}
		}
		for _, r := range g.rootsOf(f) {
			m[v][r] = true
		}
	}
	for _, o := range g.sends {
		for _, ch := range g.channels(o.ch) {
			if o.send {
				put(send, ch, o.fn)
			} else {
				put(recv, ch, o.fn)
			}
		}
	}
	for _, f := range g.fns {
		for _, ci := range calls(f) {
			cc := ci.Common()
			if cc.IsInvoke() {
				continue
			}
			switch calleeName(cc) {
			case "(*sync.WaitGroup).Done":
				for _, o := range g.origins(cc.Args[0]) {
					put(send, o, f)
				}
			case "builtin close", "close":
				for _, o := range g.channels(cc.Args[0]) {
					put(send, o, f)
				}
			}
		}
	}
	return
}

// deadlocked computes the largest set of waiting points that can hold at the
// same time for ever because each waits for goroutines waiting in the set.
func (g *conc) deadlocked() (bad []*wop, n int) {
	recv, send := g.parties()
	all := map[*groot][]*wop{}
	var s []*wop
	for _, r := range g.roots {
		all[r] = g.waits(r)
		s = append(s, all[r]...)
	}
	n = len(s)
	in := map[*wop]bool{}
	for _, w := range s {
		in[w] = true
	}
	has := func(set [][]ssa.Value, ch ssa.Value) bool {
		for _, a := range set {
			for _, c := range a {
				if c == ch {
					return true
				}
			}
		}
		return false
	}
	local := func(ch ssa.Value) bool {
		switch x := ch.(type) {
		case *ssa.MakeChan:
			return true
		case *ssa.Alloc:
			return true // a wait group
		case *ssa.Call:
			return false && x != nil
		}
		return false
	}
	// stuck: nothing happens on ch as long as the points in the set hold
	stuck := func(w *wop, ch ssa.Value, sending bool) bool {
		if !local(ch) {
			return false
		}
		who := recv[ch]
		if !sending {
			who = send[ch]
		}
		for r := range who {
			held := false
			for _, o := range all[r] {
				if !in[o] || o == w && !r.multi {
					continue
				}
				if sending && has(o.recvs, ch) || !sending && has(o.sends, ch) {
					continue
				}
				held = true
			}
			if w.r == r && !r.multi {
				// the goroutine itself is the one that would have to act
				held = true
			}
			if !held {
				return false
			}
		}
		return true
	}
	for {
		change := false
		for _, w := range s {
			if !in[w] {
				continue
			}
			ok := true
			for _, a := range w.sends {
				all := true
				for _, ch := range a {
					all = all && stuck(w, ch, true)
				}
				if len(a) > 0 && !all {
					ok = false
				}
			}
			for _, a := range w.recvs {
				all := true
				for _, ch := range a {
					all = all && stuck(w, ch, false)
				}
				if len(a) > 0 && !all {
					ok = false
				}
			}
			if !ok {
				in[w] = false
				change = true
			}
		}
		if !change {
			break
		}
	}
	sending := false
	for _, w := range s {
		if in[w] {
			bad = append(bad, w)
			sending = sending || len(w.sends) > 0
		}
	}
	if !sending {
		bad = nil
	}
	return bad, n
}

// ends: function f may return without an error.
func (g *conc) ends(f *ssa.Function, env map[ssa.Value]ssa.Value, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	defer delete(seen, f)
	// blocks reachable when calls that never return are taken as ends
	reach := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	res := false
	visit = func(b *ssa.BasicBlock) {
		if reach[b] || res {
			return
		}
		reach[b] = true
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				fs := g.under(c, env)
				if len(fs) > 0 {
					all := true
					for _, t := range fs {
						all = all && !g.ends(t, env, seen)
					}
					if all && !g.fails(fs) {
						return
					}
					if all && g.escalates(c) {
						return
					}
				}
				if quits(&c.Call) {
					return
				}
			}
			if r, ok := in.(*ssa.Return); ok {
				if !failing(r) {
					res = true
				}
				return
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	visit(f.Blocks[0])
	return res
}

// fails: one of the functions may return with an error.
func (g *conc) fails(fs []*ssa.Function) bool {
	for _, f := range fs {
		for _, r := range returns(f) {
			if failing(r) {
				return true
			}
		}
	}
	return false
}

func quits(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() {
		return false
	}
	switch calleeName(cc) {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		return true
	}
	return false
}

func isErr(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// failing: the error returned is known not to be nil.
func failing(r *ssa.Return) bool {
	for _, v := range r.Results {
		if isErr(v.Type()) && knownErr(v, r.Block()) {
			return true
		}
	}
	return false
}

// knownErr: v is not nil in block b.
func knownErr(v ssa.Value, b *ssa.BasicBlock) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		_ = mi
		return true
	}
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if x, neg, ok := nilTest(br.Cond); ok && x == v && (neg == (p.Succs[0] == d)) && p.Succs[0] != p.Succs[1] {
			return true
		}
	}
	return false
}

// nilTest: cond is x != nil (neg) or x == nil.
func nilTest(cond ssa.Value) (x ssa.Value, neg, ok bool) {
	b, isB := cond.(*ssa.BinOp)
	if !isB || b.Op != token.NEQ && b.Op != token.EQL {
		return nil, false, false
	}
	isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.IsNil() }
	switch {
	case isNil(b.Y):
		x = b.X
	case isNil(b.X):
		x = b.Y
	default:
		return nil, false, false
	}
	return x, b.Op == token.NEQ, true
}

// escalates: an error returned by the call ends the program.
func (g *conc) escalates(c *ssa.Call) bool {
	for _, r := range *c.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok {
			if _, neg, ok := nilTest(b); ok && b.Referrers() != nil {
				for _, u := range *b.Referrers() {
					br, ok := u.(*ssa.If)
					if !ok {
						continue
					}
					t := br.Block().Succs[0]
					if !neg {
						t = br.Block().Succs[1]
					}
					last := t.Instrs[len(t.Instrs)-1]
					if _, ok := last.(*ssa.Panic); ok {
						return true
					}
					for _, in := range t.Instrs {
						if cc, ok := in.(*ssa.Call); ok && quits(&cc.Call) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func init() {
	register(&Rule{ID: "C44", Pkgs: []string{"node"}, MinObl: 4, Run: ruleC44,
		What: "the points where each goroutine of the node may wait (channel operations and the alternatives of blocking selects, with the channels identified by where they are made) admit no set of points that wait for each other while one of them waits to send, nothing waits while it holds a lock, and a goroutine that empties a channel others wait on never ends"})
}

func (g *conc) program(rel string) bool {
	m := g.c.Fn(rel, "", "main")
	if m == nil {
		return false
	}
	g.findRoots(m, m.Pkg.Func("init"))
	for _, r := range g.roots {
		g.c.Roots = append(g.c.Roots, r.name)
	}
	return true
}

func ruleC44(c *C) {
	g := newConc(c, "node")
	if !g.program("node") {
		return
	}
	c.Ob(len(g.roots) > 1, "instances", "goroutines", token.NoPos, "no goroutines found in the node")
	bad, n := g.deadlocked()
	c.Ob(n > 0, "instances", "waiting points", token.NoPos, "no point where a goroutine waits was found")
	isBad := map[*wop]bool{}
	for _, w := range bad {
		isBad[w] = true
	}
	for _, r := range g.roots {
		var first *wop
		for _, w := range g.waits(r) {
			for _, b := range bad {
				if b.in == w.in && b.r == r && first == nil {
					first = b
				}
			}
		}
		pos := r.fn.Pos()
		msg := ""
		if first != nil {
			pos = first.in.Pos()
			var all []string
			for _, b := range bad {
				all = append(all, fmt.Sprintf("%s %s (%s)", b.r.name, b.what, c.Pos(b.in.Pos())))
			}
			msg = strings.Join(all, "; ")
		}
		c.Ob(first == nil, "cycle", r.name, pos, "these goroutines can wait for each other for ever: %s", msg)
	}
	// a goroutine others depend on goes on for ever
	recv, _ := g.parties()
	for _, r := range g.roots {
		for _, w := range g.waits(r) {
			for _, a := range w.sends {
				for _, ch := range a {
					c.Ob(len(recv[ch]) > 0, "reader", chanPos(c, ch), w.in.Pos(), "nothing ever receives what is sent here")
					for t := range recv[ch] {
						if len(t.goes) > 0 {
							c.Ob(!g.ends(t.fn, t.env, map[*ssa.Function]bool{}) && !g.fails([]*ssa.Function{t.fn}), "reader", t.name, t.fn.Pos(), "%s may end without ending the program, and whoever sends to it then waits for ever", t.name)
						}
					}
				}
			}
		}
	}
	// no waiting with a lock held
	ls := newLocks(g)
	for _, r := range g.roots {
		for _, w := range g.waits(r) {
			c.Ob(len(ls.at(w.in)) == 0, "lock", r.name, w.in.Pos(), "%s waits for another goroutine while it holds a lock", r.name)
		}
	}
}

func chanPos(c *C, v ssa.Value) string {
	if f := v.Parent(); f != nil {
		return shortFn(f) + ":" + v.Name()
	}
	return v.Name()
}
