package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
	"rsrcheck/internal/load"
)

// ---------------------------------------------------------------- C30

// det finds what makes a program depend on anything but its arguments.
type det struct {
	c      *C
	fns    []*ssa.Function
	reach  map[*ssa.Function]bool
	values map[ssa.Value]bool // depend on the clock
	fields map[string]bool    // type and number of fields that do
	rets   map[*ssa.Function]bool
	change bool
	logOK  bool
	bound  map[*ssa.FreeVar][]ssa.Value
}

func ruleC30(c *C) {
	d := &det{c: c, values: map[ssa.Value]bool{}, fields: map[string]bool{}, rets: map[*ssa.Function]bool{}, logOK: true, bound: map[*ssa.FreeVar][]ssa.Value{}}
	n := 0
	for _, rel := range []string{"simulator", "newsim"} {
		m := c.Fn(rel, "", "main")
		if m == nil {
			return
		}
		n++
		d.reachable(m, m.Pkg.Func("init"))
	}
	c.Ob(n == 2, "instances", "programs", token.NoPos, "simulators not found")
	for _, f := range d.fns {
		c.Funcs[absint.FnKey(f)] = true
		if f.Signature.Recv() == nil && f.Name() == "init" && f.Synthetic != "" && f.Pkg != nil {
			c.Roots = append(c.Roots, shortFn(f))
		}
	}
	for _, f := range d.fns {
		d.constructs(f)
	}
	for i := 0; i < 100; i++ {
		d.change = false
		for _, f := range d.fns {
			d.flow(f, false)
		}
		if !d.change {
			break
		}
	}
	for _, f := range d.fns {
		d.flow(f, true)
	}
}

func origin(f *ssa.Function) *ssa.Function {
	if f.Blocks == nil {
		if o := f.Origin(); o != nil {
			return o
		}
	}
	return f
}

// reachable: functions that may run, found by references and, for interface
// calls, by the method's name.
func (d *det) reachable(roots ...*ssa.Function) {
	if d.reach == nil {
		d.reach = map[*ssa.Function]bool{}
	}
	byName := map[string][]*ssa.Function{}
	var rels []string
	for rel := range d.c.P.Pkgs {
		rels = append(rels, rel)
	}
	sort.Strings(rels)
	for _, rel := range rels {
		for _, f := range d.c.P.Funcs(rel) {
			if f.Signature.Recv() != nil {
				byName[f.Name()] = append(byName[f.Name()], f)
			}
		}
	}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f == nil {
			return
		}
		f = origin(f)
		if f.Blocks == nil || d.reach[f] || !d.c.inModule(f) {
			return
		}
		d.reach[f] = true
		d.fns = append(d.fns, f)
		work = append(work, f)
	}
	// methods the libraries may call through their interfaces
	for _, nm := range []string{"Len", "Less", "Swap", "Push", "Pop", "String", "Error"} {
		for _, f := range byName[nm] {
			add(f)
		}
	}
	for _, f := range roots {
		add(f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					for i, fv := range g.FreeVars {
						d.bound[fv] = append(d.bound[fv], mc.Bindings[i])
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, g := range byName[ci.Common().Method.Name()] {
						add(g)
					}
				}
			}
		}
	}
}

// callee is the package and name of an external function called.
func extCallee(cc *ssa.CallCommon) (pkg, name string, ok bool) {
	f := cc.StaticCallee()
	if f == nil {
		return "", "", false
	}
	o, _ := f.Object().(*types.Func)
	if o == nil || o.Pkg() == nil {
		return "", "", false
	}
	return o.Pkg().Path(), o.Name(), true
}

func ours(pkg string) bool {
	return pkg == load.Module || strings.HasPrefix(pkg, load.Module+"/") || pkg == "main"
}

var randOK = map[string]bool{"New": true, "NewSource": true, "NewZipf": true, "NewPCG": true, "NewChaCha8": true}

// constructs reports what depends on the runtime's choices by itself.
func (d *det) constructs(f *ssa.Function) {
	c := d.c
	name := shortFn(f)
	bad := func(in ssa.Instruction, what, format string, args ...any) {
		pos := in.Pos()
		if !pos.IsValid() {
			pos = f.Pos()
		}
		c.Fail("choice", name+" "+what, pos, "%s %s", name, fmt.Sprintf(format, args...))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Range:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					why := orderFree(in)
					c.Ob(why == "", "map-order", name, in.Pos(), "%s walks through a map, and the order matters: %s", name, why)
				}
			case *ssa.Go:
				bad(in, "go", "starts a goroutine")
			case *ssa.Select, *ssa.Send, *ssa.MakeChan:
				bad(in, "channel", "uses a channel")
			case *ssa.Convert:
				if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
					if x, ok := in.X.Type().Underlying().(*types.Basic); ok && x.Kind() == types.UnsafePointer {
						bad(in, "address", "uses the address of an object as a number")
					}
				}
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			pkg, nm, ok := extCallee(cc)
			if !ok || ours(pkg) {
				continue
			}
			method := cc.StaticCallee().Signature.Recv() != nil
			c.Ob(true, "library", name, in.Pos(), "")
			switch pkg {
			case "math/rand", "math/rand/v2":
				if !method && !randOK[nm] {
					bad(in, "rand."+nm, "uses the generator shared by the whole program (%s.%s)", pkg, nm)
				}
			case "crypto/rand", "hash/maphash", "runtime", "runtime/debug", "runtime/metrics":
				if nm != "GC" && nm != "KeepAlive" {
					bad(in, pkg+"."+nm, "uses %s.%s, whose result no seed fixes", pkg, nm)
				}
			case "os":
				switch nm {
				case "Getpid", "Getppid", "Hostname", "Getwd", "Environ", "Getenv", "LookupEnv", "TempDir", "MkdirTemp", "CreateTemp":
					bad(in, "os."+nm, "uses os.%s, which is no argument of the program", nm)
				}
			case "sync":
				if method && nm == "Get" {
					bad(in, "sync.Pool", "takes objects from a pool that the garbage collector empties")
				}
			case "maps":
				switch nm {
				case "Keys", "Values", "All":
					bad(in, "maps."+nm, "takes the entries of a map in the order of maps.%s", nm)
				}
			case "reflect":
				switch nm {
				case "Pointer", "UnsafePointer", "UnsafeAddr", "MapKeys", "MapRange", "Addr":
					bad(in, "reflect."+nm, "uses reflect.%s", nm)
				}
			case "log":
				if nm == "New" || nm == "SetOutput" {
					w := cc.Args[0]
					if method {
						w = cc.Args[1]
					}
					d.logOK = d.logOK && isStderr(w)
				}
			case "fmt":
				for i, a := range cc.Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") && !(strings.HasPrefix(nm, "F") && isStderr(cc.Args[0])) {
						bad(in, "address", "prints an address (argument %d)", i)
					}
				}
			}
		}
	}
}

// isStderr: the writer is the standard error stream (or nowhere).
func isStderr(w ssa.Value) bool {
	for {
		switch x := w.(type) {
		case *ssa.MakeInterface:
			w = x.X
			continue
		case *ssa.ChangeInterface:
			w = x.X
			continue
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && g.Pkg != nil {
				p := g.Pkg.Pkg.Path() + "." + g.Name()
				return p == "os.Stderr" || p == "io.Discard"
			}
		}
		return false
	}
}

// ---- the clock

var clockFns = map[string]bool{"Now": true, "Since": true, "Until": true, "After": true, "Tick": true, "NewTimer": true, "NewTicker": true, "AfterFunc": true}

func (d *det) mark(v ssa.Value) {
	if v != nil && !d.values[v] {
		d.values[v] = true
		d.change = true
	}
}

func fieldKey(t types.Type, i int) string {
	return absint.TypeKey(deref(t)) + fmt.Sprint(".", i)
}

// tainted: v depends on the clock.
func (d *det) tainted(v ssa.Value) bool { return v != nil && d.values[v] }

// into marks what is reached through address a.
func (d *det) into(a ssa.Value) bool {
	switch a := a.(type) {
	case *ssa.Alloc, *ssa.Global:
		d.mark(a)
		return true
	case *ssa.FieldAddr:
		if k := fieldKey(a.X.Type(), a.Field); !d.fields[k] {
			d.fields[k] = true
			d.change = true
		}
		return true
	case *ssa.IndexAddr:
		d.mark(a.X)
		return d.into(a.X) || true
	case *ssa.FreeVar:
		d.mark(a)
		for _, b := range d.bound[a] {
			d.into(b)
		}
		return true
	case *ssa.UnOp:
		d.mark(a)
		return true
	case *ssa.Slice:
		d.mark(a)
		return d.into(a.X)
	case *ssa.Phi, *ssa.Parameter:
		d.mark(a.(ssa.Value))
		return true
	}
	return false
}

// from: the value loaded from address a depends on the clock.
func (d *det) from(a ssa.Value) bool {
	if d.tainted(a) {
		return true
	}
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return d.fields[fieldKey(a.X.Type(), a.Field)] || d.from(a.X)
	case *ssa.IndexAddr:
		return d.from(a.X)
	case *ssa.FreeVar:
		for _, b := range d.bound[a] {
			if d.from(b) {
				return true
			}
		}
	}
	return false
}

func (d *det) flow(f *ssa.Function, report bool) {
	name := shortFn(f)
	bad := func(in ssa.Instruction, what string) {
		if !report {
			return
		}
		pos := in.Pos()
		if !pos.IsValid() {
			for _, x := range in.Block().Instrs {
				if x.Pos().IsValid() {
					pos = x.Pos()
				}
			}
		}
		d.c.Fail("clock", name+" "+what, pos, "%s: %s depends on the time of day", name, what)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			any := false
			for _, op := range in.Operands(nil) {
				if *op != nil && d.tainted(*op) {
					any = true
				}
			}
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op == token.MUL && d.from(in.X) || any {
					d.mark(in)
				}
			case *ssa.Field:
				if any || d.fields[fieldKey(in.X.Type(), in.Field)] {
					d.mark(in)
				}
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Phi, *ssa.Extract, *ssa.TypeAssert, *ssa.Slice, *ssa.Index, *ssa.MultiConvert, *ssa.SliceToArrayPointer:
				if any {
					d.mark(in.(ssa.Value))
				}
			case *ssa.IndexAddr:
				if d.tainted(in.Index) {
					bad(in, "an index")
				}
				if d.tainted(in.X) {
					d.mark(in)
				}
			case *ssa.FieldAddr:
				if d.tainted(in.X) {
					if _, ok := in.X.(*ssa.Alloc); !ok {
						d.mark(in)
					}
				}
			case *ssa.Store:
				if d.tainted(in.Val) {
					if _, ok := in.Val.(*ssa.Alloc); ok {
						break // an address
					}
					if !d.into(in.Addr) {
						bad(in, "a stored value")
					}
				}
			case *ssa.If:
				if any {
					bad(in, "a decision")
				}
			case *ssa.Return:
				if any && !d.rets[f] {
					d.rets[f] = true
					d.change = true
				}
			case ssa.CallInstruction:
				d.call(f, in, bad)
			case *ssa.MakeClosure:
				g := in.Fn.(*ssa.Function)
				for i, x := range in.Bindings {
					if d.tainted(x) {
						d.mark(g.FreeVars[i])
					}
				}
			case *ssa.MapUpdate, *ssa.Lookup, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Send, *ssa.Select:
				if any {
					bad(in, "a table, list or message")
				}
			case *ssa.Panic, *ssa.DebugRef, *ssa.Alloc, *ssa.Jump, *ssa.RunDefers, *ssa.Next, *ssa.Range, *ssa.MakeChan:
			default:
				if any {
					bad(in, "an instruction")
				}
			}
		}
	}
}

// argument: the argument depends on the clock (a pointer: what it points to).
func (d *det) argument(a ssa.Value) bool { return d.tainted(a) }

func (d *det) call(f *ssa.Function, in ssa.CallInstruction, bad func(ssa.Instruction, string)) {
	cc := in.Common()
	res, _ := in.(ssa.Value)
	any := false
	for _, a := range cc.Args {
		any = any || d.argument(a)
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		if any && res != nil {
			d.mark(res)
		}
		if any && bi.Name() == "copy" {
			d.into(cc.Args[0])
		}
		return
	}
	if pkg, nm, ok := extCallee(cc); ok && !ours(pkg) {
		if pkg == "time" && clockFns[nm] && cc.StaticCallee().Signature.Recv() == nil {
			if res != nil {
				d.mark(res)
			}
			return
		}
		if !any {
			return
		}
		switch pkg {
		case "time", "math", "strconv", "strings", "math/bits":
			if res != nil {
				d.mark(res)
			}
			return
		case "fmt":
			if strings.HasPrefix(nm, "Sprint") {
				d.mark(res)
				return
			}
			if strings.HasPrefix(nm, "Fprint") && isStderr(cc.Args[0]) {
				return
			}
		case "log":
			if d.logOK && (strings.HasPrefix(nm, "Print") || strings.HasPrefix(nm, "SetPrefix")) {
				return
			}
		}
		bad(in, "the call of "+pkg+"."+nm)
		return
	}
	var to []*ssa.Function
	if g := cc.StaticCallee(); g != nil {
		to = append(to, origin(g))
	} else if cc.IsInvoke() {
		for _, g := range d.fns {
			if g.Signature.Recv() != nil && g.Name() == cc.Method.Name() {
				to = append(to, g)
			}
		}
		if any && len(to) == 0 {
			bad(in, "the call of "+cc.Method.Name())
		}
	} else {
		// a function value: any function of the same signature
		for _, g := range d.fns {
			if g.Signature.Recv() == nil && types.Identical(g.Signature, cc.Signature()) {
				to = append(to, g)
			}
		}
		if any && len(to) == 0 {
			bad(in, "the call of a function value")
		}
	}
	for _, g := range to {
		off := 0
		if cc.IsInvoke() {
			off = 1
		}
		for i, a := range cc.Args {
			if d.argument(a) && i+off < len(g.Params) {
				d.mark(g.Params[i+off])
			}
		}
		if d.rets[g] && res != nil {
			d.mark(res)
		}
	}
}

// ---- maps

// orderFree returns "" if the loop over a map has the same effect in any order.
func orderFree(r *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	hb := next.Block()
	body := map[*ssa.BasicBlock]bool{hb: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}
		body[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range hb.Preds {
		if hb.Dominates(p) {
			back(p)
		}
	}
	key := map[ssa.Value]bool{}
	vals := map[ssa.Value]bool{}
	for _, u := range *next.Referrers() {
		if e, ok := u.(*ssa.Extract); ok {
			if e.Index == 1 {
				key[e] = true
			}
			if e.Index == 2 {
				vals[e] = true
			}
		}
	}
	phis := map[ssa.Value]bool{}
	inner := map[*ssa.BasicBlock]bool{}
	for b := range body {
		for _, p := range b.Preds {
			if b != hb && b.Dominates(p) {
				inner[b] = true
			}
		}
	}
	var sorted []ssa.Value
	for b := range body {
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok || b != hb {
				continue
			}
			phis[phi] = true
			why, lst := carried(phi, body)
			if why != "" {
				return why
			}
			if lst {
				sorted = append(sorted, phi)
			}
		}
	}
	local := func(a ssa.Value) bool {
		for {
			switch x := a.(type) {
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.IndexAddr:
				a = x.X
			case *ssa.Alloc:
				if body[x.Block()] {
					return true
				}
				// the loop's own variable
				own := false
				for _, u := range *x.Referrers() {
					if !body[u.Block()] {
						return false
					}
					if st, ok := u.(*ssa.Store); ok && st.Addr == x && (vals[st.Val] || key[st.Val]) {
						own = true
					}
				}
				return own
			default:
				return false
			}
		}
	}
	effects := false
	for b := range body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if local(in.Addr) {
					continue
				}
				effects = true
				if _, ok := in.Val.(*ssa.Const); ok {
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && vals[fa.X] {
						continue
					}
				}
				if bo, ok := in.Val.(*ssa.BinOp); ok && commutes(bo) {
					ld, ok1 := bo.X.(*ssa.UnOp)
					if ok1 && ld.Op == token.MUL && sameAddr(ld.X, in.Addr) {
						continue
					}
				}
				return "something is stored outside the loop in each round"
			case *ssa.MapUpdate:
				effects = true
				if !key[in.Key] || phis[in.Value] {
					return "entries of another table are set"
				}
			case ssa.CallInstruction:
				cc := in.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "min", "max":
						continue
					case "delete":
						effects = true
						if key[cc.Args[1]] {
							continue
						}
					case "append":
						if v, ok := in.(ssa.Value); ok && collects(v, phis, body) {
							continue
						}
					}
					return bi.Name() + " is applied in each round"
				}
				if pkg, nm, ok := extCallee(cc); ok && !ours(pkg) {
					switch pkg {
					case "math", "strings", "strconv", "math/bits":
						continue
					case "time":
						if !clockFns[nm] && nm != "Sleep" {
							continue
						}
					case "fmt":
						if strings.HasPrefix(nm, "Sprint") {
							continue
						}
					}
				}
				return "something is called in each round"
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return "something is started or sent in each round"
			}
		}
	}
	// other ways out of the loop
	for b := range body {
		for _, s := range b.Succs {
			if body[s] || b == hb {
				continue
			}
			ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return)
			good := ok && len(s.Instrs) == 1 && !effects
			if ok {
				for _, v := range ret.Results {
					if _, k := v.(*ssa.Const); !k {
						good = false
					}
				}
			}
			if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); ok {
				good = true
			}
			if !good {
				return "the loop ends at some entry"
			}
		}
	}
	for _, l := range sorted {
		if !sortedAfter(l, body) {
			return "entries are collected in a list that is not sorted"
		}
	}
	return ""
}

// commutes: an integer operation whose order does not matter.
func commutes(b *ssa.BinOp) bool {
	t, ok := b.Type().Underlying().(*types.Basic)
	if !ok || t.Info()&types.IsInteger == 0 {
		return false
	}
	switch b.Op {
	case token.ADD, token.SUB, token.OR, token.AND, token.XOR:
		return true
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && (x.X == y.X || sameLoad(x.X, y.X))
}

func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && sameAddr(x.X, y.X)
}

// carried decides a variable that is carried from round to round: "" if its
// final value does not depend on the order; list if it collects entries.
func carried(phi *ssa.Phi, body map[*ssa.BasicBlock]bool) (why string, list bool) {
	var konst *ssa.Const
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if v == phi || seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			if konst != nil && konst.String() != v.String() {
				return false
			}
			konst = v
			return true
		case *ssa.Phi:
			if !body[v.Block()] {
				return false
			}
			for _, e := range v.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			return commutes(v) && ok(v.X) && !uses(v.Y, phi, body, 0)
		case *ssa.Call:
			if b, is := v.Call.Value.(*ssa.Builtin); is && b.Name() == "append" {
				list = true
				return ok(v.Call.Args[0])
			}
		}
		return false
	}
	for i, e := range phi.Edges {
		if body[phi.Block().Preds[i]] && !ok(e) {
			return "a variable is carried from one entry to the next", false
		}
	}
	return "", list
}

// uses: v is computed in the loop from phi.
func uses(v ssa.Value, phi *ssa.Phi, body map[*ssa.BasicBlock]bool, depth int) bool {
	if v == phi {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !body[in.Block()] || depth > 20 {
		return depth > 20
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && uses(*op, phi, body, depth+1) {
			return true
		}
	}
	return false
}

func collects(v ssa.Value, phis map[ssa.Value]bool, body map[*ssa.BasicBlock]bool) bool {
	call := v.(*ssa.Call)
	return phis[call.Call.Args[0]]
}

// sortedAfter: after the loop the list is used for sorting before anything else.
func sortedAfter(l ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	var sorts []ssa.Instruction
	var others []ssa.Instruction
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		for _, u := range *v.Referrers() {
			if body[u.Block()] {
				continue
			}
			switch u := u.(type) {
			case *ssa.MakeInterface:
				visit(u)
				continue
			case *ssa.ChangeType:
				visit(u)
				continue
			case *ssa.Call:
				if pkg, nm, ok := extCallee(u.Common()); ok && (pkg == "sort" || pkg == "slices") && (strings.HasPrefix(nm, "Sort") || nm == "Slice" || nm == "SliceStable" || nm == "Stable" || nm == "Ints" || nm == "Strings" || nm == "Float64s") {
					sorts = append(sorts, u)
					continue
				}
			case *ssa.DebugRef:
				continue
			}
			others = append(others, u)
		}
	}
	visit(l)
	if len(sorts) == 0 {
		return false
	}
	for _, o := range others {
		dom := false
		for _, s := range sorts {
			if s.Block() == o.Block() {
				for _, x := range s.Block().Instrs {
					if x == s {
						dom = true
						break
					}
					if x == o {
						break
					}
				}
			} else if s.Block().Dominates(o.Block()) {
				dom = true
			}
		}
		if !dom {
			return false
		}
	}
	return true
}
