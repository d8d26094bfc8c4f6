package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

func init() {
	register(&Rule{ID: "C50", Pkgs: []string{"testbed"}, MinObl: 12, Run: runC50,
		What: "symbolic paths from the command line, goroutines included, to each request that changes something at a cloud vendor; flow-insensitive origins of the machines named in it"})
}

// cloud classifies the requests to the cloud vendors.
type cloud struct {
	*simp
	g *conc
}

// client: a type of a vendor's library that can be asked what there is.
func (k *cloud) client(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	path := n.Obj().Pkg().Path()
	if i := strings.Index(path, "/"); i < 0 || !strings.Contains(path[:i], ".") || strings.HasPrefix(path, "golang.org/") {
		return false
	}
	if _, ok := k.c.P.Pkgs[k.c.rel(n.Obj().Pkg())]; ok {
		return false
	}
	if it, ok := n.Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			if asks(it.Method(i).Name()) {
				return true
			}
		}
		return false
	}
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		if asks(ms.At(i).Obj().Name()) {
			return true
		}
	}
	return false
}

func asks(name string) bool {
	return strings.HasPrefix(name, "List") || strings.HasPrefix(name, "Describe")
}

// request: a call of a vendor's client, and what it does: "ask", "make" or "end".
func (k *cloud) request(cc *ssa.CallCommon) string {
	var recv types.Type
	var name string
	if cc.IsInvoke() {
		recv, name = cc.Value.Type(), cc.Method.Name()
	} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
		recv, name = f.Signature.Recv().Type(), f.Name()
	} else {
		return ""
	}
	if !k.client(recv) {
		return ""
	}
	for _, w := range []string{"List", "Describe", "Get", "Wait", "String", "GoString", "Bandwidth", "AppInfo", "Set", "New"} {
		if strings.HasPrefix(name, w) && name != "SetTag" && name != "SetUserData" && name != "SetFirewallGroup" {
			return "ask"
		}
	}
	for _, w := range []string{"Create", "Run", "Import", "Authorize", "Request", "Allocate"} {
		if strings.HasPrefix(name, w) {
			return "make"
		}
	}
	return "end"
}

// origins of data: the calls outside the program it comes from.
type provenance struct {
	g     *conc
	seen  map[ssa.Value]bool
	calls map[ssa.Instruction]bool
	lost  []ssa.Value
}

func (v *provenance) from(x ssa.Value) {
	if x == nil || v.seen[x] {
		return
	}
	v.seen[x] = true
	g := v.g
	all := func(xs []ssa.Value) bool {
		for _, y := range xs {
			v.from(y)
		}
		return len(xs) > 0
	}
	switch t := x.(type) {
	case *ssa.Const, *ssa.Function, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v.elems(x)
	case *ssa.Phi:
		all(t.Edges)
	case *ssa.ChangeType:
		v.from(t.X)
	case *ssa.ChangeInterface:
		v.from(t.X)
	case *ssa.MakeInterface:
		v.from(t.X)
	case *ssa.Convert:
		v.from(t.X)
	case *ssa.TypeAssert:
		v.from(t.X)
	case *ssa.Slice:
		v.from(t.X)
	case *ssa.Range:
		v.from(t.X)
	case *ssa.Next:
		v.from(t.Iter)
	case *ssa.Lookup:
		v.from(t.X)
	case *ssa.Index:
		v.from(t.X)
	case *ssa.BinOp:
		v.from(t.X)
		v.from(t.Y)
	case *ssa.Field:
		v.field(types.NewPointer(t.X.Type()), t.Field, t.X)
	case *ssa.FieldAddr:
		v.field(t.X.Type(), t.Field, t.X)
	case *ssa.IndexAddr:
		v.from(t.X)
	case *ssa.Global:
		all(g.globs[t])
	case *ssa.Alloc:
		v.elems(t)
		all(cellStores(g, t))
	case *ssa.FreeVar:
		if !all(g.bound[t]) {
			v.lost = append(v.lost, x)
		}
	case *ssa.UnOp:
		if t.Op == token.ARROW {
			all(g.sent(t.X))
			return
		}
		v.from(t.X)
	case *ssa.Extract:
		if ci, ok := t.Tuple.(*ssa.Call); ok {
			v.call(ci, t.Index)
			return
		}
		v.from(t.Tuple)
	case *ssa.Call:
		v.call(t, 0)
	case *ssa.Parameter:
		f := t.Parent()
		n := 0
		for i, p := range f.Params {
			if p != t {
				continue
			}
			for _, s := range g.sites[f] {
				cc := s.Common()
				args := cc.Args
				if cc.IsInvoke() {
					args = append([]ssa.Value{cc.Value}, args...)
				}
				if len(args) == len(f.Params) {
					v.from(args[i])
					n++
				}
			}
		}
		// handed to a call outside the program, which then calls it
		for _, h := range g.fns {
			for _, ci := range calls(h) {
				if len(g.direct(ci)) > 0 {
					continue
				}
				for _, a := range ci.Common().Args {
					if _, ok := a.Type().Underlying().(*types.Signature); !ok {
						continue
					}
					for _, o := range g.origins(a) {
						if mc, ok := o.(*ssa.MakeClosure); ok && mc.Fn == f || o == ssa.Value(f) {
							v.calls[ci] = true
							n++
						}
					}
				}
			}
		}
		if n == 0 {
			v.lost = append(v.lost, x)
		}
	default:
		v.lost = append(v.lost, x)
	}
}

func (v *provenance) field(t types.Type, i int, base ssa.Value) {
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil {
		if _, ok := v.g.c.P.Pkgs[v.g.c.rel(n.Obj().Pkg())]; ok {
			if vs := v.g.fields[fieldKey(t, i)]; len(vs) > 0 {
				for _, y := range vs {
					v.from(y)
				}
				return
			}
		}
	}
	v.from(base)
}

// elems follows what is put into a list or record made here.
func (v *provenance) elems(made ssa.Value) {
	rs := made.Referrers()
	if rs == nil {
		return
	}
	for _, r := range *rs {
		switch a := r.(type) {
		case *ssa.IndexAddr:
			v.stores(a)
		case *ssa.FieldAddr:
			v.stores(a)
		case *ssa.MapUpdate:
			if a.Map == made {
				v.from(a.Value)
			}
		case *ssa.Slice:
			v.elems(a)
		case *ssa.Phi:
			if !v.seen[a] {
				v.seen[a] = true
				v.elems(a)
			}
		}
	}
}

func (v *provenance) stores(addr ssa.Value) {
	for _, r := range *addr.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == addr {
			v.from(s.Val)
		}
	}
}

func (v *provenance) call(ci *ssa.Call, idx int) {
	if b, ok := ci.Call.Value.(*ssa.Builtin); ok {
		_ = b
		for _, a := range ci.Call.Args {
			v.from(a)
		}
		v.elems(ci)
		return
	}
	fs := v.g.direct(ci)
	for _, f := range fs {
		for _, r := range returns(f) {
			if idx < len(r.Results) {
				v.from(r.Results[idx])
			}
		}
	}
	if len(fs) > 0 {
		return
	}
	if f := ci.Call.StaticCallee(); f != nil && f.Signature.Recv() == nil && len(ci.Call.Args) > 0 {
		for _, a := range ci.Call.Args {
			v.from(a)
		}
		return
	}
	v.calls[ci] = true
}

func positive(s string) bool {
	s = strings.ToLower(strings.TrimSpace(s))
	return s == "y" || s == "yes"
}

func readsInput(callee string) bool {
	for _, w := range []string{"fmt.Scan", "fmt.Fscan", "(*bufio.Reader).Read", "(*bufio.Scanner).Text", "(*bufio.Scanner).Bytes", "(*os.File).Read", "io.ReadAll"} {
		if strings.HasPrefix(callee, w) {
			return true
		}
	}
	return false
}

// flagOf: the registration of the command-line flag whose given value t is.
func flagOf(h []*Event, t *Term) *Event {
	if t.Op != "sym" || !strings.HasPrefix(t.Aux, "flag@") {
		return nil
	}
	for _, e := range h {
		if e.Kind == "call" && e.Res != nil && e.Res.Op == "alloc" && strings.HasSuffix(e.Res.Aux, t.Aux[len("flag"):]) && len(e.Args) >= 3 {
			return e
		}
	}
	return nil
}

// confirmed: the user asked for it with a flag that is off by default, or
// gave a positive answer.
func (k *cloud) confirmed(h []*Event) bool {
	for i, e := range h {
		if e.Kind != "branch" || e.Cond == nil || e.Cond.Op == "not" {
			continue
		}
		if r := flagOf(h[:i], e.Cond); r != nil && r.Args[len(r.Args)-2].Op == "false" {
			return true
		}
		var ok bool
		switch e.Cond.Op {
		case "eq":
			ok = true
		case "call":
			ok = e.Cond.Aux == "strings.EqualFold" || e.Cond.Aux == "strings.HasPrefix"
		}
		if !ok || len(e.Cond.Args) != 2 {
			continue
		}
		for j, a := range e.Cond.Args {
			if a.Op == "str" && positive(a.Aux) && k.answer(h[:i], e.Cond.Args[1-j]) {
				return true
			}
		}
	}
	return false
}

// answer: t is made from what the user typed, and is not positive if nothing
// could be read.
func (k *cloud) answer(h []*Event, t *Term) bool {
	for i := len(h) - 1; i >= 0; i-- {
		e := h[i]
		if e.Kind != "call" || !readsInput(e.Callee) {
			continue
		}
		if e.Res != nil && absint.Contains(t, e.Res) {
			return true
		}
		for _, cell := range cellsIn(e.Args) {
			if !absint.Contains(t, cell) {
				continue
			}
			for j := i - 1; j >= 0; j-- {
				if h[j].Kind == "store" && h[j].Args[0] == cell {
					v := h[j].Args[1]
					return v.Op == "str" && !positive(v.Aux) || v.Op == "zero"
				}
			}
			return true
		}
	}
	return false
}

// cellsIn: the variables whose addresses are passed.
func cellsIn(args []*Term) []*Term {
	var out []*Term
	for _, a := range args {
		for _, b := range absint.Atoms(a) {
			if b.Op == "alloc" {
				out = append(out, b)
			}
		}
	}
	return out
}

// label is something a request says about the machines it is for: a tag key
// ("" if the vendor has no keys) and its value.
type label struct {
	key  string
	vals []*Term
	kind string // arg, field, tag, filter
}

// labels lists what an argument of a request says.
func (k *cloud) labels(h []*Event, st *State, t *Term, typ types.Type, depth int) []label {
	if t == nil || depth > 8 {
		return nil
	}
	if t.Op == "iface" {
		return k.labels(h, st, t.Args[0], t.Args[0].Typ, depth+1)
	}
	if typ == nil {
		return nil
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if s, ok := u.Elem().Underlying().(*types.Struct); ok && t.Op != "nil" {
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, st.Peek(k.fa(t, u.Elem(), i)))
			}
			return k.record(h, st, s, fs, depth)
		}
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, k.x.TB.Field(t, typ, i))
		}
		return k.record(h, st, u, fs, depth)
	case *types.Slice:
		var out []label
		for _, e := range k.list(h, t) {
			out = append(out, k.labels(h, st, e, u.Elem(), depth+1)...)
		}
		return out
	}
	return nil
}

func (k *cloud) list(h []*Event, t *Term) []*Term {
	for _, e := range h {
		// a list of texts made one of pointers to them
		if e.Kind == "call" && e.Res == t && e.CallFn != nil && e.CallFn.Signature.Recv() == nil && len(e.Args) == 1 && e.Args[0].Op == "append" {
			return k.list(h, e.Args[0])
		}
	}
	if t.Op != "append" {
		return nil
	}
	return append(k.list(h, t.Args[0]), t.Args[1:]...)
}

// text: the string a pointer to one leads to.
func (k *cloud) text(h []*Event, st *State, t *Term) *Term {
	if t.Typ == nil {
		return nil
	}
	if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return t
	}
	if t.Op == "str" {
		return t
	}
	for _, e := range h {
		if e.Kind == "call" && e.Res == t && e.CallFn != nil && e.CallFn.Signature.Recv() == nil && len(e.Args) == 1 {
			return e.Args[0]
		}
	}
	if t.Op == "alloc" {
		return st.Peek(t)
	}
	return nil
}

func (k *cloud) record(h []*Event, st *State, s *types.Struct, fs []*Term, depth int) []label {
	at := func(name string) *Term {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return fs[i]
			}
		}
		return nil
	}
	str := func(t *Term) (string, bool) {
		if t == nil {
			return "", false
		}
		v := k.text(h, st, t)
		if v == nil || v.Op != "str" {
			return "", false
		}
		return v.Aux, true
	}
	if key, ok := str(at("Key")); ok && at("Value") != nil {
		return []label{{key, []*Term{k.text(h, st, at("Value"))}, "tag"}}
	}
	if name, ok := str(at("Name")); ok && at("Values") != nil {
		l := label{name, nil, "filter"}
		for _, e := range k.list(h, at("Values")) {
			l.vals = append(l.vals, k.text(h, st, e))
		}
		return []label{l}
	}
	var out []label
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if b, ok := ft.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsString != 0 && s.Field(i).Name() == "Tag" {
				out = append(out, label{"", []*Term{fs[i]}, "field"})
			}
			continue
		}
		out = append(out, k.labels(h, st, fs[i], ft, depth+1)...)
	}
	return out
}

// tagged: the request is for machines with the tag the user gave, and which
// flag that is.
func (k *cloud) tagged(h []*Event, e *Event) (flag *Event, key string) {
	cc := e.Instr.(ssa.CallInstruction).Common()
	given := func(t *Term) *Event {
		if t == nil {
			return nil
		}
		r := flagOf(h, t)
		if r == nil || !e.St.F.ProveNe(t, k.x.TB.MkT(t.Typ, "str", "")) {
			return nil
		}
		return r
	}
	args := e.Args
	var ts []types.Type
	if !cc.IsInvoke() || len(args) == len(cc.Args)+1 {
		if cc.IsInvoke() {
			ts = append(ts, cc.Value.Type())
		}
		for _, a := range cc.Args {
			ts = append(ts, a.Type())
		}
	}
	for i, a := range args {
		if i >= len(ts) {
			break
		}
		if r := given(a); r != nil && i > 0 {
			return r, ""
		}
		if i == 0 {
			continue
		}
		for _, l := range k.labels(h, e.St, a, ts[i], 0) {
			if len(l.vals) != 1 {
				continue
			}
			r := given(l.vals[0])
			if r == nil {
				continue
			}
			switch l.kind {
			case "field", "tag":
				return r, l.key
			case "filter":
				if strings.HasPrefix(l.key, "tag:") {
					return r, l.key[len("tag:"):]
				}
			}
		}
	}
	return nil, ""
}

func runC50(c *C) {
	k := &cloud{simp: c.sim("testbed"), g: newConc(c, "testbed")}
	x := k.x
	x.Spawn = true
	x.Snap = func(ci *absint.CallInfo) bool {
		in, ok := ci.Instr.(ssa.CallInstruction)
		return ok && k.request(in.Common()) != ""
	}
	// a request does not change the options it is made with
	x.Reads = x.Snap
	r := k.run("", "main", nil)
	if r == nil {
		return
	}
	segs := c.Segs(append(append([]*Path{}, r.ps...), x.Spawned...))
	type verdict struct {
		confirmed, named bool
		n                int
		why              string
	}
	got := map[ssa.Instruction]*verdict{}
	keys := map[string]map[string]bool{}  // the tag keys, per client
	flags := map[string]map[string]bool{} // the flags the tag comes from
	note := func(m map[string]map[string]bool, a, b string) {
		if m[a] == nil {
			m[a] = map[string]bool{}
		}
		m[a][b] = true
	}
	sources := map[ssa.Instruction]*provenance{}
	seen := map[*Event]bool{}
	for _, s := range segs {
		var h []*Event
		for _, e := range s.P.Events {
			if e.Kind != "call" || e.St == nil || seen[e] {
				continue
			}
			seen[e] = true
			cc := e.Instr.(ssa.CallInstruction).Common()
			what := k.request(cc)
			if what == "ask" {
				continue
			}
			if h == nil {
				h = s.P.History()
			}
			i := 0
			for i < len(h) && h[i] != e {
				i++
			}
			pre := h[:i]
			v := got[e.Instr]
			if v == nil {
				v = &verdict{confirmed: true, named: true}
				got[e.Instr] = v
			}
			v.n++
			v.confirmed = v.confirmed && k.confirmed(pre)
			cl := k.clientName(cc)
			switch {
			case what == "end":
				pv := sources[e.Instr]
				if pv == nil {
					pv = &provenance{g: k.g, seen: map[ssa.Value]bool{}, calls: map[ssa.Instruction]bool{}}
					args := cc.Args
					if !cc.IsInvoke() {
						args = args[1:]
					}
					for _, a := range args {
						if isContext(a.Type()) {
							continue
						}
						pv.from(a)
					}
					sources[e.Instr] = pv
				}
				if len(pv.lost) > 0 || len(pv.calls) == 0 {
					v.named, v.why = false, "the machines it is for cannot be told"
					break
				}
				for ci := range pv.calls {
					if k.request(ci.(ssa.CallInstruction).Common()) != "ask" {
						v.named, v.why = false, "the machines it is for come from "+calleeName(ci.(ssa.CallInstruction).Common())
					}
				}
				found := false
				for j := range pre {
					q := pre[j]
					if q.Kind != "call" || !pv.calls[q.Instr] || q.St == nil {
						continue
					}
					found = true
					fl, key := k.tagged(pre[:j], q)
					if fl == nil {
						v.named, v.why = false, "the machines it is for are listed by "+q.Callee+" without the given tag"
						continue
					}
					note(keys, cl, key)
					note(flags, "", flagName(fl))
				}
				if !found {
					v.named, v.why = false, "the machines it is for were not listed before"
				}
			case k.machines(cc):
				fl, key := k.tagged(pre, e)
				if fl == nil {
					v.named, v.why = false, "what it makes does not carry the given tag, so it cannot be found again"
					break
				}
				note(keys, cl, key)
				note(flags, "", flagName(fl))
			}
		}
	}
	// every request in the program is one of those
	live := k.live(r.fn)
	for _, f := range k.g.fns {
		for _, ci := range calls(f) {
			what := k.request(ci.Common())
			if what == "" || what == "ask" {
				continue
			}
			name := calleeName(ci.Common())
			v := got[ci]
			if v == nil {
				c.Ob(!live[f], "reached", shortFn(f)+" "+name, ci.Pos(), "how %s is reached from the command line cannot be told", name)
				continue
			}
			c.Ob(v.confirmed, "confirmed", shortFn(f)+" "+name, ci.Pos(), "%s can be reached without the user's confirmation", name)
			c.Ob(v.named, "tagged", shortFn(f)+" "+name, ci.Pos(), "%s: %s", name, v.why)
		}
	}
	c.Ob(len(got) > 0, "instances", "testbed", token.NoPos, "no request that changes anything at a vendor is reached from the command line")
	for cl, m := range keys {
		c.Ob(len(m) == 1, "key", cl, token.NoPos, "machines are made and looked for under different tag keys (%s)", strings.Join(sorted(m), ", "))
	}
	for _, m := range flags {
		c.Ob(len(m) == 1, "flag", "testbed", token.NoPos, "the tag comes from different flags (%s)", strings.Join(sorted(m), ", "))
	}
}

// live: what may run when fn does, goroutines and callbacks included.
func (k *cloud) live(fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if out[f] || !k.g.in[f] {
			return
		}
		out[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if t, ok := (*op).(*ssa.Function); ok {
						visit(origin(t))
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range k.g.direct(ci) {
						visit(t)
					}
				}
			}
		}
	}
	visit(fn)
	return out
}

func sorted(m map[string]bool) []string {
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func flagName(e *Event) string {
	n := e.Args[len(e.Args)-3]
	return n.Aux
}

func isContext(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Context" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context"
}

func (k *cloud) clientName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return absint.TypeKey(cc.Value.Type())
	}
	return absint.TypeKey(cc.StaticCallee().Signature.Recv().Type())
}

// machines: the request makes machines.
func (k *cloud) machines(cc *ssa.CallCommon) bool {
	name := calleeName(cc)
	if cc.IsInvoke() {
		name = cc.Method.Name()
	}
	return strings.Contains(name, "Instances") || strings.Contains(k.clientName(cc), "Server")
}
