package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one observable step on an abstract path.
type Event struct {
	Kind   string // store, mapset, mapdel, call, xor, go, defer, send, recv, select, close, loop, branch, panic, enter, leave
	Pos    token.Pos
	Fn     *ssa.Function // function executing the step
	Callee string        // call: resolved callee key ("pkg.Func", "(T).Method", "iface.Method", builtin name)
	CallFn *ssa.Function // call: static callee if any
	Args   []*Term       // call arguments (receiver first); store: addr, value, old; mapset: ref, key, val; send: chan, val; recv: chan
	Res    *Term
	Loop   *LoopRec
	Cond   *Term // branch: condition assumed true on this path
	Async  bool
	Instr  ssa.Instruction
	Pre    []*Term // call: what each byte slice argument held before the call
	Post   []*Term // call: and after it
	Case   int     // select: the case taken
	Ok     *Term   // recv: whether a value was received, if asked for
	St     *State  // call: the state at the call, if selected by Exec.Snap
}

type evNode struct {
	e    *Event
	prev *evNode
}

// LVInfo describes one loop-carried value.
type LVInfo struct {
	LV    *Term
	Entry *Term
	Phi   *ssa.Phi // or
	Loc   *Term    // memory location
}

// LoopRec is the summary of one loop on a path.
type LoopRec struct {
	ID     string
	Fn     *ssa.Function
	Pos    token.Pos
	Vars   []*LVInfo
	Backs  []*Path // one per abstract iteration path (ends at the back edge)
	Havoc  []*Term // generalised addresses the loop may change
	HeadSt *State
}

// Var returns the loop variable record for a term.
func (r *LoopRec) Var(t *Term) *LVInfo {
	for _, v := range r.Vars {
		if v.LV == t {
			return v
		}
	}
	return nil
}

// Back returns the value a loop variable has at the end of iteration path p.
func (r *LoopRec) Back(p *Path, v *LVInfo) *Term {
	if v.Phi != nil {
		return p.PhiVals[v.Phi]
	}
	return p.St.Peek(v.Loc)
}

// Path is a completed abstract path.
type Path struct {
	Kind    string // return, panic, exit, back
	Vals    []*Term
	St      *State
	Events  []*Event
	PhiVals map[*ssa.Phi]*Term
	Pos     token.Pos
	Fn      *ssa.Function
	Pred    *ssa.BasicBlock
	Go      *Event // what started the goroutine whose way it is (Spawned)
}

// History lists all steps that led to the end of the path, those before the
// loop it is an iteration of included.
func (p *Path) History() []*Event { return p.St.eventsSince(nil) }

type histNode struct {
	loc  *Term // may contain "any"
	ver  *Term
	prev *histNode
	key  *Term // loop-carried value if loc is exact
}

type atomNode struct {
	t    *Term
	prev *atomNode
}

type deferred struct {
	call  *ssa.CallCommon
	args  []*Term
	fnval *Term
	pos   token.Pos
	next  *deferred
}

// State is an abstract machine state (one trace partition).
type State struct {
	ex      *Exec
	mem     map[*Term]*Term
	hist    map[string]*histNode
	F       *Facts
	ev      *evNode
	cnt     map[string]int
	created *atomNode
	regs    map[ssa.Value]*Term
	defers  *deferred
	escaped map[*Term]bool
	depth   int
	within  map[*Term]bool // closures whose effects are being removed
}

func (s *State) clone() *State {
	n := &State{ex: s.ex, F: s.F.clone(), ev: s.ev, created: s.created, defers: s.defers, depth: s.depth}
	n.mem = make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.hist = make(map[string]*histNode, len(s.hist)+2)
	for k, v := range s.hist {
		n.hist[k] = v
	}
	n.cnt = make(map[string]int, len(s.cnt)+2)
	for k, v := range s.cnt {
		n.cnt[k] = v
	}
	n.regs = make(map[ssa.Value]*Term, len(s.regs)+4)
	for k, v := range s.regs {
		n.regs[k] = v
	}
	n.escaped = make(map[*Term]bool, len(s.escaped))
	for k := range s.escaped {
		n.escaped[k] = true
	}
	return n
}

func (s *State) emit(e *Event) { s.ev = &evNode{e, s.ev} }

func (s *State) eventsSince(m *evNode) []*Event {
	var r []*Event
	for n := s.ev; n != m && n != nil; n = n.prev {
		r = append(r, n.e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) fresh(op, base string, typ types.Type) *Term {
	n := s.cnt[base]
	s.cnt[base] = n + 1
	name := base
	if n > 0 {
		name = fmt.Sprintf("%s#%d", base, n)
	}
	t := s.ex.TB.MkT(typ, op, name)
	s.created = &atomNode{t, s.created}
	return t
}

// ---- memory

func class(a *Term) string {
	switch a.Op {
	case "faddr":
		return "f:" + a.Aux
	case "iaddr":
		return "e:" + a.Aux
	case "mapc":
		return "m:" + a.Aux
	case "hst":
		return "h"
	case "global":
		return "g:" + a.Aux
	}
	k := "?"
	if a.Typ != nil {
		if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
			k = TypeKey(p.Elem())
		}
	}
	return "p:" + k
}

// FieldAddr is &base.f for field i of struct type st.
func (x *Exec) FieldAddr(base *Term, st types.Type, i int) *Term {
	s := st.Underlying().(*types.Struct)
	f := s.Field(i)
	return x.TB.mk("faddr", FieldKey(f), []*Term{base}, func(t *Term) {
		t.Typ = types.NewPointer(f.Type())
		t.Obj = f
	})
}

// IndexAddr is &base[idx]; base is a slice value or an array address.
func (s *State) IndexAddr(base, idx *Term, elem types.Type) *Term {
	tb := s.ex.TB
	for {
		switch base.Op {
		case "slice":
			idx = tb.Add(base.Args[1], idx)
			base = base.Args[0]
			continue
		case "slicearr":
			idx = tb.Add(base.Args[1], idx)
			base = base.Args[0]
			continue
		case "append", "appendsl":
			if s.F.Entails(tb.Lt(idx, tb.Len(base.Args[0]))) {
				base = base.Args[0]
				continue
			}
		}
		break
	}
	return tb.mk("iaddr", TypeKey(elem), []*Term{base, idx}, func(t *Term) { t.Typ = types.NewPointer(elem) })
}

// root strips sequence structure from a slice value.
func root(t *Term) *Term {
	for {
		switch t.Op {
		case "slice", "append", "appendsl", "slicearr":
			t = t.Args[0]
			continue
		}
		return t
	}
}

func (s *State) mayAlias(a, b *Term) bool {
	if a == b || a.Op == "any" || b.Op == "any" {
		return true
	}
	if a.Op != b.Op {
		// a bare pointer may point to any heap object but not into a fresh, unescaped one
		ptr := func(t *Term) bool {
			return t.Op != "faddr" && t.Op != "iaddr" && t.Op != "global" && t.Op != "mapc" && t.Op != "hst"
		}
		if ptr(a) && ptr(b) {
			if (a.Op == "alloc" && !s.mayPointTo(b, a)) || (b.Op == "alloc" && !s.mayPointTo(a, b)) {
				return false
			}
			if a.Op == "nil" || b.Op == "nil" {
				return false
			}
			return !s.F.ProveNe(a, b)
		}
		if ptr(a) && b.Op == "iaddr" || ptr(b) && a.Op == "iaddr" {
			p := a
			if !ptr(a) {
				p = b
			}
			// pointers into slices arise as phi/loop values only
			return p.Op == "lv" || p.Op == "any"
		}
		return false
	}
	switch a.Op {
	case "faddr":
		if a.Aux != b.Aux {
			return false
		}
		return s.mayAlias(a.Args[0], b.Args[0])
	case "iaddr":
		if a.Aux != b.Aux {
			return false
		}
		ra, rb := a.Args[0], b.Args[0]
		if !s.mayShare(ra, rb) {
			return false
		}
		if a.Args[1].Op == "any" || b.Args[1].Op == "any" {
			return true
		}
		if ra == rb || root(ra) == root(rb) {
			return !s.F.ProveNe(a.Args[1], b.Args[1])
		}
		return true
	case "mapc", "hst":
		return a.Aux == b.Aux && s.mayAlias(a.Args[0], b.Args[0])
	case "alloc", "global":
		return false
	}
	return !s.F.ProveNe(a, b)
}

// mayPointTo: can pointer value p equal the fresh allocation al?
func (s *State) mayPointTo(p, al *Term) bool {
	if !s.escaped[al] {
		return p.Op == "lv" || p.Op == "phi"
	}
	switch p.Op {
	case "load":
		return p.Args[1].Aux != "0"
	case "sym":
		return p.Obj != "param"
	}
	return true
}

// mayShare: may two slice values share a backing array (ownership assumption:
// slices read from different fields, or fields of different objects, do not).
func (s *State) mayShare(a, b *Term) bool {
	a, b = root(a), root(b)
	if a == b || a.Op == "any" || b.Op == "any" {
		return true
	}
	al := func(t *Term) *Term {
		if t.Op == "load" {
			return t.Args[0]
		}
		if t.Op == "lv" {
			if l, ok := t.Obj.(*Term); ok {
				return l
			}
		}
		return nil
	}
	la, lb := al(a), al(b)
	if la != nil && lb != nil {
		return s.mayAlias(la, lb)
	}
	fresh := func(t *Term) bool { return t.Op == "makeslice" || t.Op == "nil" }
	if fresh(a) && (lb != nil || fresh(b)) || fresh(b) && la != nil {
		return false
	}
	// the array behind the variadic arguments of an append is not kept by anyone
	vararg := func(t *Term) bool {
		return t.Op == "alloc" && strings.HasPrefix(t.Aux, "varargs@") && !s.escaped[t]
	}
	if vararg(a) && lb != nil || vararg(b) && la != nil {
		return false
	}
	if a.Op == "alloc" || b.Op == "alloc" {
		return s.mayAlias(a, b)
	}
	if a.Op == "faddr" || b.Op == "faddr" || a.Op == "global" || b.Op == "global" {
		if a.Op == b.Op {
			return s.mayAlias(a, b)
		}
		return false
	}
	return true
}

func (s *State) version(loc *Term) (*Term, *Term) {
	return s.versionFrom(loc, s.hist[class(loc)], 0)
}

func (s *State) versionFrom(loc *Term, n *histNode, depth int) (*Term, *Term) {
	for ; n != nil; n = n.prev {
		if s.mayAlias(n.loc, loc) {
			if n.key != nil && s.mustAlias(n.loc, loc) {
				return n.ver, n.key
			}
			// an exchange: whether or not the two elements are the same one, the
			// later write leaves here what was there before it
			if n.key != nil && depth < 2 {
				if i, j := diffIndex(loc, n.loc); i != nil {
					ver, key := s.versionFrom(loc, n.prev, depth+1)
					if key != nil && eqMod(key, n.key, i, j, 6) {
						return ver, key
					}
				}
			}
			return n.ver, nil
		}
	}
	return s.ex.v0, nil
}

// diffIndex: the indices of two element (field) addresses of the same list that
// differ in nothing else.
func diffIndex(a, b *Term) (*Term, *Term) {
	for a.Op == "faddr" && b.Op == "faddr" && a.Aux == b.Aux {
		a, b = a.Args[0], b.Args[0]
	}
	if a.Op == "iaddr" && b.Op == "iaddr" && a.Aux == b.Aux && a.Args[0] == b.Args[0] && a.Args[1] != b.Args[1] && !hasAny(a) && !hasAny(b) {
		return a.Args[1], b.Args[1]
	}
	return nil, nil
}

// eqMod: the terms are equal if i equals j.
func eqMod(a, b, i, j *Term, depth int) bool {
	if a == b || a == i && b == j || a == j && b == i {
		return true
	}
	if depth == 0 || a.Op != b.Op || a.Aux != b.Aux || a.Num != b.Num || a.Op == "lin" || len(a.Args) != len(b.Args) || len(a.Args) == 0 {
		return false
	}
	for k := range a.Args {
		if !eqMod(a.Args[k], b.Args[k], i, j, depth-1) {
			return false
		}
	}
	return true
}

// mustAlias: two addresses are known to be the same location.
func (s *State) mustAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op != b.Op || a.Aux != b.Aux || hasAny(a) || hasAny(b) {
		return false
	}
	switch a.Op {
	case "faddr", "mapc", "hst":
		return s.mustAlias(a.Args[0], b.Args[0])
	case "iaddr":
		return s.mustAlias(a.Args[0], b.Args[0]) && s.F.ProveEq(a.Args[1], b.Args[1])
	case "num", "lin", "true", "false", "nil", "str", "global":
		return false
	}
	return s.F.ProveEq(a, b)
}

// Peek returns the current value of a leaf location.
func (s *State) Peek(loc *Term) *Term {
	if v, ok := s.mem[loc]; ok {
		return v
	}
	tb := s.ex.TB
	var typ types.Type
	if loc.Typ != nil {
		if p, ok := loc.Typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
		}
	}
	// components of appended elements, fresh slices and values held in terms
	if v := s.seqValue(loc, typ); v != nil {
		s.mem[loc] = v
		return v
	}
	ver, key := s.version(loc)
	if key != nil {
		s.mem[loc] = key
		return key
	}
	v := tb.mk("load", "", []*Term{loc, ver}, func(t *Term) { t.Typ = typ })
	s.mem[loc] = v
	return v
}

// seqValue resolves loads from the elements of append/makeslice terms.
func (s *State) seqValue(loc *Term, typ types.Type) *Term {
	tb := s.ex.TB
	var fields []*Term
	a := loc
	for a.Op == "faddr" {
		fields = append(fields, a)
		a = a.Args[0]
	}
	if a.Op != "iaddr" {
		return nil
	}
	base, idx := a.Args[0], a.Args[1]
	var v *Term
	switch base.Op {
	case "append":
		l0 := tb.Len(base.Args[0])
		for i := 1; i < len(base.Args); i++ {
			if s.F.Entails(tb.Eq(idx, tb.AddK(l0, int64(i-1)), true)) {
				v = base.Args[i]
				break
			}
		}
	case "makeslice":
		if s.hist[class(loc)] == nil || func() bool { ver, k := s.version(loc); return ver == s.ex.v0 && k == nil }() {
			if typ != nil {
				return tb.Zero(typ)
			}
		}
		return nil
	}
	if v == nil {
		return nil
	}
	if ver, k := s.version(loc); ver != s.ex.v0 || k != nil {
		return nil
	}
	for i := len(fields) - 1; i >= 0; i-- {
		f := fields[i].Obj.(*types.Var)
		v = s.ex.fieldOf(v, f)
	}
	return v
}

func (x *Exec) fieldOf(v *Term, f *types.Var) *Term {
	if v.Op == "agg" {
		st := v.Typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if FieldKey(st.Field(i)) == FieldKey(f) {
				return v.Args[i]
			}
		}
	}
	if v.Op == "zero" {
		return x.TB.Zero(f.Type())
	}
	return x.TB.mk("field", FieldKey(f), []*Term{v}, func(t *Term) { t.Typ = f.Type(); t.Obj = f })
}

// Load reads a value of type typ at addr, field by field for module structs.
func (s *State) Load(addr *Term, typ types.Type) *Term {
	if Decomposable(typ) {
		st := typ.Underlying().(*types.Struct)
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = s.Load(s.ex.FieldAddr(addr, typ, i), st.Field(i).Type())
		}
		return s.ex.TB.Agg(typ, args)
	}
	return s.Peek(addr)
}

// Store writes a value, field by field for module structs.
func (s *State) Store(addr, val *Term, typ types.Type) {
	if Decomposable(typ) {
		st := typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			s.Store(s.ex.FieldAddr(addr, typ, i), s.ex.TB.Field(val, typ, i), st.Field(i).Type())
		}
		return
	}
	s.poke(addr, val)
	s.parts(addr, val, typ)
}

// parts: the fields of a structure kept as a whole that can be looked at apart.
func (s *State) parts(addr, val *Term, typ types.Type) {
	st, ok := foreign(typ)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		fa := s.ex.FieldAddr(addr, typ, i)
		if st.Field(i).Exported() || s.hist[class(fa)] != nil {
			v := s.ex.TB.Field(val, typ, i)
			s.put(fa, v)
			s.parts(fa, v, st.Field(i).Type())
		}
	}
}

// foreign: a structure that is kept as a whole.
func foreign(t types.Type) (*types.Struct, bool) {
	if t == nil || Decomposable(t) {
		return nil, false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return nil, false
	}
	st, ok := t.Underlying().(*types.Struct)
	return st, ok
}

// note records the content of a freshly appended element; nothing else can hold
// a view of it yet, so no other location changes.
func (s *State) note(addr, val *Term, typ types.Type) {
	if Decomposable(typ) {
		st := typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			s.note(s.ex.FieldAddr(addr, typ, i), s.ex.TB.Field(val, typ, i), st.Field(i).Type())
		}
		return
	}
	s.mem[addr] = val
}

func (s *State) put(addr, val *Term) {
	c := class(addr)
	for k := range s.mem {
		if k != addr && class(k) == c && s.mayAlias(k, addr) {
			delete(s.mem, k)
		}
	}
	s.hist[c] = &histNode{loc: addr, ver: s.fresh("ver", "w", nil), prev: s.hist[c], key: val}
	s.mem[addr] = val
	s.markEscape(val)
}

func (s *State) poke(addr, val *Term) {
	s.put(addr, val)
	// a structure kept as a whole changes with its field
	if addr.Op == "faddr" && addr.Args[0].Typ != nil {
		if p, ok := addr.Args[0].Typ.Underlying().(*types.Pointer); ok {
			if _, ok := foreign(p.Elem()); ok {
				b := addr.Args[0]
				s.poke(b, s.ex.TB.MkT(p.Elem(), "upd", addr.Aux, s.Peek(b), val))
			}
		}
	}
}

func (s *State) markEscape(v *Term) {
	if v == nil {
		return
	}
	if v.Op == "alloc" {
		s.escaped[v] = true
		return
	}
	for _, a := range v.Args {
		if a.Op != "load" {
			s.markEscape(a)
		}
	}
}

// havoc forgets everything that may alias the generalised address loc. If key
// is non-nil, loc is exact and reads as key afterwards.
func (s *State) havoc(loc *Term, key *Term) {
	c := class(loc)
	for k := range s.mem {
		if class(k) == c && (s.mayAlias(k, loc)) {
			delete(s.mem, k)
		}
	}
	s.hist[c] = &histNode{loc: loc, ver: s.fresh("ver", "w", nil), prev: s.hist[c], key: key}
	if key != nil {
		s.mem[loc] = key
	}
}

// havocClass forgets every location of a class.
func (s *State) havocClass(sample *Term) {
	c := class(sample)
	for k := range s.mem {
		if class(k) == c {
			delete(s.mem, k)
		}
	}
	s.hist[c] = &histNode{loc: s.ex.TB.Any(), ver: s.fresh("ver", "w", nil), prev: s.hist[c]}
}

// MapContent is the current content term of a map reference.
func (s *State) mapLoc(ref *Term) *Term {
	k := "?"
	if ref.Typ != nil {
		k = TypeKey(ref.Typ)
	}
	return s.ex.TB.mk("mapc", k, []*Term{ref}, nil)
}
func (s *State) MapContent(ref *Term) *Term {
	if ref.Op == "nil" {
		return s.ex.TB.Mk("mempty", "")
	}
	return s.Peek(s.mapLoc(ref))
}

// MapHas evaluates membership of key in map content m.
func (s *State) MapHas(m, key *Term) *Term {
	tb := s.ex.TB
	for {
		switch m.Op {
		case "mempty":
			return tb.Bool(false)
		case "mput":
			if s.F.ProveEq(m.Args[1], key) {
				return tb.Bool(true)
			}
			if s.F.ProveNe(m.Args[1], key) {
				m = m.Args[0]
				continue
			}
		case "mdel":
			if s.F.ProveEq(m.Args[1], key) {
				return tb.Bool(false)
			}
			if s.F.ProveNe(m.Args[1], key) {
				m = m.Args[0]
				continue
			}
		}
		return tb.Mk("mhas", "", m, key)
	}
}

// MapGet evaluates m[key]; has must be MapHas(m,key).
func (s *State) MapGet(m, key *Term, elem types.Type) *Term {
	tb := s.ex.TB
	for {
		switch m.Op {
		case "mempty":
			return tb.Zero(elem)
		case "mput":
			if s.F.ProveEq(m.Args[1], key) {
				return m.Args[2]
			}
			if s.F.ProveNe(m.Args[1], key) {
				m = m.Args[0]
				continue
			}
		case "mdel":
			if s.F.ProveEq(m.Args[1], key) {
				return tb.Zero(elem)
			}
			if s.F.ProveNe(m.Args[1], key) {
				m = m.Args[0]
				continue
			}
		}
		if v, k := s.F.Value(tb.Mk("mhas", "", m, key)); k && !v {
			return tb.Zero(elem)
		}
		return tb.mk("mget", "", []*Term{m, key}, func(t *Term) { t.Typ = elem })
	}
}

// Mem exposes the memory for rules.
func (s *State) Mem() map[*Term]*Term { return s.mem }

// Written reports the locations changed since the start of analysis (exact ones
// and generalised ones), newest first.
func (s *State) Written(c string) []*Term {
	var r []*Term
	for n := s.hist[c]; n != nil; n = n.prev {
		r = append(r, n.loc)
	}
	return r
}

// Classes lists the memory classes that have been written.
func (s *State) Classes() []string {
	var r []string
	for k := range s.hist {
		r = append(r, k)
	}
	return r
}
