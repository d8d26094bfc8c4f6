package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

// ---------------------------------------------------------------- C17

const (
	poolGet = "(*sync.Pool).Get"
	poolPut = "(*sync.Pool).Put"
)

func unwrap(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// rootObj is the object an address lies in.
func rootObj(a *Term) *Term {
	for a.Op == "faddr" || a.Op == "iaddr" || a.Op == "hst" {
		a = a.Args[0]
	}
	return a
}

// carries: value v is, or directly contains, the reference o.
func carries(v, o *Term) bool {
	if v == o {
		return true
	}
	switch v.Op {
	case "iface", "append", "appendsl", "struct", "tuple":
		for _, a := range v.Args {
			if carries(a, o) {
				return true
			}
		}
	}
	return false
}

// pooled is an object obtained from a pool on a segment.
type pooled struct {
	o     *Term
	typ   types.Type // pointed-to type; nil for an interface object
	init  map[string]bool
	old   []*Term // values read before reinitialisation
	alive bool
}

func (o *pooled) fields() []string {
	if o.typ == nil {
		return []string{"hst"}
	}
	if s, ok := o.typ.Underlying().(*types.Struct); ok {
		var out []string
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, absint.FieldKey(s.Field(i)))
		}
		return out
	}
	return []string{""}
}

func (o *pooled) missing() string {
	for _, f := range o.fields() {
		if !o.init[f] {
			if i := strings.IndexByte(f, '@'); i >= 0 {
				f = f[:i]
			}
			return f
		}
	}
	return ""
}

func (o *pooled) ready() bool {
	for _, f := range o.fields() {
		if !o.init[f] {
			return false
		}
	}
	return true
}

type poolCheck struct {
	*ltp
	gets, puts map[*Term]map[string]token.Pos // pool -> object types
	inst       map[string]int
}

func ruleC17(l *ltp) {
	c := l.c
	l.x.TraceLoads = true
	k := &poolCheck{ltp: l, gets: map[*Term]map[string]token.Pos{}, puts: map[*Term]map[string]token.Pos{}, inst: map[string]int{}}
	models := l.x.Models
	for _, fn := range c.exportedRoots(l.rel) {
		own := map[string]absint.Model{}
		for n, m := range models {
			if !strings.HasSuffix(n, ")."+fn.Name()) || !strings.HasPrefix(n, "(*ldpc.") {
				own[n] = m
			}
		}
		l.x.Models = own
		rt := l.runFn(fn, nil)
		l.x.Models = models
		k.root(rt)
	}
	k.news()
	for p, gs := range k.gets {
		for t, pos := range gs {
			for u := range k.puts[p] {
				c.Ob(t == u, "pool-type", short(p), pos, "an object of type %s is released to a pool from which objects of type %s are taken", u, t)
			}
		}
	}
	for _, n := range []string{"get", "put", "put-codeword", "put-record"} {
		c.Ob(k.inst[n] > 0, "instances", n, token.NoPos, "no case of kind %s found", n)
	}
}

func short(t *Term) string {
	s := t.String()
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (k *poolCheck) root(rt *ltRoot) {
	c, l := k.c, k.ltp
	for _, sg := range c.Segs(rt.ps) {
		k.segment(rt, sg)
		if rt.fn.Name() == "Free" || l.pcFreed < 0 {
			continue
		}
		key := absint.FieldKey(mustStruct(l.tPC).Field(l.pcFreed))
		for _, e := range evs(sg.P, "store", "") {
			if e.Args[0].Op == "faddr" && e.Args[0].Aux == key {
				v, known := sg.P.St.F.Value(e.Args[1])
				c.Ob(known && !v, "freed", rt.name, e.Pos, "a codeword is marked freed although its user did not free it")
			}
		}
	}
}

func mustStruct(t types.Type) *types.Struct { s, _ := structOf(t); return s }

func (k *poolCheck) segment(rt *ltRoot, sg Seg) {
	c := k.c
	f := sg.P.St.F
	var released []*Term
	var objs []*pooled
	isReleased := func(o *Term) bool {
		for _, r := range released {
			if r == o || f.ProveEq(r, o) {
				return true
			}
		}
		return false
	}
	// touching examines one event against what is released and not yet reinitialised.
	touching := func(e *Event, own bool) {
		for i, a := range e.Args {
			if a == nil {
				continue
			}
			switch {
			case e.Kind == "load" && i == 0, e.Kind == "store" && i == 0, e.Kind == "xor" && i >= 2:
				c.Ob(!isReleased(rootObj(a)), "after-release", rt.name, e.Pos, "%s accesses %s, which was released to a pool before", rt.name, rootObj(a))
			case e.Kind == "store" && i == 2, e.Kind == "enter", e.Kind == "leave", e.Kind == "branch":
			default:
				for _, o := range released {
					c.Ob(!carries(a, o), "after-release", rt.name+" link", e.Pos, "%s uses %s after it was released to a pool", rt.name, o)
				}
			}
		}
		for _, o := range objs {
			if !o.alive {
				continue
			}
			switch e.Kind {
			case "load":
				if rootObj(e.Args[0]) != o.o || o.typ == nil {
					continue
				}
				fl := ""
				if e.Args[0].Op == "faddr" {
					fl = e.Args[0].Aux
				}
				if own && !o.init[fl] && e.Res != nil {
					o.old = append(o.old, e.Res)
				}
			case "store":
				stale := k.stale(sg, o, e.Args[1])
				c.Ob(!stale, "stale", rt.name, e.Pos, "%s stores a value left in an object from a pool: %s", rt.name, e.Args[1])
				if a := e.Args[0]; own && !stale {
					switch {
					case a == o.o:
						for _, n := range o.fields() {
							o.init[n] = true
						}
					case a.Op == "faddr" && a.Args[0] == o.o:
						o.init[a.Aux] = true
					}
				}
			case "branch":
				c.Ob(!k.stale(sg, o, e.Cond), "stale", rt.name, e.Pos, "%s decides on a value left in an object from a pool", rt.name)
			case "call", "xor", "mapset", "append":
				if o.typ == nil && e.Kind == "call" && len(e.Args) > 0 && e.Args[0] == o.o && e.Callee != poolPut {
					if strings.HasSuffix(e.Callee, ").Reset") {
						o.init["hst"] = true
					} else {
						c.Ob(o.ready(), "stale", rt.name, e.Pos, "%s uses a hasher from a pool without resetting it first", rt.name)
					}
					continue
				}
				for _, a := range e.Args {
					if a != nil {
						c.Ob(!k.stale(sg, o, a), "stale", rt.name, e.Pos, "%s uses a value left in an object from a pool: %s", rt.name, a)
					}
				}
			}
		}
	}
	var nested func(lp *Loop)
	nested = func(lp *Loop) {
		for _, b := range lp.Backs {
			for _, e := range b.Events {
				if e.Kind == "loop" {
					nested(e.Loop)
					continue
				}
				if len(released) > 0 {
					touching(e, false)
				}
				for _, o := range objs {
					if e.Kind == "load" && o.alive && e.Args[0].Op == "faddr" && o.typ != nil {
						fl := e.Args[0].Aux
						in := false
						for _, n := range o.fields() {
							in = in || n == fl
						}
						c.Ob(!in || o.init[fl], "stale", rt.name, e.Pos, "%s may read a value left in an object from a pool", rt.name)
					}
				}
			}
		}
	}
	for _, e := range sg.P.Events {
		switch {
		case e.Kind == "loop":
			nested(e.Loop)
		case e.Kind == "call" && e.Callee == poolGet:
			k.inst["get"]++
			o := &pooled{o: e.Res, init: map[string]bool{}, alive: true}
			// the object itself: what the assertion made of it
			if a := k.object(sg, e); a != nil {
				o.o = a
				o.typ = pointee(a)
			}
			tk := "interface"
			if o.typ != nil {
				tk = absint.TypeKey(o.typ)
			}
			note(k.gets, e.Args[0], tk, e.Pos)
			objs = append(objs, o)
		case e.Kind == "call" && e.Callee == poolPut:
			o := unwrap(e.Args[1])
			k.inst["put"]++
			c.Ob(!isReleased(o), "twice", rt.name, e.Pos, "%s releases an object to a pool twice", rt.name)
			tk := "interface"
			if t := pointee(o); t != nil {
				tk = absint.TypeKey(t)
			}
			note(k.puts, e.Args[0], tk, e.Pos)
			if sg.Loop != nil {
				c.Ob(k.ownRound(sg, o, objs), "twice", rt.name+" loop", e.Pos, "%s releases the same object on every round of a loop", rt.name)
			}
			for _, p := range objs {
				if p.o == o {
					p.alive = false
				}
			}
			if complete(sg) {
				k.releasable(rt, sg, o, e)
			}
			released = append(released, o)
		case e.Kind == "defer":
		default:
			touching(e, true)
		}
	}
	for _, v := range sg.P.Vals {
		for _, o := range released {
			c.Ob(!carries(v, o), "after-release", rt.name+" return", sg.P.Pos, "%s returns an object that it released to a pool", rt.name)
		}
		for _, o := range objs {
			c.Ob(!k.stale(sg, o, v), "stale", rt.name+" return", sg.P.Pos, "%s returns a value left in an object from a pool", rt.name)
		}
	}
	if complete(sg) {
		for _, o := range objs {
			if o.alive {
				c.Ob(o.ready(), "reinit", rt.name, sg.P.Pos, "%s keeps an object from a pool without reinitialising its field %s", rt.name, o.missing())
			}
		}
	}
}

func note(m map[*Term]map[string]token.Pos, p *Term, t string, pos token.Pos) {
	if m[p] == nil {
		m[p] = map[string]token.Pos{}
	}
	m[p][t] = pos
}

// object: the typed object an assertion made of a pool's answer.
func (k *poolCheck) object(sg Seg, get *Event) *Term {
	name := "pool:" + get.Res.Aux
	if refs := get.Instr.(ssa.Value).Referrers(); refs != nil {
		for _, r := range *refs {
			if ta, ok := r.(*ssa.TypeAssert); ok && !types.IsInterface(ta.AssertedType) {
				return k.x.TB.MkT(ta.AssertedType, "alloc", name)
			}
		}
	}
	return nil
}

// stale: v contains a value read from o before it was reinitialised, other
// than the storage of a list cut to length zero.
func (k *poolCheck) stale(sg Seg, o *pooled, v *Term) bool {
	if v == nil || len(o.old) == 0 {
		return false
	}
	if v.Op == "slice" && sg.P.St.F.Entails(k.x.TB.Le(k.x.TB.Len(v), k.x.TB.Int(0))) {
		return false
	}
	for _, r := range o.old {
		if v == r {
			return true
		}
	}
	for _, a := range v.Args {
		if k.stale(sg, o, a) {
			return true
		}
	}
	return false
}

// ownRound: o is obtained in this round of the loop or depends on it.
func (k *poolCheck) ownRound(sg Seg, o *Term, objs []*pooled) bool {
	for _, p := range objs {
		if p.o == o {
			return true
		}
	}
	for _, v := range sg.Loop.Vars {
		if mentions(o, v.LV) {
			return true
		}
	}
	return false
}

// releasable: nothing can reach o any more.
func (k *poolCheck) releasable(rt *ltRoot, sg Seg, o *Term, e *Event) {
	c, l, tb := k.c, k.ltp, k.x.TB
	t := pointee(o)
	if t == nil {
		return
	}
	st := sg.P.St
	switch absint.TypeKey(t) {
	case absint.TypeKey(l.tPC):
		k.inst["put-codeword"]++
		for _, i := range []int{l.pcDec, l.pcFreed} {
			v, known := st.F.Value(st.Peek(l.fa(o, l.tPC, i)))
			c.Ob(known && v, "release-codeword", rt.name, e.Pos, "%s releases a codeword that is not known to be both decoded and freed", rt.name)
		}
	case absint.TypeKey(l.tPT):
		k.inst["put-record"]++
		// no codeword waits for it: it has been peeled from all of them, or there are none
		blk := st.Peek(l.fa(o, l.tPT, l.ptBlk))
		ok := st.F.Entails(tb.Le(tb.Len(blk), tb.Int(0)))
		for _, ev := range evs(sg.P, "loop", "") {
			if len(ev.Loop.Backs) > 0 {
				b0 := ev.Loop.HeadSt.Peek(l.fa(o, l.tPT, l.ptBlk))
				if _, cov := l.counter(ev.Loop, []*Path{sg.P}, tb.Len(b0)); cov {
					ok = true
				}
			}
		}
		c.Ob(ok, "release-record", rt.name, e.Pos, "%s releases a pending record while codewords may wait for it", rt.name)
		if len(rt.args) == 0 || pointee(rt.args[0]) == nil || absint.TypeKey(pointee(rt.args[0])) != absint.TypeKey(l.tDec) {
			c.Fail("release-record", rt.name, e.Pos, "%s releases a pending record outside the decoder", rt.name)
			return
		}
		// and the table does not list it
		d := rt.args[0]
		from := sg.From
		if from == nil {
			from = rt.st0
		}
		pend0, pend1 := l.table(from, d, l.dPend), l.table(st, d, l.dPend)
		key := from.Peek(l.fa(o, l.tPT, l.ptKey))
		drops := func(m *Term) bool {
			for m != pend0 && (m.Op == "mdel" || m.Op == "mput") {
				if m.Op == "mdel" && (st.F.ProveEq(m.Args[1], key) || o.Op == "mget" && st.F.ProveEq(m.Args[1], o.Args[1])) {
					return true
				}
				m = m.Args[0]
			}
			return false
		}
		gone := drops(pend1)
		for _, lv := range rt.idx[pend1] { // removed before a loop that leaves the rest alone
			if !gone && onPath(sg.P, lv.l) {
				gone = drops(lv.v.Entry)
			}
		}
		c.Ob(gone, "release-record", rt.name+" table", e.Pos, "%s releases a pending record that the decoder's table may still list", rt.name)
	}
}

// news: every pool makes objects of their own.
func (k *poolCheck) news() {
	c := k.c
	pkg := c.P.Pkgs[k.rel]
	if pkg == nil {
		c.Fail("anchor", k.rel, token.NoPos, "package %s not found", k.rel)
		return
	}
	for g := range k.gets {
		found := false
		for _, m := range pkg.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || fn.Name() != "init" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || !holdsGlobal(fa.X, g) {
						continue
					}
					nf, ok := s.Val.(*ssa.Function)
					if !ok {
						continue
					}
					found = true
					st := k.x.NewState()
					for _, p := range c.Run(k.x, nf, st, nil) {
						if p.Kind != "return" {
							continue
						}
						v := unwrap(p.Vals[0])
						own := v.Op == "alloc"
						for _, e := range evs(p, "call", "") {
							own = own || v == e.Res || len(v.Args) > 0 && v.Args[0] == e.Res
						}
						c.Ob(own, "new", short(g), p.Pos, "the pool %s hands out %s, not an object of its own", short(g), v)
						if t := pointee(v); t != nil && v.Op == "alloc" {
							for want := range k.gets[g] {
								c.Ob(want == absint.TypeKey(t), "pool-type", short(g), p.Pos, "the pool %s makes objects of type %s but hands out %s", short(g), absint.TypeKey(t), want)
							}
						}
					}
				}
			}
		}
		c.Ob(found, "new", short(g), token.NoPos, "how the pool %s makes objects cannot be determined", short(g))
	}
}

// holdsGlobal: v is the address of global g, or of the literal stored in it.
func holdsGlobal(v ssa.Value, g *Term) bool {
	is := func(w ssa.Value) bool {
		gl, ok := w.(*ssa.Global)
		return ok && strings.HasSuffix(g.String(), "/"+gl.Pkg.Pkg.Name()+"."+gl.Name())
	}
	if is(v) {
		return true
	}
	if refs := v.Referrers(); refs != nil {
		for _, r := range *refs {
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL && u.Referrers() != nil {
				for _, q := range *u.Referrers() {
					if s, ok := q.(*ssa.Store); ok && is(s.Addr) {
						return true
					}
				}
			}
		}
	}
	return false
}
