package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

func init() {
	register(&Rule{ID: "C43", Pkgs: []string{"node"}, MinObl: 12, Run: ruleC43,
		What: "the goroutines of the node are told apart by the codec calls they make and the channels by who receives from them; then on every iteration path: what a side receives is given to its codec exactly once, the list a decoder returns is sent on element by element and nothing else is, the controller sends what it receives to every peer exactly once on each channel it is due on (the loop over the peers covers the whole list), a new peer is added to that list, and a codeword read from or written to the connection is the one handed on"})
}

// nodep holds the goroutines of the node by what they do and the channels by
// what they carry.
type nodep struct {
	*simp
	g       *conc
	E, D, K []*groot
	R, W    []*groot
	role    map[ssa.Value]string // channel -> toEnc, toDec, local, decoded, peer, rxq, txq, loss
	fieldOf map[*types.Var]string
	bad     bool
	tDec    types.Type // ldpc.DecodedTransaction
	tCW     types.Type // the node's codeword
	iCW     int        // its field with the codec's codeword
	dTx     int        // fields of DecodedTransaction
	dExp    int
	done    map[*ssa.Function]*ltRoot
	cls     map[*Term]any // loop variables of inner loops -> what they continue
}

func ptrTo(name string) func(types.Type) bool {
	return func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := p.Elem().(*types.Named)
		return ok && n.Obj().Name() == name
	}
}

func fieldsOfType(t types.Type, pred func(types.Type) bool) []int {
	s, ok := structOf(t)
	var out []int
	for i := 0; ok && i < s.NumFields(); i++ {
		if pred(s.Field(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

func (c *C) node() *nodep {
	n := &nodep{simp: c.sim("node"), role: map[ssa.Value]string{}, fieldOf: map[*types.Var]string{}, done: map[*ssa.Function]*ltRoot{}, iCW: -1}
	g := newConc(c, "node")
	n.g = g
	if !g.program("node") {
		n.bad = true
		return n
	}
	has := func(r *groot, callee string) bool {
		for f := range r.reach {
			for _, ci := range calls(f) {
				if !ci.Common().IsInvoke() && calleeName(ci.Common()) == callee {
					return true
				}
			}
		}
		return false
	}
	chanElem := func(v ssa.Value) types.Type { return v.Type().Underlying().(*types.Chan).Elem() }
	recv, send := g.parties()
	var all []ssa.Value
	for ch := range recv {
		if isChan(ch.Type()) {
			all = append(all, ch)
		}
	}
	for ch := range send {
		if isChan(ch.Type()) && recv[ch] == nil {
			all = append(all, ch)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Pos() < all[j].Pos() })
	isDT := func(t types.Type) bool {
		nm := namedOf(t)
		return nm != nil && nm.Obj().Name() == "DecodedTransaction"
	}
	// exactly the programs' own goroutines
	for _, r := range g.roots {
		if r.name == "main" {
			continue
		}
		if has(r, "(*ldpc.Encoder).ProduceCodeword") {
			n.E = append(n.E, r)
		}
		if has(r, "(*ldpc.Decoder).AddCodeword") {
			n.D = append(n.D, r)
		}
		if has(r, "(*gob.Decoder).Decode") {
			n.R = append(n.R, r)
		}
		if has(r, "(*gob.Encoder).Encode") {
			n.W = append(n.W, r)
		}
	}
	for _, ch := range all {
		if isDT(chanElem(ch)) {
			for r := range recv[ch] {
				n.K = append(n.K, r)
			}
		}
	}
	for what, rs := range map[string][]*groot{"encoding": n.E, "decoding": n.D, "relaying": n.K, "reading": n.R, "writing": n.W} {
		if !c.Ob(len(rs) == 1, "goroutines", what, token.NoPos, "the node has %d goroutines for %s, not one", len(rs), what) {
			n.bad = true
		}
	}
	if n.bad {
		return n
	}
	only := func(m map[*groot]bool, r *groot) bool { return len(m) == 1 && m[r] }
	E, D, K, R, W := n.E[0], n.D[0], n.K[0], n.R[0], n.W[0]
	for _, ch := range all {
		t := chanElem(ch)
		rs, ss := recv[ch], send[ch]
		if len(rs)+len(ss) == 0 {
			continue // only in functions nothing runs
		}
		switch {
		case isDT(t):
			n.tDec = t
			n.role[ch] = "decoded"
		case ptrTo("Transaction")(t):
			switch {
			case only(rs, E):
				n.role[ch] = "toEnc"
			case only(rs, D):
				n.role[ch] = "toDec"
			case only(rs, K):
				n.role[ch] = "local"
			default:
				c.Fail("channels", chanName(ch), ch.Pos(), "transactions sent on the channel made at %s are not received by exactly one of the encoding, decoding and relaying goroutines", chanPos(c, ch))
			}
		case len(fieldsOfType(t, ptrTo("Codeword"))) == 1:
			n.tCW, n.iCW = t, fieldsOfType(t, ptrTo("Codeword"))[0]
			switch {
			case only(rs, D) && only(ss, R):
				n.role[ch] = "rxq"
			case only(rs, W) && only(ss, E):
				n.role[ch] = "txq"
			default:
				c.Fail("channels", chanName(ch), ch.Pos(), "codewords sent on the channel made at %s do not go from reading to decoding or from encoding to writing", chanPos(c, ch))
			}
		case isBasicInt(t) && only(rs, E):
			n.role[ch] = "loss"
			c.Ob(only(ss, D), "channels", chanName(ch), ch.Pos(), "losses counted on the channel made at %s are not sent by the decoding goroutine alone", chanPos(c, ch))
		case only(rs, K) && pointy(t):
			n.role[ch] = "peer"
		}
	}
	cnt := map[string]int{}
	for _, r := range n.role {
		cnt[r]++
	}
	for _, r := range []string{"toEnc", "toDec", "local", "decoded", "peer", "rxq", "txq", "loss"} {
		if !c.Ob(cnt[r] > 0, "channels", r, token.NoPos, "no channel of the node carries what goes %s", map[string]string{"toEnc": "to the encoders", "toDec": "to the decoders", "local": "from the generator to the controller", "decoded": "from the decoders to the controller", "peer": "from the connections to the controller", "rxq": "from reading to decoding", "txq": "from encoding to writing", "loss": "from the decoding to the encoding side"}[r]) {
			n.bad = true
		}
	}
	if n.bad {
		return n
	}
	n.dTx = -1
	n.dExp = field(n.tDec, "Expired", isBasic(types.Bool))
	if fs := fieldsOfType(n.tDec, ptrTo("Transaction")); len(fs) == 1 {
		n.dTx = fs[0]
	}
	if !c.Ob(n.dTx >= 0 && n.dExp >= 0, "anchor", "DecodedTransaction", token.NoPos, "the transaction and the expiry of a decoded transaction cannot be resolved") {
		n.bad = true
	}
	// struct fields by variable
	if pp := c.P.PP["node"]; pp != nil {
		sc := pp.Types.Scope()
		for _, nm := range sc.Names() {
			if tn, ok := sc.Lookup(nm).(*types.TypeName); ok {
				if st, ok := structOf(tn.Type()); ok {
					for i := 0; i < st.NumFields(); i++ {
						n.fieldOf[st.Field(i)] = fieldKey(tn.Type(), i)
					}
				}
			}
		}
	}
	return n
}

// roles tells what a channel term at an event is used for.
func (n *nodep) roles(ev *Event) map[string]bool {
	out := map[string]bool{}
	add := func(vs []ssa.Value) {
		for _, v := range vs {
			r := n.role[v]
			if r == "" {
				r = "other"
			}
			out[r] = true
		}
	}
	if len(ev.Args) > 0 {
		t := ev.Args[0]
		for t.Op == "changetype" || t.Op == "conv" {
			t = t.Args[0]
		}
		if t.Op == "load" && t.Args[0].Op == "faddr" {
			if v, ok := t.Args[0].Obj.(*types.Var); ok {
				if k := n.fieldOf[v]; k != "" {
					for _, v := range n.g.fields[k] {
						add(n.g.channels(v))
					}
					return out
				}
			}
		}
	}
	switch in := ev.Instr.(type) {
	case *ssa.Send:
		add(n.g.channels(in.Chan))
	case *ssa.Select:
		if ev.Case < len(in.States) {
			add(n.g.channels(in.States[ev.Case].Chan))
		} else {
			for _, s := range in.States {
				add(n.g.channels(s.Chan))
			}
		}
	case *ssa.UnOp:
		add(n.g.channels(in.X))
	}
	return out
}

func (n *nodep) is(ev *Event, role string) bool {
	r := n.roles(ev)
	return len(r) == 1 && r[role]
}

func (n *nodep) may(ev *Event, role string) bool { return n.roles(ev)[role] }

func isRecv(e *Event) bool { return e.Kind == "recv" || e.Kind == "select" && e.Callee == "recv" }
func isSend(e *Event) bool { return e.Kind == "send" || e.Kind == "select" && e.Callee == "send" }

// got: the event received a value (and not the end of a closed channel).
func got(p *Path, e *Event) bool {
	if e.Ok == nil {
		return true
	}
	v, k := p.St.F.Value(e.Ok)
	return !k || v
}

// tops lists the functions a goroutine runs, past the literal that starts them.
func (n *nodep) tops(r *groot) []*ltRoot {
	var fs []*ssa.Function
	if r.fn.Parent() == nil {
		fs = []*ssa.Function{r.fn}
	} else {
		direct := false
		for _, b := range r.fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send, *ssa.Select:
					direct = true
				case *ssa.UnOp:
					direct = direct || x.Op == token.ARROW
				case ssa.CallInstruction:
					nm := calleeName(x.Common())
					if strings.Contains(nm, "ldpc.") || strings.Contains(nm, "gob.") {
						direct = true
					}
					for _, t := range n.g.under(x, r.env) {
						fs = append(fs, t)
					}
				}
			}
		}
		if direct {
			fs = []*ssa.Function{r.fn}
		}
	}
	var out []*ltRoot
	for _, f := range fs {
		if n.done[f] == nil {
			n.done[f] = n.runFn(f, nil)
		}
		out = append(out, n.done[f])
	}
	n.c.Ob(len(out) > 0, "goroutines", r.name, r.fn.Pos(), "what goroutine %s runs cannot be told", r.name)
	return out
}

func ruleC43(c *C) {
	n := c.node()
	if n.bad {
		return
	}
	for _, rt := range n.tops(n.E[0]) {
		for _, sg := range c.Segs(rt.ps) {
			n.given(rt, sg.P, "toEnc", "(*ldpc.Encoder).AddTransaction", nil)
		}
	}
	cw := func(t *Term) *Term { return n.x.TB.Field(t, n.tCW, n.iCW) }
	for _, rt := range n.tops(n.D[0]) {
		for _, sg := range c.Segs(rt.ps) {
			n.given(rt, sg.P, "toDec", "(*ldpc.Decoder).AddTransaction", nil)
			n.given(rt, sg.P, "rxq", "(*ldpc.Decoder).AddCodeword", cw)
			n.lists(rt, sg)
		}
	}
	for _, rt := range n.tops(n.K[0]) {
		n.relay(rt)
	}
	for _, rt := range n.tops(n.R[0]) {
		n.reads(rt)
	}
	for _, rt := range n.tops(n.W[0]) {
		n.writes(rt)
	}
}

// given: what is received on a channel is put into the codec once, and nothing
// else is.
func (n *nodep) given(rt *ltRoot, p *Path, role, callee string, part func(*Term) *Term) {
	c := n.c
	used := map[*Event]bool{}
	for _, e := range p.Events {
		if !isRecv(e) || !n.may(e, role) || !got(p, e) {
			continue
		}
		if !c.Ob(n.is(e, role), "role", rt.name, e.Pos, "the channel received from is not always the same") {
			continue
		}
		v := e.Res
		if part != nil {
			v = part(v)
		}
		k := 0
		for _, x := range evs(p, "call", callee) {
			if x.Args[1] == v {
				k++
				used[x] = true
			}
		}
		c.Ob(k == 1, "given", rt.name+" "+role, e.Pos, "what is received here is given to %s %d times, not once", callee, k)
	}
	for _, x := range evs(p, "call", callee) {
		c.Ob(used[x], "given", rt.name+" "+callee, x.Pos, "%s is called with something that was not just received", callee)
	}
}

func isDecodedList(t types.Type) bool {
	e := sliceElem2(t)
	nm := namedOf2(e)
	return nm != nil && nm.Obj().Name() == "DecodedTransaction"
}

func sliceElem2(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func namedOf2(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	return namedOf(t)
}

// pieces splits a list value into the list it started from, the number of
// elements dropped at the front, and what was added at the end.
func pieces(p *Path, idx map[*Term][]lvRec, v *Term) (base *Term, drop []*Term, add []*Term, loops []*Loop, ok bool) {
	for k := 0; k < 100; k++ {
		switch v.Op {
		case "appendsl":
			add = append(add, v.Args[1])
			v = v.Args[0]
			continue
		case "append":
			if len(v.Args) == 1 {
				v = v.Args[0]
				continue
			}
			return v, drop, add, loops, false
		case "slice":
			if v.Args[2] != p.St.TB().Len(v.Args[0]) {
				return v, drop, add, loops, false
			}
			if v.Args[1] != p.St.TB().Int(0) {
				drop = append(drop, v.Args[1])
			}
			v = v.Args[0]
			continue
		}
		moved := false
		for _, x := range idx[v] {
			if onPath(p, x.l) {
				loops = append(loops, x.l)
				v = x.v.Entry
				moved = true
				break
			}
		}
		if !moved {
			return v, drop, add, loops, true
		}
	}
	return v, nil, nil, nil, false
}

// lists: the decoded transactions returned on a path are all sent on, once.
func (n *nodep) lists(rt *ltRoot, sg Seg) {
	c, tb := n.c, n.x.TB
	p := sg.P
	var made []*Term
	pos := map[*Term]token.Pos{}
	for _, e := range p.Events {
		if e.Kind != "call" || e.Res == nil {
			continue
		}
		switch e.Callee {
		case "(*ldpc.Decoder).AddCodeword":
			made = append(made, tb.MkT(e.Res.Typ.(*types.Tuple).At(1).Type(), "extract", "1", e.Res))
		case "(*ldpc.Decoder).AddTransaction":
			made = append(made, e.Res)
		default:
			continue
		}
		pos[made[len(made)-1]] = e.Pos
	}
	sends := map[*Event]bool{}
	for _, e := range p.Events {
		if isSend(e) && n.may(e, "decoded") {
			sends[e] = false
		}
	}
	took := map[*Term]int{}
	use := func(v *Term) { took[v]++ }
	// values carried over to the next round
	if sg.Loop != nil {
		for _, v := range sg.Loop.Vars {
			if v.LV.Typ == nil || !isDecodedList(v.LV.Typ) {
				continue
			}
			nv := sg.Loop.Back(p, v)
			if n.copies(rt, sg.Loop, v) != nil {
				continue
			}
			base, drop, add, loops, ok := pieces(p, rt.idx, nv)
			whole := ok && base == v.LV
			if !whole && len(loops) == 0 && len(drop) == 0 && (base.Op == "nil" || base == tb.Nil()) || ok && n.isMade(base, made) {
				// a new list, after the old one is used up
				whole = p.St.F.Entails(tb.Le(tb.Len(v.LV), tb.Int(0)))
				if n.isMade(base, made) {
					use(base)
				}
			}
			if nv != v.LV && !whole && n.scratch(sg.Loop, v) {
				continue
			}
			if !c.Ob(whole, "list", rt.name, p.Pos, "a list of decoded transactions is replaced before all of it was sent on") {
				continue
			}
			for _, a := range add {
				use(a)
			}
			for _, l := range loops {
				for _, w := range l.Vars {
					if ml := n.copies(rt, l, w); ml != nil && n.isMade(ml, made) {
						use(ml)
					}
				}
			}
			if at := n.cursor(sg.Loop, v); at != nil && len(drop) == 0 && base == v.LV {
				// elements passed over are those sent
				if sg.Loop.Back(p, at) != at.LV {
					hit := 0
					for e := range sends {
						if !sends[e] && n.elem(p, e.Args[1], v.LV, at.LV) {
							sends[e] = true
							hit++
						}
					}
					c.Ob(hit == 1, "sent", rt.name, p.Pos, "a decoded transaction is passed over without being sent on exactly once")
				}
			}
			// elements dropped are those sent
			for _, d := range drop {
				okd := d == tb.Int(1)
				hit := 0
				for e := range sends {
					if !sends[e] && n.elem(p, e.Args[1], v.LV, tb.Int(0)) {
						sends[e] = true
						hit++
					}
				}
				c.Ob(okd && hit == 1, "sent", rt.name, p.Pos, "a decoded transaction leaves the list without being sent on exactly once")
			}
		}
	}
	// loops over lists in this piece
	for _, e := range p.Events {
		if e.Kind != "loop" {
			continue
		}
		for _, v := range e.Loop.Vars {
			if v.LV.Typ == nil || !isDecodedList(v.LV.Typ) {
				continue
			}
			if n.scratch(e.Loop, v) || n.copies(rt, e.Loop, v) != nil {
				continue
			}
			base, drop, add, loops, ok := pieces(p, rt.idx, v.Entry)
			if ok && len(drop) == 0 && n.isMade(base, made) && len(loops) == 0 {
				use(base)
			}
			if sg.Loop == nil || sg.Loop.Var(base) == nil || sg.Loop.Back(p, sg.Loop.Var(base)) == base {
				for _, a := range add {
					use(a)
				}
			}
			// what the loop leaves
			left := v.LV
			if sg.Loop != nil {
				for _, w := range sg.Loop.Vars {
					if b, _, _, ls, ok := pieces(p, rt.idx, sg.Loop.Back(p, w)); ok && b == w.LV && inLoops(ls, e.Loop) {
						left = nil
					}
				}
			}
			if left != nil && (p.Kind == "back" || p.Kind == "return") {
				upto := tb.Int(0)
				if at := n.cursor(e.Loop, v); at != nil {
					upto = at.LV
				}
				c.Ob(p.St.F.Entails(tb.Le(tb.Len(left), upto)), "empty", rt.name, e.Loop.Pos, "the loop that sends decoded transactions on can end before its list is empty")
			}
		}
		for _, l := range made {
			if n.ranged(rt, e.Loop, l) {
				use(l)
			}
		}
	}
	for _, l := range made {
		if took[l] == 0 && p.St.F.Entails(tb.Le(tb.Len(l), tb.Int(0))) {
			continue
		}
		c.Ob(took[l] == 1, "passed", rt.name, pos[l], "the decoded transactions returned here are passed on %d times, not once", took[l])
	}
	for e, k := range sends {
		if !k && sg.Loop != nil && n.rangedSend(rt, sg.Loop, e) {
			k = true
		}
		c.Ob(k && n.is(e, "decoded"), "sent", rt.name+" "+c.Pos(e.Pos), e.Pos, "something is passed to the controller that is not the next decoded transaction, or it is passed on again")
	}
}

// cursor is the variable that says how much of a list was sent: it starts at
// zero and goes on only by one, with a list that only grows.
func (n *nodep) cursor(l *Loop, v *absint.LVInfo) *absint.LVInfo {
	tb := n.x.TB
	for _, w := range l.Vars {
		if w.LV.Typ == nil || !isBasicInt(w.LV.Typ) || w.Entry != tb.Int(0) {
			continue
		}
		ok, on := true, false
		for _, b := range l.Backs {
			switch l.Back(b, w) {
			case w.LV:
			case tb.AddK(w.LV, 1):
				hit := false
				for _, e := range b.Events {
					hit = hit || isSend(e) && n.elem(b, e.Args[1], v.LV, w.LV)
				}
				ok = ok && hit
				on = true
			default:
				ok = false
			}
		}
		if ok && on {
			return w
		}
	}
	return nil
}

// copies: the loop appends every element of a list the decoder returned to
// variable v, one by one.
func (n *nodep) copies(rt *ltRoot, l *Loop, v *absint.LVInfo) *Term {
	tb := n.x.TB
	if v.LV.Typ == nil || !isDecodedList(v.LV.Typ) || len(l.Backs) == 0 {
		return nil
	}
	for _, b := range l.Backs {
		if nv := l.Back(b, v); nv.Op != "append" || len(nv.Args) != 2 || nv.Args[0] != v.LV {
			return nil
		}
	}
	var res *Term
	n.c.EachLoop(rt.ps, func(_ []*Loop, x *Loop, in *Path) {
		if x != l || res != nil {
			return
		}
		for _, ev := range in.Events {
			if ev.Kind != "call" || ev.Res == nil {
				continue
			}
			var list *Term
			switch ev.Callee {
			case "(*ldpc.Decoder).AddCodeword":
				list = tb.MkT(ev.Res.Typ.(*types.Tuple).At(1).Type(), "extract", "1", ev.Res)
			case "(*ldpc.Decoder).AddTransaction":
				list = ev.Res
			default:
				continue
			}
			idx, ok := n.counter(l, n.c.Exits(rt.ps, l), tb.Len(list))
			if !ok {
				continue
			}
			all := true
			for _, b := range l.Backs {
				one := false
				for _, i := range idx {
					one = one || n.elem(b, l.Back(b, v).Args[1], list, i)
				}
				all = all && one
			}
			if all {
				res = list
			}
		}
	})
	return res
}

func inLoops(ls []*Loop, l *Loop) bool {
	for _, x := range ls {
		if x == l {
			return true
		}
	}
	return false
}

// scratch: a variable that is set anew before it is used in every round.
func (n *nodep) scratch(l *Loop, v *absint.LVInfo) bool {
	for _, b := range l.Backs {
		for _, e := range b.Events {
			for _, a := range e.Args {
				if a != nil && absint.Contains(a, v.LV) {
					return false
				}
			}
			if e.Cond != nil && absint.Contains(e.Cond, v.LV) {
				return false
			}
			if e.Kind == "loop" {
				for _, w := range e.Loop.Vars {
					if absint.Contains(w.Entry, v.LV) {
						return false
					}
				}
			}
		}
		for _, w := range l.Vars {
			if w != v && absint.Contains(l.Back(b, w), v.LV) {
				return false
			}
		}
		if nv := l.Back(b, v); nv != v.LV && absint.Contains(nv, v.LV) {
			return false
		}
	}
	return true
}

func (n *nodep) isMade(t *Term, made []*Term) bool {
	for _, m := range made {
		if m == t {
			return true
		}
	}
	return false
}

// elem: x is element i of the list.
func (n *nodep) elem(p *Path, x, list, i *Term) bool {
	et := sliceElem2(list.Typ)
	if et == nil {
		return false
	}
	v := p.St.Load(p.St.IndexAddr(list, i, et), et)
	return v == x || n.same(p, v, x)
}

// same: two struct values agree in every field.
func (n *nodep) same(p *Path, x, y *Term) bool {
	if x == y {
		return true
	}
	t := x.Typ
	if t == nil {
		t = y.Typ
	}
	st, ok := structOf(t)
	if !ok || t == nil || pointy2(t) {
		return p.St.F.ProveEq(x, y)
	}
	for i := 0; i < st.NumFields(); i++ {
		if !n.same(p, n.x.TB.Field(x, t, i), n.x.TB.Field(y, t, i)) {
			return false
		}
	}
	return true
}

func pointy2(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// ranged: the loop sends every element of the list, once.
func (n *nodep) ranged(rt *ltRoot, l *Loop, list *Term) bool {
	tb := n.x.TB
	idx, ok := n.counter(l, n.c.Exits(rt.ps, l), tb.Len(list))
	if !ok {
		return false
	}
	for _, b := range l.Backs {
		k, all := 0, 0
		for _, e := range b.Events {
			if isSend(e) && n.may(e, "decoded") {
				all++
				for _, i := range idx {
					if n.elem(b, e.Args[1], list, i) {
						k++
						break
					}
				}
			}
		}
		if k != 1 || all != 1 {
			return false
		}
	}
	return len(l.Backs) > 0
}

// rangedSend: the send is that of a loop over a list of decoded transactions.
func (n *nodep) rangedSend(rt *ltRoot, l *Loop, e *Event) bool {
	ok := false
	n.c.EachLoop(rt.ps, func(_ []*Loop, x *Loop, in *Path) {
		if x != l || ok {
			return
		}
		for _, ev := range in.Events {
			if ev.Kind != "call" || ev.Res == nil {
				continue
			}
			var list *Term
			switch ev.Callee {
			case "(*ldpc.Decoder).AddCodeword":
				list = n.x.TB.MkT(ev.Res.Typ.(*types.Tuple).At(1).Type(), "extract", "1", ev.Res)
			case "(*ldpc.Decoder).AddTransaction":
				list = ev.Res
			default:
				continue
			}
			ok = ok || n.ranged(rt, l, list)
		}
	})
	return ok
}

// relay checks the controller.
func (n *nodep) relay(rt *ltRoot) {
	c, tb := n.c, n.x.TB
	segs := c.Segs(rt.ps)
	// the list of peers is the one new peers are appended to
	var list *absint.LVInfo
	var head *Loop
	nNew := 0
	for _, sg := range segs {
		for _, e := range sg.P.Events {
			if !isRecv(e) || !n.may(e, "peer") || !got(sg.P, e) {
				continue
			}
			nNew++
			var to *absint.LVInfo
			if sg.Loop != nil {
				for _, v := range sg.Loop.Vars {
					nv := sg.Loop.Back(sg.P, v)
					if nv.Op == "append" && nv.Args[0] == v.LV && len(nv.Args) == 2 && (nv.Args[1] == e.Res || n.same(sg.P, nv.Args[1], e.Res)) {
						to = v
					}
				}
			}
			if c.Ob(to != nil && (list == nil || list == to), "new-peer", rt.name, e.Pos, "a new peer is not appended to the list of peers, once") {
				list, head = to, sg.Loop
			}
		}
	}
	if !c.Ob(list != nil, "instances", rt.name+" peers", rt.fn.Pos(), "the list of peers of the controller cannot be told") {
		return
	}
	et := sliceElem2(list.LV.Typ)
	owner := map[*Event]bool{} // sends accounted for
	type due struct {
		e  *Event
		tx *Term
		ex *Term
	}
	nTx := 0
	for _, sg := range segs {
		p := sg.P
		if sg.Loop == head {
			// the list changes only by new peers
			nv := sg.Loop.Back(p, list)
			base, drop, _, loops, ok := pieces(p, rt.idx, nv)
			isNew := nv.Op == "append"
			c.Ob(nv == list.LV || isNew || ok && base == list.LV && len(drop) == 0 && len(loops) > 0, "peers-kept", rt.name, p.Pos, "the list of peers is changed otherwise than by a new peer")
		}
		var ds []due
		for _, e := range p.Events {
			if !isRecv(e) || !got(p, e) {
				continue
			}
			switch {
			case n.may(e, "local"):
				ds = append(ds, due{e, e.Res, nil})
			case n.may(e, "decoded"):
				ds = append(ds, due{e, tb.Field(e.Res, n.tDec, n.dTx), tb.Field(e.Res, n.tDec, n.dExp)})
			default:
				continue
			}
			c.Ob(n.is(e, "local") || n.is(e, "decoded"), "role", rt.name, e.Pos, "the channel received from is not always the same")
		}
		for _, d := range ds {
			nTx++
			if !c.Ob(sg.Loop == head || sg.Loop == nil, "relayed", rt.name, d.e.Pos, "a transaction is received away from the loop that keeps the list of peers") {
				continue
			}
			cur := list.LV
			if sg.Loop == nil {
				cur = list.LV
			}
			if p.St.F.Entails(tb.Le(tb.Len(cur), tb.Int(0))) {
				continue
			}
			if p.Kind != "back" {
				c.Fail("relayed", rt.name, d.e.Pos, "the controller can stop after receiving a transaction")
				continue
			}
			var vals []bool
			if d.ex == nil {
				vals = []bool{false}
			} else if v, k := p.St.F.Value(d.ex); k {
				vals = []bool{v}
			} else {
				vals = []bool{false, true}
			}
			for _, ex := range vals {
				nE, nD := 0, 0
				okAll := true
				for _, le := range p.Events {
					if le.Kind != "loop" {
						continue
					}
					idx, ok := n.counter(le.Loop, c.Exits(rt.ps, le.Loop), tb.Len(cur))
					if !ok {
						continue
					}
					first := true
					for _, b := range le.Loop.Backs {
						if d.ex != nil {
							if v, k := b.St.F.Value(d.ex); k && v != ex {
								continue
							}
						}
						bE, bD := 0, 0
						for _, se := range b.Events {
							if !isSend(se) {
								continue
							}
							toE, toD := n.is(se, "toEnc"), n.is(se, "toDec")
							if !toE && !toD || se.Args[1] != d.tx || !n.ofPeer(b, se.Args[0], cur, idx, et) {
								continue
							}
							owner[se] = true
							if toE {
								bE++
							} else {
								bD++
							}
						}
						if first {
							nE, nD = nE+bE, nD+bD
							first = false
						} else if bE+bD > 0 || nE+nD > 0 {
							// every round alike
							okAll = okAll && sameAs(le.Loop, b, bE, bD, func(b2 *Path) (int, int, bool) {
								if d.ex != nil {
									if v, k := b2.St.F.Value(d.ex); k && v != ex {
										return 0, 0, false
									}
								}
								x, y := 0, 0
								for _, se := range b2.Events {
									if isSend(se) && se.Args[1] == d.tx && n.ofPeer(b2, se.Args[0], cur, idx, et) {
										if n.is(se, "toEnc") {
											x++
										} else if n.is(se, "toDec") {
											y++
										}
									}
								}
								return x, y, true
							})
						}
					}
				}
				wE := 1
				what := "a transaction that was generated here or decoded in time"
				if ex {
					wE = 0
					what = "a transaction decoded from an expired codeword"
				}
				c.Ob(okAll && nE == wE, "relayed", rt.name+" encoders", d.e.Pos, "%s is passed %d times, not %d, to the encoder of each peer", what, nE, wE)
				c.Ob(okAll && nD == 1, "relayed", rt.name+" decoders", d.e.Pos, "%s is passed %d times, not once, to the decoder of each peer", what, nD)
			}
		}
	}
	c.Ob(nTx > 0, "instances", rt.name+" transactions", rt.fn.Pos(), "the controller receives no transactions")
	for _, sg := range segs {
		for _, e := range sg.P.Events {
			if isSend(e) && (n.may(e, "toEnc") || n.may(e, "toDec")) {
				c.Ob(owner[e], "stray", rt.name+" "+c.Pos(e.Pos), e.Pos, "a transaction is passed to a peer that is not the one just received for each peer")
			}
		}
	}
}

func sameAs(l *Loop, b *Path, e, d int, f func(*Path) (int, int, bool)) bool {
	for _, x := range l.Backs {
		if y, z, ok := f(x); ok && (y != e || z != d) {
			return false
		}
	}
	return true
}

// ofPeer: the channel is a field of the peer at the loop's index.
func (n *nodep) ofPeer(p *Path, ch, list *Term, idx []*Term, et types.Type) bool {
	if ch.Op != "load" || ch.Args[0].Op != "faddr" {
		return false
	}
	base := ch.Args[0].Args[0]
	for _, i := range idx {
		a := p.St.IndexAddr(list, i, et)
		if base == a || base == p.St.Load(a, et) {
			return true
		}
	}
	return false
}

func (n *nodep) errOf(p *Path, e *Event) *Term {
	r := e.Res
	if r == nil {
		return nil
	}
	if tt, ok := r.Typ.(*types.Tuple); ok {
		for i := 0; i < tt.Len(); i++ {
			if isErr(tt.At(i).Type()) {
				return n.x.TB.MkT(tt.At(i).Type(), "extract", strconv.Itoa(i), r)
			}
		}
		return nil
	}
	return r
}

// reads: every codeword read without an error is queued for decoding.
func (n *nodep) reads(rt *ltRoot) {
	c, tb := n.c, n.x.TB
	tot := 0
	for _, sg := range c.Segs(rt.ps) {
		p := sg.P
		used := map[*Event]bool{}
		for i, e := range p.Events {
			if e.Kind != "call" || e.Callee != "(*gob.Decoder).Decode" {
				continue
			}
			tot++
			post, pre := e.Post[1], e.Pre[1]
			if !c.Ob(types.Identical(post.Typ, n.tCW), "read", rt.name, e.Pos, "it cannot be told where the codeword read here is put") {
				continue
			}
			zero := true
			st, _ := structOf(n.tCW)
			for k := 0; k < st.NumFields(); k++ {
				f := tb.Field(pre, n.tCW, k)
				zero = zero && (f == tb.Zero(st.Field(k).Type()) || f == tb.Nil())
			}
			c.Ob(zero, "fresh", rt.name, e.Pos, "a codeword is read into a variable that is not zero before: fields the peer left out, because they are zero, keep their old values")
			er := n.errOf(p, e)
			isNil := er != nil && p.St.F.ProveEq(er, tb.Nil())
			isBad := er != nil && p.St.F.ProveNe(er, tb.Nil())
			k := 0
			for _, x := range p.Events[i+1:] {
				if !isSend(x) || !n.may(x, "rxq") {
					continue
				}
				all := true
				for f := 0; f < st.NumFields(); f++ {
					a, b := tb.Field(x.Args[1], n.tCW, f), tb.Field(post, n.tCW, f)
					all = all && (a == b || n.same(p, a, b))
				}
				if all {
					k++
					used[x] = true
				}
			}
			c.Ob(isNil || isBad, "read-error", rt.name, e.Pos, "whether the codeword could be read is not checked")
			if isNil {
				c.Ob(k == 1, "queued", rt.name, e.Pos, "a codeword that was read is queued for decoding %d times, not once", k)
			} else {
				c.Ob(k == 0, "queued", rt.name, e.Pos, "a codeword that could not be read is queued for decoding")
			}
			if isBad {
				c.Ob(p.Kind == "panic" || p.Kind == "exit" || p.Kind == "return" && len(p.Vals) > 0 && p.Vals[len(p.Vals)-1] == er, "read-error", rt.name+" reported", e.Pos, "the failure to read a codeword is not reported")
			}
		}
		for _, x := range p.Events {
			if isSend(x) && n.may(x, "rxq") {
				c.Ob(used[x], "queued", rt.name+" stray", x.Pos, "something is queued for decoding that was not just read")
			}
		}
	}
	c.Ob(tot > 0, "instances", rt.name+" reads", rt.fn.Pos(), "no codeword is read")
}

// writes: every codeword taken from the queue is written to the connection.
func (n *nodep) writes(rt *ltRoot) {
	c, tb := n.c, n.x.TB
	tot := 0
	for _, sg := range c.Segs(rt.ps) {
		p := sg.P
		used := map[*Event]bool{}
		for i, e := range p.Events {
			if !isRecv(e) || !n.may(e, "txq") || !got(p, e) {
				continue
			}
			tot++
			k := 0
			for _, x := range p.Events[i+1:] {
				if x.Kind != "call" || x.Callee != "(*gob.Encoder).Encode" {
					continue
				}
				a := x.Args[1]
				if a.Op == "iface" {
					a = a.Args[0]
				}
				if a.Op == "alloc" {
					a = x.Pre[1]
				}
				if !n.same(p, a, e.Res) || a.Typ == nil || !types.Identical(a.Typ, n.tCW) {
					continue
				}
				k++
				used[x] = true
				er := n.errOf(p, x)
				if er != nil && p.St.F.ProveEq(er, tb.Nil()) {
					continue
				}
				if sg.Loop != nil && p.Kind == "back" && er != nil && n.reportedNext(rt, sg.Loop, p, er) {
					continue
				}
				c.Ob(p.Kind == "panic" || p.Kind == "exit" || p.Kind == "return" && len(p.Vals) > 0 && p.Vals[len(p.Vals)-1] == er, "write-error", rt.name, x.Pos, "the failure to write a codeword is not reported")
			}
			c.Ob(k == 1, "written", rt.name, e.Pos, "a queued codeword is written %d times, not once", k)
		}
		for _, x := range evs(p, "call", "(*gob.Encoder).Encode") {
			c.Ob(used[x], "written", rt.name+" stray", x.Pos, "something is written to the peer that was not just taken from the queue")
		}
	}
	c.Ob(tot > 0, "instances", rt.name+" writes", rt.fn.Pos(), "no codeword is written")
}

// reportedNext: the error er of a turn of the loop is kept in a variable, the
// loop goes on only while that is nil, and returns it otherwise.
func (n *nodep) reportedNext(rt *ltRoot, l *Loop, p *Path, er *Term) bool {
	tb := n.x.TB
	for _, v := range l.Vars {
		if v.LV.Typ == nil || !isErr(v.LV.Typ) || l.Back(p, v) != er {
			continue
		}
		ok := true
		for _, b := range l.Backs {
			// a turn begins without an error
			ok = ok && b.St.F.ProveEq(v.LV, tb.Nil())
		}
		for _, q := range n.c.Exits(rt.ps, l) {
			ok = ok && (q.St.F.ProveEq(v.LV, tb.Nil()) || q.Kind == "panic" ||
				q.Kind == "return" && len(q.Vals) > 0 && q.Vals[len(q.Vals)-1] == v.LV)
		}
		if ok {
			return true
		}
	}
	return false
}
