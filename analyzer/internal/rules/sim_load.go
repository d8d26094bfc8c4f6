package rules

import (
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

func init() {
	register(&Rule{ID: "C46", Pkgs: []string{"simulator", "newsim"}, MinObl: 20, Run: ruleC46,
		What: "the generator's index is its counter plus a constant and the counter grows on every path and nowhere else shrinks; one generator serves the program; main is executed abstractly from its flags: the loop over the server numbers schedules one arrival per server and the loop over the topology connects each link once; HandleMessage is executed per kind of message: every arrival and every period event schedules its one successor with the configured number, rate and period, and what a sender may start is what the period decides"})
}

// loadp decides what the simulated workload is made of.
type loadp struct {
	*simp
	tS, tGen, tTx types.Type
	fRng          int
	fIntv         []int
	fBurst        []int
	fSync         []int
	iIdx, iTs     int
}

func ruleC46(c *C) {
	for _, rel := range []string{"simulator", "newsim"} {
		w := &loadp{simp: c.sim(rel)}
		w.tS, w.tGen, w.tTx = c.Type(rel, "server"), c.Type(rel, "transactionGenerator"), c.Type(rel, "transaction")
		if w.tS == nil || w.tGen == nil || w.tTx == nil {
			continue
		}
		w.fRng = w.need(w.tS, "server's random generator", "rng", nil)
		w.iIdx, w.iTs = w.need(w.tTx, "transaction index", "idx", nil), w.need(w.tTx, "transaction time", "ts", nil)
		w.fIntv, w.fBurst, w.fSync = fieldPath(w.tS, "blockArrivalIntv"), fieldPath(w.tS, "blockArrivalBurst"), fieldPath(w.tS, "forceSynchronize")
		if !c.Ob(w.fIntv != nil && w.fBurst != nil && (w.fSync != nil || rel == "newsim"), "anchor", rel+" configuration", token.NoPos, "arrival rate, burst or period of a server not found") {
			continue
		}
		if w.fRng < 0 || w.iIdx < 0 || w.iTs < 0 || w.tOut == nil {
			continue
		}
		w.generator()
		w.shared()
		w.combine()
		w.setup()
		w.arrivals()
	}
}

// at is the address of a field of a server, embedded ones included.
func (w *loadp) loc(me *Term, path []int) *Term {
	t, ty := me, w.tS
	for _, i := range path {
		t = w.fa(t, ty, i)
		ty = w.ftype(ty, i)
	}
	return t
}

// generator: each transaction gets an index above all earlier ones and the time given.
func (w *loadp) generator() {
	c, tb := w.c, w.x.TB
	rt := w.run("transactionGenerator", "generate", nil)
	if rt == nil {
		return
	}
	ctr := -1
	st, _ := structOf(w.tGen)
	for i := 0; i < st.NumFields(); i++ {
		if isBasicInt(st.Field(i).Type()) {
			if ctr >= 0 {
				ctr = -2
			} else {
				ctr = i
			}
		}
	}
	if !c.Ob(ctr >= 0, "anchor", w.rel+" counter", rt.fn.Pos(), "counter of the transaction generator not found") {
		return
	}
	loc := w.fa(rt.args[0], w.tGen, ctr)
	n0 := rt.st0.Peek(loc)
	now := rt.par(isDuration)
	var off *Term
	n := 0
	for _, p := range rt.ps {
		if !c.Ob(p.Kind == "return" && len(p.Vals) == 1, "total", rt.name, p.Pos, "making a transaction can end in a %s", p.Kind) {
			continue
		}
		n++
		v := p.Vals[0]
		tx := v
		if v.Typ == nil || !types.Identical(v.Typ, w.tTx) {
			tx = nil
			for _, e := range evs(p, "call", "") {
				if e.Res == v && len(e.Args) == 1 && strings.HasSuffix(e.Callee, ".NewTransaction") {
					tx = e.Args[0]
				}
			}
		}
		if !c.Ob(tx != nil, "generated", rt.name, p.Pos, "the transaction made is %s", v) {
			continue
		}
		idx := tb.Field(tx, w.tTx, w.iIdx)
		d := tb.Sub(idx, n0)
		step := tb.Sub(p.St.Peek(loc), n0)
		ok := d.Op == "num" && step.Op == "num" && step.Num.Sign() > 0
		c.Ob(ok, "unique", rt.name, p.Pos, "a transaction gets the index %s while the counter goes from %s to %s", idx, n0, p.St.Peek(loc))
		c.Ob(off == nil || off == d, "unique", rt.name+" paths", p.Pos, "transactions get their index from the counter in different ways")
		off = d
		c.Ob(now != nil && p.St.F.ProveEq(tb.Field(tx, w.tTx, w.iTs), now), "created-at", rt.name, p.Pos, "a transaction carries the creation time %s", tb.Field(tx, w.tTx, w.iTs))
	}
	c.Ob(n > 0, "instances", rt.name, token.NoPos, "no transaction is ever made")
	// nothing else touches the counter
	for _, f := range c.P.Funcs(w.rel) {
		if f == rt.fn {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != ctr || !types.Identical(deref(fa.X.Type()), w.tGen) {
					continue
				}
				for _, r := range *fa.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == fa {
						if _, made := fa.X.(*ssa.Alloc); !made {
							c.Fail("unique", w.rel+" counter "+shortFn(f), s.Pos(), "the counter of the transactions is changed in %s", shortFn(f))
						}
					}
				}
			}
		}
	}
}

// shared: one generator, made once, serves all servers.
func (w *loadp) shared() {
	c := w.c
	g := newConc(c, w.rel)
	if !g.program(w.rel) {
		return
	}
	made := map[ssa.Value]bool{}
	calls := 0
	for _, f := range c.P.Funcs(w.rel) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || calleeName(ci.Common()) != "(*main.transactionGenerator).generate" {
					continue
				}
				calls++
				for _, o := range g.origins(ci.Common().Args[0]) {
					made[o] = true
				}
			}
		}
	}
	c.Ob(calls > 0, "instances", w.rel+" generate", token.NoPos, "no call makes a transaction")
	for o := range made {
		switch o := o.(type) {
		case *ssa.Alloc:
			f := o.Parent()
			once := f.Name() == "init" || !g.repeats(o, map[*ssa.Function]bool{})
			c.Ob(once, "one-generator", w.rel+" "+shortFn(f), o.Pos(), "%s makes more than one generator of transactions", shortFn(f))
		case *ssa.Global:
		default:
			c.Fail("one-generator", w.rel, o.Pos(), "where a generator of transactions comes from is not known: %s", o.Name())
		}
	}
	c.Ob(len(made) == 1, "one-generator", w.rel, token.NoPos, "transactions come from %d generators", len(made))
}

// combine: XOR takes in both fields, the hash the whole index.
func (w *loadp) combine() {
	c, tb := w.c, w.x.TB
	if rt := w.run("transaction", "XOR", nil); rt != nil && len(rt.args) == 2 {
		st, _ := structOf(w.tTx)
		for _, p := range rt.ps {
			if !c.Ob(p.Kind == "return" && len(p.Vals) == 1, "total", rt.name, p.Pos, "XOR of transactions can end in a %s", p.Kind) {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				a, b, r := tb.Field(rt.args[0], w.tTx, i), tb.Field(rt.args[1], w.tTx, i), tb.Field(p.Vals[0], w.tTx, i)
				ok := r.Op == "xor" && len(r.Args) == 2 && (r.Args[0] == a && r.Args[1] == b || r.Args[0] == b && r.Args[1] == a)
				c.Ob(ok, "xor", rt.name+" "+st.Field(i).Name(), p.Pos, "XOR of transactions makes the %s %s", st.Field(i).Name(), r)
			}
		}
	}
	rt := w.run("transaction", "Hash", nil)
	if rt == nil {
		return
	}
	idx := tb.Field(rt.args[0], w.tTx, w.iIdx)
	for _, p := range rt.ps {
		if !c.Ob(p.Kind == "return" && len(p.Vals) == 1, "total", rt.name, p.Pos, "hashing a transaction can end in a %s", p.Kind) {
			continue
		}
		in := p.Vals[0]
		for _, e := range evs(p, "call", "") {
			if e.Res == in && len(e.Args) > 0 && (strings.HasPrefix(e.Callee, "siphash.") || strings.HasPrefix(e.Callee, "sha256.") || strings.HasPrefix(e.Callee, "sha512.") || strings.HasPrefix(e.Callee, "xxhash.")) {
				in = e.Args[len(e.Args)-1]
			}
		}
		c.Ob(w.encodes(p, in, idx), "hash", rt.name, p.Pos, "the hash of a transaction is not made of the complete index: %s", in)
	}
}

// encodes: the bytes b hold every byte of the 64 bit number v.
func (w *loadp) encodes(p *Path, b, v *Term) bool {
	tb := w.x.TB
	base := func(t *Term) (*Term, *Term) { // memory and first byte
		if t.Op == "slicearr" {
			return t.Args[0], t.Args[1]
		}
		if t.Op == "slice" {
			return t.Args[0], t.Args[1]
		}
		return t, tb.Int(0)
	}
	m, lo := base(b)
	whole := func(t *Term) bool { // the first 8 bytes of b
		x, y := base(t)
		return x == m && y == lo && p.St.F.Entails(tb.Le(tb.Int(8), tb.Len(t)))
	}
	for _, e := range evs(p, "call", "") {
		n := len(e.Args)
		if n < 2 || e.Args[n-1] != v {
			continue
		}
		if strings.HasSuffix(e.Callee, "ndian).PutUint64") && whole(e.Args[n-2]) && p.St.F.Entails(tb.Le(tb.Int(8), tb.Len(b))) {
			return true
		}
		if strings.HasSuffix(e.Callee, "ndian).AppendUint64") && e.Res == b {
			return true
		}
	}
	// byte by byte
	got := map[string]bool{}
	take := func(x *Term) {
		if x == nil || x.Op != "conv" || len(x.Args) != 1 {
			return
		}
		y := x.Args[0]
		switch {
		case y == v:
			got["1"] = true
		case y.Op == "quo" && y.Args[0] == v && y.Args[1].Op == "num":
			got[y.Args[1].Num.RatString()] = true
		}
	}
	if b.Op == "append" {
		for _, x := range b.Args[1:] {
			take(x)
		}
	}
	at := map[*Term]bool{}
	for _, e := range evs(p, "store", "") {
		if len(e.Args) > 1 && e.Args[0].Op == "iaddr" && !at[e.Args[0].Args[1]] {
			if x, _ := base(e.Args[0].Args[0]); x == m {
				at[e.Args[0].Args[1]] = true
				take(e.Args[1])
			}
		}
	}
	n := new(big.Int).SetInt64(1)
	for i := 0; i < 8; i++ {
		if !got[n.String()] {
			return false
		}
		n = new(big.Int).Lsh(n, 8)
	}
	return true
}

// mono writes a product of powers; floats are taken as reals.
func mono(tb *absint.Table, t *Term) (*big.Rat, map[*Term]int) {
	one := func() *big.Rat { return big.NewRat(1, 1) }
	switch t.Op {
	case "num":
		return t.Num, map[*Term]int{}
	case "conv":
		if len(t.Args) == 1 && t.Typ != nil && isFloatT(t.Typ) {
			return mono(tb, t.Args[0])
		}
	case "lin":
		l := tb.LinOf(t)
		if len(l.Vars) == 1 && l.K.Sign() == 0 {
			k, m := mono(tb, l.Vars[0])
			return new(big.Rat).Mul(k, l.Coef[0]), m
		}
	case "mul", "fdiv":
		k, m := one(), map[*Term]int{}
		for i, a := range t.Args {
			ka, ma := mono(tb, a)
			s := 1
			if t.Op == "fdiv" && i > 0 {
				s = -1
				if ka.Sign() == 0 {
					return one(), map[*Term]int{t: 1}
				}
				ka = new(big.Rat).Inv(ka)
			}
			k = new(big.Rat).Mul(k, ka)
			for x, n := range ma {
				m[x] += s * n
			}
		}
		for x, n := range m {
			if n == 0 {
				delete(m, x)
			}
		}
		return k, m
	}
	return one(), map[*Term]int{t: 1}
}

// same: t is k times the product of the powers given.
func sameMono(tb *absint.Table, t *Term, k *big.Rat, m map[*Term]int) bool {
	k2, m2 := mono(tb, t)
	if k.Cmp(k2) != 0 || len(m) != len(m2) {
		return false
	}
	for x, n := range m {
		if m2[x] != n {
			return false
		}
	}
	return true
}

// whole number made of a float.
func truncated(t *Term) *Term {
	for t.Op == "conv" && len(t.Args) == 1 && t.Typ != nil && isBasicInt(t.Typ) {
		t = t.Args[0]
	}
	return t
}

// flags: what each flag was set to, by its name.
func flagsOf(p *Path) map[string]*Term {
	out := map[string]*Term{}
	for _, e := range p.History() {
		if e.Kind != "call" || !strings.HasPrefix(e.Callee, "flag.") || e.Res == nil {
			continue
		}
		if len(e.Args) > 1 && e.Args[0].Op == "str" {
			out[e.Args[0].Aux] = p.St.Peek(e.Res)
		} else if len(e.Args) > 2 && e.Args[1].Op == "str" {
			out[e.Args[1].Aux] = p.St.Peek(e.Args[0])
		}
	}
	return out
}

// schedule: the messages p hands to the event simulator.
const schedMsg = "(*des.Simulator).ScheduleMessage"

// draws: t is an exponential delay drawn in p from the generator rng with the rate r.
func (w *loadp) draws(p *Path, t, rng *Term, used map[*Term]bool, rate func(k *big.Rat, m map[*Term]int) bool) bool {
	k, m := mono(w.x.TB, truncated(t))
	for _, e := range evs(p, "call", "(*rand.Rand).ExpFloat64") {
		if m[e.Res] == 1 && e.Args[0] == rng && !used[e.Res] {
			used[e.Res] = true
			d := map[*Term]int{}
			for x, n := range m {
				if x != e.Res {
					d[x] = -n
				}
			}
			if k.Sign() == 0 {
				return false
			}
			return rate(new(big.Rat).Inv(k), d)
		}
	}
	return false
}

func eqMono(k *big.Rat, m map[*Term]int, k2 *big.Rat, m2 map[*Term]int) bool {
	if k.Cmp(k2) != 0 || len(m) != len(m2) {
		return false
	}
	for x, n := range m {
		if m2[x] != n {
			return false
		}
	}
	return true
}

// connects: the functions that make a link between two servers.
func (w *loadp) connects(f *ssa.Function) bool {
	if f.Parent() != nil || f.Pkg == nil || w.c.rel(f.Pkg.Pkg) != w.rel {
		return false
	}
	ns, nd := 0, 0
	for _, p := range f.Params {
		if pt, ok := p.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), w.tS) {
			ns++
		}
		if isDuration(p.Type()) {
			nd++
		}
	}
	return ns == 2 && nd == 1 && f.Signature.Recv() == nil
}

// makes: the function (or one it calls) creates a value of the type.
func makes(f *ssa.Function, name string, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Alloc:
				if isNamed(name)(deref(in.Type())) {
					return true
				}
			case *ssa.MakeInterface:
				if isNamed(name)(deref(in.X.Type())) {
					return true
				}
			case ssa.CallInstruction:
				if g := in.Common().StaticCallee(); g != nil && g.Pkg == f.Pkg && makes(g, name, seen) {
					return true
				}
			}
		}
	}
	return false
}

// setup: main makes, connects and starts the servers the flags ask for.
func (w *loadp) setup() {
	c, tb := w.c, w.x.TB
	fn := c.Fn(w.rel, "", "main")
	if fn == nil {
		return
	}
	inl, rd := w.x.Inline, w.x.Reads
	w.x.Inline = func(f *ssa.Function) bool {
		if w.connects(f) || f.Name() == "loadTopology" {
			return false
		}
		switch recvName(f) {
		case "distributionSketch":
			return false
		}
		return inl(f)
	}
	w.x.Reads = func(ci *absint.CallInfo) bool { return ci.Key == schedMsg }
	defer func() { w.x.Inline, w.x.Reads = inl, rd }()
	ps := c.Run(w.x, fn, nil, nil)
	name := w.rel + ".main"
	segs := c.Segs(ps)
	made, linked := 0, 0
	var conns []string
	seen := map[*Loop]bool{}
	for _, s := range segs {
		for _, e := range evs(s.P, "call", "") {
			isC := e.CallFn != nil && w.connects(e.CallFn)
			if e.Callee != schedMsg && !isC {
				continue
			}
			if !c.Ob(s.Loop != nil && len(s.Outer) == 0, "setup", name+" loop", e.Pos, "servers are started or connected outside of the loops over all of them") {
				continue
			}
			if seen[s.Loop] {
				continue
			}
			seen[s.Loop] = true
			if isC {
				linked++
				conns = append(conns, w.links(ps, s.Loop, name)...)
			} else {
				made++
				w.start(ps, s.Loop, name)
			}
		}
	}
	c.Ob(made > 0, "instances", name+" servers", token.NoPos, "no server is started")
	c.Ob(linked > 0, "instances", name+" links", token.NoPos, "no link is made")
	if w.rel == "newsim" {
		sort.Strings(conns)
		j := strings.Join(conns, " ")
		c.Ob(strings.Contains(j, "coding") && strings.Contains(j, "pull"), "instances", name+" algorithms", token.NoPos, "not both algorithms can be simulated: %s", j)
	}
	// every path that runs the simulation has made and connected the servers once
	for _, p := range ps {
		runs := false
		nm, nl := 0, 0
		for _, e := range p.Events {
			if e.Kind != "loop" {
				continue
			}
			m, l := false, false
			c.EachLoop([]*Path{{Events: []*Event{e}}}, func(_ []*Loop, k *Loop, _ *Path) {
				for _, b := range k.Backs {
					runs = runs || len(evs(b, "call", "(*des.Simulator).RunUntil"))+len(evs(b, "call", "(*des.Simulator).Run")) > 0
					m = m || len(evs(b, "call", schedMsg)) > 0
					for _, x := range evs(b, "call", "") {
						l = l || x.CallFn != nil && w.connects(x.CallFn)
					}
				}
			})
			if m {
				nm++
				c.Ob(!runs, "setup", name+" order", e.Pos, "servers are started after the simulation")
			}
			if l {
				nl++
				c.Ob(!runs, "setup", name+" order", e.Pos, "servers are connected after the simulation")
			}
		}
		if runs {
			c.Ob(nm == 1 && nl == 1, "setup", name+" once", p.Pos, "the simulation runs after starting the servers %d times and connecting them %d times", nm, nl)
		}
	}
	_ = tb
}

// start: one round of the loop makes one server and its first events.
func (w *loadp) start(ps []*Path, L *Loop, name string) {
	c, tb := w.c, w.x.TB
	var topo *Event
	ex := c.Exits(ps, L)
	for _, p := range ex {
		for _, e := range p.History() {
			if e.Kind == "call" && strings.HasSuffix(e.Callee, ".loadTopology") {
				topo = e
			}
		}
	}
	if !c.Ob(topo != nil, "servers", name, L.Pos, "the servers are made without the topology") {
		return
	}
	n := tb.Mk("extract", "1", topo.Res)
	ix, ok := w.counter(L, ex, n)
	if !c.Ob(ok, "servers", name+" number", L.Pos, "not exactly as many servers are made as the topology has") {
		return
	}
	for _, b := range L.Backs {
		fl := flagsOf(b)
		var srv *Term
		used := map[*Term]bool{}
		arr, sync := 0, 0
		rate, burst := fl["txgen"], fl["b"]
		if !c.Ob(rate != nil && burst != nil, "anchor", name+" flags", b.Pos, "flags for the rate and the burst size not found") {
			return
		}
		for _, e := range evs(b, "call", schedMsg) {
			_, to := msgType(e.Args[2])
			if !c.Ob(to != nil && to.Op == "alloc" && (srv == nil || srv == to), "started", name+" server", e.Pos, "a first event is scheduled at %s, not at the server just made", e.Args[2]) {
				continue
			}
			srv = to
			m := e.Args[1]
			if m.Op == "load" || m.Op == "param" {
				c.Fail("undecided", name, e.Pos, "the message scheduled is not known")
				continue
			}
			pay, val := msgType(tb.Field(m, w.tOut, w.oPay))
			dst := tb.Field(m, w.tOut, w.oTo)
			_, dv := msgType(dst)
			c.Ob(dst == tb.Nil() || dst.Op == "zero" || dv == srv, "started", name+" to", e.Pos, "the first event of a server is addressed to %s", dst)
			delay := tb.Field(m, w.tOut, w.oDelay)
			switch pay {
			case "main.blockArrival":
				arr++
				c.Ob(val.Typ != nil && b.St.F.ProveEq(tb.Field(val, val.Typ, 0), burst), "arrival", name+" burst", e.Pos, "the first arrival brings %s transactions", val)
				rng := b.St.Peek(w.fa(srv, w.tS, w.fRng))
				ok := w.draws(b, delay, rng, used, func(k *big.Rat, m map[*Term]int) bool {
					return eqMono(k, m, big.NewRat(1, 1000000000), map[*Term]int{rate: 1, burst: -1})
				})
				c.Ob(ok, "arrival", name+" delay", e.Pos, "the first arrival comes after %s", delay)
			case "main.createNewBlock":
				sync++
				per := fl["sync"]
				c.Ob(per != nil && b.St.F.ProveEq(delay, per), "period", name, e.Pos, "the first period of a server is %s", delay)
			default:
				c.Fail("started", name+" other", e.Pos, "a server starts with an unknown event: %s", m)
			}
		}
		c.Ob(arr == 1, "arrival", name+" once", b.Pos, "a server starts with %d arrivals", arr)
		if srv == nil {
			continue
		}
		if w.rel == "simulator" {
			per := fl["sync"]
			if c.Ob(per != nil, "anchor", name+" sync", b.Pos, "flag for the period not found") {
				zero, known := b.St.F.Value(tb.Eq(per, tb.Int(0), true))
				switch {
				case known && zero:
					c.Ob(sync == 0, "period", name+" off", b.Pos, "a server without a period starts with %d period events", sync)
				case known:
					c.Ob(sync == 1, "period", name+" on", b.Pos, "a server with a period starts with %d period events", sync)
				default:
					c.Fail("period", name+" decided", b.Pos, "period events do not depend on the period")
				}
				c.Ob(b.St.F.ProveEq(b.St.Peek(w.loc(srv, w.fSync)), per), "configured", name+" period", b.Pos, "a server gets the period %s", b.St.Peek(w.loc(srv, w.fSync)))
			}
		}
		c.Ob(sameMono(tb, b.St.Peek(w.loc(srv, w.fIntv)), big.NewRat(1, 1000000000), map[*Term]int{rate: 1, burst: -1}), "configured", name+" rate", b.Pos, "a server gets the arrival rate %s", b.St.Peek(w.loc(srv, w.fIntv)))
		c.Ob(b.St.F.ProveEq(b.St.Peek(w.loc(srv, w.fBurst)), burst), "configured", name+" burst", b.Pos, "a server gets the burst size %s", b.St.Peek(w.loc(srv, w.fBurst)))
		// the list
		n := 0
		for _, v := range L.Vars {
			if v.LV.Typ == nil || sliceElem(v.LV.Typ) == nil {
				continue
			}
			if r := L.Back(b, v); r.Op == "append" && r.Args[0] == v.LV && len(r.Args) == 2 && r.Args[1] == srv {
				n++
				c.Ob(tb.Len(v.Entry) == tb.Int(0) || v.Entry.Op == "nil", "servers", name+" list", L.Pos, "the list of servers starts as %s", v.Entry)
			}
		}
		for _, e := range evs(b, "store", "") {
			if len(e.Args) > 1 && e.Args[1] == srv && e.Args[0].Op == "iaddr" {
				n++
			}
		}
		c.Ob(n >= 1, "servers", name+" kept", b.Pos, "a server made is not kept in the list of servers")
		// the random generator
		rng := b.St.Peek(w.fa(srv, w.tS, w.fRng))
		ok := false
		for _, e := range evs(b, "call", "rand.New") {
			if e.Res != rng {
				continue
			}
			for _, s := range evs(b, "call", "rand.NewSource") {
				src := e.Args[0]
				if src.Op == "iface" {
					src = src.Args[0]
				}
				if s.Res != src && s.Res != e.Args[0] {
					continue
				}
				lin := tb.LinOf(tb.Add(s.Args[0], tb.Int(0)))
				dep, bad := false, false
				for i, v := range lin.Vars {
					at := false
					for _, j := range ix {
						jl := tb.LinOf(j)
						for _, x := range jl.Vars {
							at = at || x == v
						}
					}
					if at {
						dep = lin.Coef[i].Sign() != 0
					} else if L.Var(v) != nil || v.Op == "sym" && !strings.HasPrefix(v.Aux, "flag@") {
						bad = true
					}
				}
				ok = dep && !bad
			}
		}
		c.Ob(ok, "own-random", name, b.Pos, "a server does not get a random generator of its own, seeded by its number: %s", rng)
	}
}

// links: one round of the loop over the topology makes one link.
func (w *loadp) links(ps []*Path, L *Loop, name string) []string {
	c, tb := w.c, w.x.TB
	var topo *Event
	ex := c.Exits(ps, L)
	for _, p := range ex {
		for _, e := range p.History() {
			if e.Kind == "call" && strings.HasSuffix(e.Callee, ".loadTopology") {
				topo = e
			}
		}
	}
	if !c.Ob(topo != nil, "links", name, L.Pos, "the servers are connected without the topology") {
		return nil
	}
	list := tb.Mk("extract", "0", topo.Res)
	ix, ok := w.counter(L, ex, tb.Len(list))
	if !c.Ob(ok, "links", name+" all", L.Pos, "not every link of the topology is made exactly once") {
		return nil
	}
	var out []string
	tC := c.Type(w.rel, "connection")
	if tC == nil {
		return nil
	}
	fa, fb, fd := field(tC, "a", nil), field(tC, "b", nil), field(tC, "delay", isDuration)
	if !c.Ob(fa >= 0 && fb >= 0 && fd >= 0, "anchor", w.rel+" link", L.Pos, "ends and delay of a link not found") {
		return nil
	}
	for _, b := range L.Backs {
		k := b.St.Load(b.St.IndexAddr(list, ix[0], tC), tC)
		var es []*Event
		for _, e := range evs(b, "call", "") {
			if e.CallFn != nil && w.connects(e.CallFn) {
				es = append(es, e)
			}
		}
		if w.rel == "newsim" {
			want := ""
			none := false
			for nm, t := range flagsOf(b) {
				if nm != "a" {
					continue
				}
				none = true
				for _, alg := range []string{"coding", "pull"} {
					v, known := b.St.F.Value(tb.Eq(t, tb.MkT(t.Typ, "str", alg), false))
					if known && v {
						want = alg
					}
					none = none && known && !v
				}
			}
			if want == "" {
				c.Ob(none && len(es) == 0, "links", name+" algorithm", b.Pos, "a link is made whatever the algorithm chosen is")
				continue
			}
			out = append(out, want)
			c.Ob(len(es) == 1 && makes(es[0].CallFn, want, map[*ssa.Function]bool{}), "links", name+" "+want, b.Pos, "with the algorithm %s a link is not made once for it", want)
		}
		if !c.Ob(len(es) == 1, "links", name+" each", b.Pos, "a link of the topology is made %d times", len(es)) {
			continue
		}
		var ends []*Term
		for i, p := range es[0].CallFn.Params {
			if i >= len(es[0].Args) {
				break
			}
			if isDuration(p.Type()) {
				c.Ob(b.St.F.ProveEq(es[0].Args[i], tb.Field(k, tC, fd)), "links", name+" delay", es[0].Pos, "a link gets the delay %s", es[0].Args[i])
			}
			if pt, ok := p.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), w.tS) {
				ends = append(ends, es[0].Args[i])
			}
		}
		idx := func(t *Term) *Term {
			if t.Op == "load" && t.Args[0].Op == "iaddr" {
				return t.Args[0].Args[1]
			}
			if t.Op == "idx" || t.Op == "elem" {
				return t.Args[1]
			}
			return nil
		}
		if len(ends) == 2 {
			x, y := idx(ends[0]), idx(ends[1])
			a, d := tb.Field(k, tC, fa), tb.Field(k, tC, fb)
			c.Ob(x != nil && y != nil && b.St.F.ProveEq(x, a) && b.St.F.ProveEq(y, d), "links", name+" ends", es[0].Pos, "a link connects %s and %s", ends[0], ends[1])
		}
	}
	return out
}

// arrivals: what a server does at arrivals and at the end of periods.
func (w *loadp) arrivals() {
	c, tb := w.c, w.x.TB
	tS, fH, fP := w.server()
	if tS == nil || fH < 0 || fP < 0 {
		return
	}
	starts := func(f *ssa.Function) bool { // sender's operations that may start a block
		if recvName(f) != "sender" {
			return false
		}
		for _, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				return true
			}
		}
		return false
	}
	inl := w.x.Inline
	w.x.Inline = func(f *ssa.Function) bool {
		switch recvName(f) {
		case "receiver", "distributionSketch", "transactionGenerator", "pull", "coding":
			return false
		case "sender":
			return w.rel == "simulator" && !starts(f)
		}
		return inl(f)
	}
	defer func() { w.x.Inline = inl }()
	fn := c.Fn(w.rel, "server", "HandleMessage")
	if fn == nil {
		return
	}
	typs := []string{"blockArrival", "initialBroadcast", "codeword", "ack", "announce", "request", "response"}
	if w.rel == "simulator" {
		typs = []string{"blockArrival", "loopback", "createNewBlock", "codeword", "ack"}
	}
	for _, typ := range typs {
		t := c.Type(w.rel, typ)
		if !c.Ob(t != nil, "anchor", w.rel+" "+typ, token.NoPos, "message type %s not found", typ) {
			continue
		}
		val := w.x.Param("m", t)
		st := w.x.NewState()
		var args []*Term
		for i, p := range fn.Params {
			if i > 0 && isAny(p.Type()) {
				args = append(args, tb.MkT(p.Type(), "iface", absint.TypeKey(t), val))
			} else {
				args = append(args, w.x.Param(p.Name(), p.Type()))
			}
		}
		me := args[0]
		st0 := st.Clone()
		ps := c.Run(w.x, fn, st, args)
		rt := &ltRoot{fn: fn, name: w.rel + ".server.HandleMessage", args: args, st0: st0, ps: ps, idx: c.lvIndex(ps)}
		name := rt.name + " " + typ
		rng, intv, burst := st0.Peek(w.fa(me, w.tS, w.fRng)), st0.Peek(w.loc(me, w.fIntv)), st0.Peek(w.loc(me, w.fBurst))
		n := 0
		for _, p := range ps {
			if p.Kind != "return" || len(p.Vals) != 1 {
				continue
			}
			n++
			used := map[*Term]bool{}
			next, sync := 0, 0
			for _, e := range w.own(rt, p) {
				m := e.m
				pay, v := msgType(tb.Field(m, w.tOut, w.oPay))
				if pay != "main.blockArrival" && pay != "main.createNewBlock" {
					continue
				}
				to := tb.Field(m, w.tOut, w.oTo)
				_, tv := msgType(to)
				c.Ob(!e.loop, "next", name+" loop", p.Pos, "an event of a server is scheduled once for every round of a loop")
				c.Ob(to == tb.Nil() || to.Op == "zero" || tv == me, "next", name+" to", p.Pos, "the next event of a server is addressed to %s", to)
				delay := tb.Field(m, w.tOut, w.oDelay)
				if pay == "main.blockArrival" {
					next++
					num := tb.Field(v, v.Typ, 0)
					c.Ob(p.St.F.ProveEq(num, burst) || typ == "blockArrival" && p.St.F.ProveEq(num, tb.Field(val, t, 0)), "arrival", name+" burst", p.Pos, "the next arrival brings %s transactions", num)
					ok := w.draws(p, delay, rng, used, func(k *big.Rat, m map[*Term]int) bool {
						return eqMono(k, m, big.NewRat(1, 1), map[*Term]int{intv: 1})
					})
					c.Ob(ok, "arrival", name+" delay", p.Pos, "the next arrival comes after %s", delay)
				} else {
					sync++
					c.Ob(w.fSync != nil && p.St.F.ProveEq(delay, st0.Peek(w.loc(me, w.fSync))), "period", name+" delay", p.Pos, "the next period of a server is %s", delay)
				}
			}
			want, ws := 0, 0
			switch typ {
			case "blockArrival":
				want = 1
			case "createNewBlock":
				ws = 1
			}
			c.Ob(next == want, "arrival", name+" next", p.Pos, "handling a %s schedules %d arrivals", typ, next)
			c.Ob(sync == ws, "period", name+" next", p.Pos, "handling a %s schedules %d period events", typ, sync)
			for _, f := range [][]int{w.fIntv, w.fBurst, w.fSync, {w.fRng}} {
				if f != nil {
					c.Ob(p.St.Peek(w.loc(me, f)) == st0.Peek(w.loc(me, f)), "configured", name, p.Pos, "handling a %s changes the configuration of the server", typ)
				}
			}
		}
		c.Ob(n > 0, "instances", name, token.NoPos, "handling a %s never ends", typ)
		if w.rel != "simulator" {
			continue
		}
		// who may start a block
		per := st0.Peek(w.loc(me, w.fSync))
		nstart := 0
		for _, s := range c.Segs(ps) {
			for _, e := range evs(s.P, "call", "") {
				if e.CallFn == nil || !starts(e.CallFn) {
					continue
				}
				nstart++
				for i, p := range e.CallFn.Params {
					b, ok := p.Type().Underlying().(*types.Basic)
					if !ok || b.Kind() != types.Bool || i >= len(e.Args) {
						continue
					}
					a := e.Args[i]
					if typ == "createNewBlock" {
						v, known := s.P.St.F.Value(a)
						c.Ob(known && v, "may-start", name, e.Pos, "at the end of a period a sender may start a block only if %s", a)
						continue
					}
					z := tb.Eq(per, tb.Int(0), true)
					ok = a == z
					if !ok {
						v1, k1 := s.P.St.F.Value(a)
						v2, k2 := s.P.St.F.Value(z)
						ok = k1 && k2 && v1 == v2
					}
					c.Ob(ok, "may-start", name, e.Pos, "a sender may start a block when %s, not when there is no period", a)
				}
			}
		}
		switch typ {
		case "createNewBlock":
			w.period(rt, ps, me, starts, name)
		case "ack", "loopback":
			c.Ob(nstart > 0, "instances", name+" senders", token.NoPos, "a %s never reaches a sender", typ)
		}
	}
}

type ownMsg struct {
	m    *Term
	loop bool
}

// own: the messages the server itself adds to the result of p.
func (w *loadp) own(rt *ltRoot, p *Path) []ownMsg {
	var out []ownMsg
	is := func(x *Term) bool { return x.Typ != nil && types.Identical(x.Typ, w.tOut) }
	seen := map[*Loop]bool{}
	var down func(p *Path, v *Term, depth int)
	done := map[*Term]bool{}
	down = func(p *Path, v *Term, depth int) {
		if done[v] || depth > 60 {
			return
		}
		done[v] = true
		switch v.Op {
		case "append", "appendsl":
			for _, x := range v.Args[1:] {
				if is(x) {
					out = append(out, ownMsg{m: x})
				} else {
					down(p, x, depth+1)
				}
			}
			down(p, v.Args[0], depth+1)
		case "slice":
			down(p, v.Args[0], depth+1)
		default:
			for _, r := range rt.idx[v] {
				if seen[r.l] || !onPath(p, r.l) {
					continue
				}
				seen[r.l] = true
				for _, b := range r.l.Backs {
					n := len(out)
					down(b, r.l.Back(b, r.v), depth+1)
					for i := n; i < len(out); i++ {
						out[i].loop = true
					}
				}
				down(p, r.v.Entry, depth+1)
			}
		}
	}
	down(p, p.Vals[0], 0)
	return out
}

// period: at the end of a period the sender of every peer may start a block, once.
func (w *loadp) period(rt *ltRoot, ps []*Path, me *Term, starts func(*ssa.Function) bool, name string) {
	c, tb := w.c, w.x.TB
	_, fH, fP := w.server()
	elem := w.ftype(w.tS, fH).Underlying().(*types.Map).Elem()
	for _, p := range ps {
		if p.Kind != "return" {
			continue
		}
		var ls []*Loop
		for _, e := range evs(p, "loop", "") {
			hit := false
			for _, b := range e.Loop.Backs {
				for _, x := range evs(b, "call", "") {
					hit = hit || x.CallFn != nil && starts(x.CallFn)
				}
			}
			if hit {
				ls = append(ls, e.Loop)
			}
		}
		if !c.Ob(len(ls) == 1, "period", name+" senders", p.Pos, "at the end of a period the senders are asked to start in %d loops", len(ls)) {
			continue
		}
		L := ls[0]
		peers := L.HeadSt.Peek(w.fa(me, w.tS, fP))
		ix, ok := w.counter(L, []*Path{p}, tb.Len(peers))
		if !c.Ob(ok, "period", name+" all", L.Pos, "at the end of a period not every peer's sender is asked to start") {
			continue
		}
		for _, b := range L.Backs {
			peer := b.St.Load(b.St.IndexAddr(peers, ix[0], sliceElem(peers.Typ)), sliceElem(peers.Typ))
			hand := b.St.MapGet(L.HeadSt.MapContent(L.HeadSt.Peek(w.fa(me, w.tS, fH))), peer, elem)
			n := 0
			for _, x := range evs(b, "call", "") {
				if x.CallFn != nil && starts(x.CallFn) {
					n++
					c.Ob(absint.Contains(x.Args[0], hand), "period", name+" whose", x.Pos, "at the end of a period the sender asked to start is %s", x.Args[0])
				}
			}
			c.Ob(n == 1, "period", name+" each", b.Pos, "at the end of a period a sender is asked to start %d times", n)
		}
	}
}
