package rules

import (
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

func init() {
	register(&Rule{ID: "C48", Pkgs: []string{"node"}, MinObl: 15, Run: ruleC48,
		What: "main is executed abstractly from its flags, and every goroutine from the state it is started in: what the codec, the code distribution, the rate control, the expiry of codewords, the listener and the dialers are given is traced to the flag it is due from; each connection that is accepted or made is handed on once, each configured address is dialled until that works, and the generating goroutine makes one fresh transaction per firing of a timer whose every delay is an exponential draw at the configured rate"})
	register(&Rule{ID: "C49", Pkgs: []string{"node"}, MinObl: 12, Run: ruleC49,
		What: "over the same abstract executions: the stamp written into a transaction or codeword and the one read back are at the same place, in the same byte order and unit; per iteration of a goroutine a delay is recorded exactly for what was received there, for transactions only once warmed up, which happens only when the configured time has passed; counters printed grow by one exactly when what they count happens; the figures printed are the ones their labels name"})
}

// nload is the program followed from its flags through all its goroutines.
type nload struct {
	*simp
	ps    []*Path
	segs  []Seg
	flags map[string]*Term // what the command line says
	role  map[*Loop]string
	n     *nodep
	rt    *ltRoot
	tCW   types.Type
}

func (c *C) nload() *nload {
	w := &nload{simp: c.sim("node"), flags: map[string]*Term{}, role: map[*Loop]string{}}
	x := w.x
	x.Spawn = true
	x.Reads = func(ci *absint.CallInfo) bool {
		switch ci.Key {
		case "(*gob.Decoder).Decode", "io.ReadFull", "rand.Read", "(*ldpc.Transaction).UnmarshalBinary":
			return false
		}
		return !strings.HasPrefix(ci.Key, "flag.") && !strings.HasPrefix(ci.Key, "(*flag.")
	}
	rt := w.run("", "main", nil)
	if rt == nil {
		return nil
	}
	w.rt = rt
	w.ps = append(append([]*Path{}, rt.ps...), x.Spawned...)
	w.segs = c.Segs(w.ps)
	vals := map[string]map[*Term]bool{}
	for _, p := range w.ps {
		for n, t := range flagsOf(p) {
			if vals[n] == nil {
				vals[n] = map[*Term]bool{}
			}
			vals[n][t] = true
		}
	}
	// a flag's own value is the one no other flag has
	for n, m := range vals {
		var own []*Term
		for t := range m {
			if t.Op != "sym" && !strings.Contains(t.Aux, "'") {
				continue
			}
			shared := false
			for n2, m2 := range vals {
				shared = shared || n2 != n && m2[t]
			}
			if !shared || len(m) == 1 {
				own = append(own, t)
			}
		}
		if len(own) == 1 {
			w.flags[n] = own[0]
		}
	}
	for _, sg := range w.segs {
		if sg.Loop == nil {
			continue
		}
		top := w.top(sg)
		for _, e := range sg.P.Events {
			r := ""
			switch {
			case isRecv(e) && isNamed("DecodedTransaction")(chanElem(e)):
				r = "K"
			case e.Kind == "call" && e.Callee == "(*ldpc.Encoder).ProduceCodeword":
				r = "E"
			case e.Kind == "call" && e.Callee == "(*ldpc.Decoder).AddCodeword":
				r = "D"
			case w.fresh(e) != nil:
				r = "G"
			}
			if r != "" {
				w.role[top] = r
			}
		}
	}
	w.n = &nodep{simp: w.simp}
	w.n.classes(&ltRoot{ps: w.ps})
	return w
}

func (w *nload) top(sg Seg) *Loop {
	if len(sg.Outer) > 0 {
		return sg.Outer[0]
	}
	return sg.Loop
}

func (w *nload) is(sg Seg, role string) bool {
	return sg.Loop != nil && w.role[w.top(sg)] == role
}

func noType() types.Type { return types.Typ[types.Invalid] }

// chanElem is the type of what a channel event passes.
func chanElem(e *Event) types.Type {
	var v ssa.Value
	switch in := e.Instr.(type) {
	case *ssa.Send:
		v = in.Chan
	case *ssa.Select:
		if e.Case >= 0 && e.Case < len(in.States) {
			v = in.States[e.Case].Chan
		}
	case *ssa.UnOp:
		v = in.X
	}
	if v == nil {
		return noType()
	}
	ch, ok := v.Type().Underlying().(*types.Chan)
	if !ok {
		return noType()
	}
	return ch.Elem()
}

// fresh is the transaction made here that e hands on.
func (w *nload) fresh(e *Event) *Term {
	if !isSend(e) || !ptrTo("Transaction")(chanElem(e)) || len(e.Args) < 2 || e.Args[1].Op != "alloc" {
		return nil
	}
	return e.Args[1]
}

func (w *nload) flag(name string) *Term {
	t := w.flags[name]
	w.c.Ob(t != nil, "anchor", "flag -"+name, w.rt.fn.Pos(), "the value of the flag -%s cannot be followed", name)
	return t
}

// given: argument t at e is the value of a flag.
func (w *nload) given(e *Event, i int, name, what string, n map[string]int) {
	f := w.flags[name]
	if i >= len(e.Args) || f == nil {
		return
	}
	n[what]++
	t := e.Args[i]
	w.c.Ob(bare(t) == f, "configured", what, e.Pos, "the %s is %s, not what -%s says", what, t, name)
}

// bare is t without conversions between numbers.
func bare(t *Term) *Term {
	for t != nil && (t.Op == "conv" || t.Op == "changetype") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

func ruleC48(c *C) {
	w := c.nload()
	if w == nil {
		return
	}
	for _, n := range []string{"warmup", "l", "p", "k", "m", "c", "tx", "delta", "r0", "rmin", "inc", "loss", "t"} {
		if w.flag(n) == nil {
			return
		}
	}
	n := map[string]int{}
	dists := map[*Term]bool{}
	seen := map[*Event]bool{}
	for _, sg := range w.segs {
		for _, e := range sg.P.Events {
			if e.Kind != "call" || seen[e] {
				continue
			}
			seen[e] = true
			switch e.Callee {
			case "soliton.NewRobustSoliton":
				dists[e.Res] = true
				w.given(e, 1, "k", "size of the code distribution", n)
				w.given(e, 2, "c", "parameter c of the code distribution", n)
				w.given(e, 3, "delta", "parameter delta of the code distribution", n)
			case "ldpc.NewEncoder":
				w.given(e, 2, "k", "encoder's window", n)
				n["encoder's distribution"]++
				c.Ob(dists[bareIface(e.Args[1])], "configured", "encoder's distribution", e.Pos, "the encoder draws its degrees from %s", e.Args[1])
			case "ldpc.NewDecoder":
				w.given(e, 1, "m", "decoder's window", n)
			case "(*net.ListenConfig).Listen":
				w.given(e, 3, "l", "address listened on", n)
			case "net.Listen":
				w.given(e, 1, "l", "address listened on", n)
			}
		}
	}
	w.expiry(n)
	w.rateOf(n)
	w.accepts(n)
	w.dials(n)
	w.generates(n)
	for _, what := range []string{"size of the code distribution", "encoder's window", "encoder's distribution", "decoder's window", "address listened on", "timeout", "raise", "cut", "floor", "initial rate", "connection accepted", "connection made", "address dialled", "transaction made", "first delay or only sleeps", "goroutine for transactions"} {
		c.Ob(n[what] > 0, "instances", what, token.NoPos, "no %s found", what)
	}
}

func bareIface(t *Term) *Term {
	for t.Op == "iface" && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t
}

var timeFns = map[string]bool{"(time.Time).Sub": true, "(time.Time).After": true, "(time.Time).Before": true}

// timed: the parts of a condition that tell how much time has passed.
func (w *nload) timed(p *Path, cond *Term) []*Term {
	var out []*Term
	for _, a := range subterms(cond) {
		if a.Op == "call" && timeFns[a.Aux] || a.Op == "sym" && strings.HasPrefix(a.Aux, "time.Since") {
			out = append(out, a)
		}
	}
	return out
}

// expiry: how long codewords are kept is decided with -t.
func (w *nload) expiry(n map[string]int) {
	for _, sg := range w.segs {
		if !w.is(sg, "D") {
			continue
		}
		for _, e := range sg.P.Events {
			if e.Kind == "branch" && len(w.timed(sg.P, e.Cond)) > 0 {
				n["timeout"]++
				w.c.Ob(absint.Contains(e.Cond, w.flags["t"]), "configured", "timeout", e.Pos, "the age of a codeword is judged by %s, not by -t", e.Cond)
			}
		}
	}
}

// rateOf: the constants of the rate control come from the flags.
func (w *nload) rateOf(n map[string]int) {
	c, tb := w.c, w.x.TB
	inc, loss, min := w.flags["inc"], w.flags["loss"], w.flags["rmin"]
	rate := map[any]bool{}
	for _, sg := range w.segs {
		if !w.is(sg, "E") {
			continue
		}
		for _, e := range sg.P.Events {
			if !isRecv(e) || !isBasicInt(chanElem(e)) || !got(sg.P, e) {
				continue
			}
			for _, v := range sg.Loop.Vars {
				if v.LV.Typ == nil || !isF64(v.LV.Typ) {
					continue
				}
				d := tb.Sub(sg.Loop.Back(sg.P, v), v.LV)
				if !absint.Contains(d, e.Res) {
					continue
				}
				rate[w.n.class(v)] = true
				n["raise"]++
				k, m := mono(tb, d)
				c.Ob(k.Cmp(big.NewRat(1, 1)) == 0 && len(m) == 2 && m[inc] == 1 && m[e.Res] == 1, "configured", "raise", sg.P.Pos, "the rate grows by %s for %s losses, not by -inc each", d, e.Res)
			}
		}
	}
	kept := map[*Term]bool{} // the rate as a loop within left it
	for _, sg := range w.segs {
		for i := 0; sg.Loop != nil && i < len(sg.Loop.Vars); i++ {
			if v := sg.Loop.Vars[i]; rate[w.n.class(v)] {
				kept[v.LV] = true
			}
		}
	}
	for _, sg := range w.segs {
		if !w.is(sg, "E") {
			continue
		}
		for _, v := range sg.Loop.Vars {
			if !rate[w.n.class(v)] {
				continue
			}
			b := sg.Loop.Back(sg.P, v)
			if b.Op == "call" && b.Aux == "math.Max" && len(b.Args) == 2 {
				for i := 0; i < 2; i++ {
					if bare(b.Args[i]) == min {
						n["floor"]++
						b = b.Args[1-i]
						break
					}
				}
			}
			d := tb.Sub(b, v.LV)
			k, m := mono(tb, d)
			switch {
			case b == v.LV || kept[b]:
			case bare(b) == min:
				n["floor"]++
			case len(m) == 2 && m[inc] == 1 && m[loss] == 1:
				n["cut"]++
				c.Ob(k.Cmp(big.NewRat(-1, 1)) == 0, "configured", "cut", sg.P.Pos, "the rate changes by %s per codeword, not by -inc times -loss less", d)
			default:
				raised := false
				for _, e := range sg.P.Events {
					raised = raised || isRecv(e) && absint.Contains(d, e.Res)
				}
				c.Ob(raised, "configured", "rate", sg.P.Pos, "the rate becomes %s", b)
			}
			if len(sg.Outer) == 0 {
				n["initial rate"]++
				c.Ob(w.initial(sg.P, v.Entry), "configured", "initial rate", sg.Loop.Pos, "the codeword rate starts at %s where the facts are %s", v.Entry, w.rateFacts(sg.P))
			}
		}
	}
}

func (w *nload) rateFacts(p *Path) string {
	var out []string
	for a, v := range p.St.F.AtomList() {
		if absint.Contains(a, w.flags["r0"]) || absint.Contains(a, w.flags["rmin"]) {
			if !v {
				out = append(out, "not")
			}
			out = append(out, a.String())
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// initial: t is -r0, or -tx if that is zero, and at least -rmin.
func (w *nload) initial(p *Path, t *Term) bool {
	tb, f := w.x.TB, p.St.F
	r0, tx, min := w.flags["r0"], w.flags["tx"], w.flags["rmin"]
	zero := f.Entails(tb.Eq(r0, tb.Int(0), true)) || f.Entails(tb.FLe(r0, tb.Int(0))) && f.Entails(tb.FLe(tb.Int(0), r0))
	set := !zero && f.Entails(tb.Not(tb.Eq(r0, tb.Int(0), true)))
	for a, v := range f.AtomList() {
		if a.Op == "feq0" && a.Args[0] == r0 {
			zero, set = zero || v, set || !v
		}
	}
	want := r0
	if zero {
		want = tx
	} else if !set {
		return false
	}
	t = bare(t)
	if t.Op == "call" && t.Aux == "math.Max" {
		return bare(t.Args[0]) == want && bare(t.Args[1]) == min || bare(t.Args[0]) == min && bare(t.Args[1]) == want
	}
	if t == want && f.Entails(tb.FLe(min, want)) {
		return true
	}
	return t == min && f.Entails(tb.FLe(want, min))
}

// claims counts how often a connection is handed on in p after event from.
func (w *nload) claims(p *Path, from *Event, conn *Term) int {
	depth, n, direct := 0, 0, 0
	on := false
	holds := func(e *Event) bool {
		for _, a := range append(append([]*Term{}, e.Args...), e.Res) {
			if a == nil {
				continue
			}
			if bareIface(a) == conn {
				return true
			}
			if a.Op == "closure" {
				for _, b := range a.Args {
					if b == conn || p.St.Peek(b) == conn {
						return true
					}
				}
			}
		}
		return false
	}
	in := 0
	for _, e := range p.Events {
		if e == from {
			on = true
			continue
		}
		if !on {
			continue
		}
		switch e.Kind {
		case "enter":
			if depth == 0 && holds(e) {
				n++
				in = 1
			}
			depth++
		case "leave":
			if depth--; depth <= 0 {
				// below zero: the function that has made the connection is left
				depth, in = 0, 0
			}
		case "go", "send", "defer":
			if in == 0 && holds(e) {
				n++
			}
		case "call":
			if in == 0 && strings.HasSuffix(e.Callee, ").Write") && len(e.Args) > 0 && bareIface(e.Args[0]) == conn {
				direct++
			}
		}
	}
	return n + direct
}

// accepts: every connection accepted is handed on once.
func (w *nload) accepts(n map[string]int) {
	c, tb := w.c, w.x.TB
	for _, sg := range w.segs {
		if sg.Loop == nil {
			continue
		}
		for _, e := range evs(sg.P, "call", "(net.Listener).Accept") {
			conn, err := tb.Mk("extract", "0", e.Res), tb.Mk("extract", "1", e.Res)
			v, known := sg.P.St.F.Value(tb.Eq(err, tb.Nil(), false))
			k := w.claims(sg.P, e, w.typed(sg.P, e, conn))
			switch {
			case known && !v:
				c.Ob(k == 0, "accepted", "failed", e.Pos, "a connection is used although accepting it failed")
			case !known:
				c.Fail("accepted", "unknown", e.Pos, "whether accepting a connection worked is not looked at")
			default:
				n["connection accepted"]++
				c.Ob(k == 1, "accepted", "handled", e.Pos, "a connection that is accepted is handed on %d times", k)
			}
		}
	}
	// the loop goes on for ever
	done := map[*Loop]bool{}
	for _, sg := range w.segs {
		if sg.Loop == nil || done[sg.Loop] || len(evs(sg.P, "call", "(net.Listener).Accept")) == 0 {
			continue
		}
		done[sg.Loop] = true
		ends := 0
		for _, p := range c.Exits(w.ps, sg.Loop) {
			if p.Kind != "exit" && w.within(p, sg.Loop) {
				ends++
			}
		}
		c.Ob(ends == 0, "accepted", "forever", sg.Loop.Pos, "the node can stop accepting connections")
	}
}

// typed finds the connection as the path knows it.
func (w *nload) typed(p *Path, from *Event, conn *Term) *Term {
	for _, e := range p.Events {
		for _, a := range append(append([]*Term{}, e.Args...), e.Res) {
			if a == nil {
				continue
			}
			if b := bareIface(a); b.Op == "extract" && b.Aux == "0" && b.Args[0] == from.Res {
				return b
			}
		}
	}
	return conn
}

// within: the goroutine p is a way of runs loop l itself.
func (w *nload) within(p *Path, l *Loop) bool {
	on := p.Go == nil
	for _, e := range p.Events {
		on = on || e == p.Go
		if on && e.Kind == "loop" && e.Loop == l {
			return true
		}
	}
	return false
}

// dials: every configured address is dialled until that works, and the
// connection is handed on once.
func (w *nload) dials(n map[string]int) {
	c, tb := w.c, w.x.TB
	isDial := func(e *Event) int {
		if e.Kind != "call" {
			return -1
		}
		switch e.Callee {
		case "(*net.Dialer).Dial":
			return 2
		case "(*net.Dialer).DialContext":
			return 3
		case "net.Dial", "net.DialTimeout":
			return 1
		}
		return -1
	}
	var list *Term
	index := map[*Term]bool{} // of the addresses dialled, in the loop over them
	for _, sg := range w.segs {
		for _, e := range sg.P.Events {
			i := isDial(e)
			if i < 0 || i >= len(e.Args) {
				continue
			}
			a := e.Args[i]
			ok := false
			for _, b := range subterms(a) {
				if b.Op == "call" && b.Aux == "strings.Split" && b.Args[0] == w.flags["p"] && b.Args[1].Op == "str" && (b.Args[1].Aux == `","` || b.Args[1].Aux == ",") {
					ok = w.isElem(a, b)
					list = b
					if ok {
						_, at := listElem(a)
						index[at] = true
					}
				}
			}
			n["address dialled"]++
			c.Ob(ok, "dialled", "address", e.Pos, "the address dialled is %s, not an element of the list -p", a)
		}
		if sg.Loop == nil || len(sg.Outer) > 0 {
			continue
		}
		for k, e := range sg.P.Events {
			if isDial(e) < 0 {
				continue
			}
			// dialling again: this attempt failed, or the one before this round
			err := tb.Mk("extract", "1", e.Res)
			v, known := sg.P.St.F.Value(tb.Eq(err, tb.Nil(), false))
			again := known && !v
			for _, lv := range sg.Loop.Vars {
				if sg.Loop.Back(sg.P, lv) == err {
					v, known := sg.P.St.F.Value(tb.Eq(lv.LV, tb.Nil(), false))
					again = again || known && !v
				}
			}
			for _, x := range sg.P.Events[:k] {
				again = again && isDial(x) < 0
			}
			c.Ob(again, "dialled", "retry", e.Pos, "an address is dialled again although that worked")
		}
	}
	dialLoop := func(l *Loop) bool {
		for _, b := range l.Backs {
			for _, e := range b.Events {
				if isDial(e) >= 0 {
					return true
				}
			}
		}
		return false
	}
	for _, p := range w.ps {
		// what the last attempt gave
		var conn, err *Term
		var at *Event
		for _, e := range p.Events {
			switch {
			case isDial(e) >= 0:
				conn, err, at = w.typed(p, e, tb.Mk("extract", "0", e.Res)), tb.Mk("extract", "1", e.Res), e
			case e.Kind == "loop" && dialLoop(e.Loop):
				at = e
				c0, e0 := conn, err
				conn, err = nil, nil
				for _, v := range e.Loop.Vars {
					for i, was := range []*Term{c0, e0} {
						same := was != nil && v.Entry == was
						for _, b := range e.Loop.Backs {
							t := e.Loop.Back(b, v)
							last := false
							for _, x := range b.Events {
								last = last || isDial(x) >= 0 && t.Op == "extract" && t.Aux == string('0'+rune(i)) && t.Args[0] == x.Res
							}
							same = same && last
						}
						if same && i == 0 {
							conn = v.LV
						} else if same {
							err = v.LV
						}
					}
				}
			}
		}
		if at == nil || p.Go == nil && p.Kind != "exit" && p.Kind != "return" {
			continue
		}
		fatal, later := false, false
		for _, x := range p.Events {
			later = later || x == at
			fatal = fatal || later && x.Kind == "call" && strings.HasPrefix(x.Callee, "log.Fatal")
		}
		if fatal || p.Kind == "panic" {
			continue
		}
		v, known := false, false
		if err != nil {
			v, known = p.St.F.Value(tb.Eq(err, tb.Nil(), false))
		}
		if !known || !v {
			c.Fail("dialled", "gives up", p.Go.Pos, "an address that cannot be reached is given up")
			continue
		}
		k := 0
		if conn != nil {
			k = w.claims(p, at, conn)
		}
		n["connection made"]++
		c.Ob(k == 1, "dialled", "handled", p.Go.Pos, "a connection that is made is handed on %d times", k)
	}
	if !c.Ob(list != nil, "instances", "addresses", w.rt.fn.Pos(), "the addresses to connect to are not those of -p") {
		return
	}
	// one goroutine for each address
	m := 0
	for _, p := range w.rt.ps {
		c.EachLoop([]*Path{p}, func(outer []*Loop, L *Loop, in *Path) {
			per := 0
			for _, b := range L.Backs {
				k := 0
				for _, e := range b.Events {
					if e.Kind != "go" {
						continue
					}
					for _, a := range append(append([]*Term{}, e.Args...), e.Res) {
						if a == nil {
							continue
						}
						if absint.Contains(a, list) || a.Op == "closure" && w.binds(b, a, list) {
							k++
							break
						}
					}
				}
				if k > 0 {
					per++
				}
				c.Ob(k <= 1, "dialled", "once", L.Pos, "an address is dialled by %d goroutines", k)
			}
			if per == 0 {
				return
			}
			m++
			var ends []*Path
			for _, x := range c.Exits(w.rt.ps, L) {
				y := *x
				if y.Kind == "exit" { // goes on to the endless loop of main
					y.Kind = "return"
				}
				ends = append(ends, &y)
			}
			is, ok := w.counter(L, ends, tb.Len(list))
			all := false
			for _, i := range is {
				all = all || ok && index[i]
			}
			c.Ob(all && per == len(L.Backs) && len(outer) == 0, "dialled", "all", L.Pos, "not every address of -p gets a goroutine that dials it")
		})
	}
	c.Ob(m > 0, "instances", "dialling loop", w.rt.fn.Pos(), "no loop covers the addresses of -p")
	// unless there are none
	for _, p := range w.rt.ps {
		if len(evs(p, "call", "flag.Parse")) == 0 || p.Kind != "exit" && p.Kind != "return" {
			continue
		}
		fatal := false
		for _, e := range p.Events {
			fatal = fatal || e.Kind == "call" && strings.HasPrefix(e.Callee, "log.Fatal")
		}
		v, known := p.St.F.Value(tb.Eq(w.flags["p"], w.str(""), false))
		if fatal || known && v {
			continue
		}
		dial := false
		for _, e := range p.Events {
			if e.Kind == "loop" {
				for _, b := range e.Loop.Backs {
					for _, x := range b.Events {
						for _, a := range append(append([]*Term{}, x.Args...), x.Res) {
							dial = dial || x.Kind == "go" && a != nil && (absint.Contains(a, list) || a.Op == "closure" && w.binds(b, a, list))
						}
					}
				}
			}
		}
		// a loop over no address at all has no iteration
		c.Ob(dial, "dialled", "skipped", p.Pos, "the node can run without dialling the addresses of -p")
	}
}

func (w *nload) str(s string) *Term { return w.x.TB.MkT(types.Typ[types.String], "str", s) }

func (w *nload) isElem(a, list *Term) bool {
	if a.Op == "load" {
		return a.Args[0].Op == "iaddr" && a.Args[0].Args[0] == list
	}
	return a.Op == "elem" && a.Args[0] == list
}

func (w *nload) binds(p *Path, cl, list *Term) bool {
	for _, b := range cl.Args {
		if v := p.St.Peek(b); v != nil && absint.Contains(v, list) {
			return true
		}
	}
	return false
}

// delays: the events of p that set how long to wait.
func (w *nload) delays(p *Path) []*Event {
	var out []*Event
	for _, e := range p.Events {
		if e.Kind != "call" {
			continue
		}
		switch e.Callee {
		case "(*time.Timer).Reset", "time.NewTimer", "time.After", "time.Sleep", "time.AfterFunc", "time.Tick", "time.NewTicker":
			out = append(out, e)
		}
	}
	return out
}

// drawn: e waits for an exponential time with the rate -tx, drawn in p for it.
func (w *nload) drawn(p *Path, e *Event, used map[*Term]bool) bool {
	i := 0
	if e.Callee == "(*time.Timer).Reset" {
		i = 1
	}
	k, m := mono(w.x.TB, truncated(e.Args[i]))
	if k.Cmp(big.NewRat(1e9, 1)) != 0 || len(m) != 2 || m[w.flags["tx"]] != -1 {
		return false
	}
	for _, d := range p.Events {
		if d.Kind == "call" && (d.Callee == "rand.ExpFloat64" || d.Callee == "(*rand.Rand).ExpFloat64") && m[d.Res] == 1 && !used[d.Res] {
			used[d.Res] = true
			return true
		}
	}
	return false
}

// fires: p waited for the time set before: a timer it received from.
func fires(e *Event) *Term {
	if !isRecv(e) || len(e.Args) == 0 || !isNamed("Time")(chanElem(e)) {
		return nil
	}
	t := e.Args[0]
	if t.Op == "load" && t.Args[0].Op == "faddr" {
		return t.Args[0].Args[0]
	}
	return t
}

// generates: one fresh transaction per exponential delay.
func (w *nload) generates(n map[string]int) {
	c, tb := w.c, w.x.TB
	started := map[*ssa.Function]bool{}
	doneDelay := map[*Event]bool{}
	for _, sg := range w.segs {
		if !w.is(sg, "G") {
			continue
		}
		var made []*Event
		for _, e := range sg.P.Events {
			if w.fresh(e) != nil {
				made = append(made, e)
			}
		}
		ds := w.delays(sg.P)
		if len(sg.Outer) > 0 {
			c.Ob(len(made) == 0, "generated", "loop", sg.Loop.Pos, "transactions are made in a loop within a round")
			continue
		}
		used := map[*Term]bool{}
		fired := 0
		for _, e := range sg.P.Events {
			t := fires(e)
			if t == nil || !got(sg.P, e) {
				continue
			}
			if w.oneShot(t) {
				fired++
			}
		}
		for _, e := range ds {
			c.Ob(w.drawn(sg.P, e, used), "generated", "delay", e.Pos, "the delay before a transaction is %s", e.Args[len(e.Args)-1])
			if e.Callee == "time.Sleep" {
				fired++
			}
		}
		n["transaction made"] += len(made)
		c.Ob(len(made) == fired, "generated", "per firing", sg.P.Pos, "%d transactions are made for %d delays that end", len(made), fired)
		c.Ob(len(ds) == len(made), "generated", "next", sg.P.Pos, "%d delays are started with %d transactions", len(ds), len(made))
		for _, e := range made {
			w.random(sg, e)
		}
		started[sg.Loop.Fn] = true
	}
	// the delay before the first
	for _, p := range w.ps {
		var L *Loop
		for _, e := range p.Events {
			if e.Kind == "loop" && w.role[e.Loop] == "G" {
				L = e.Loop
			}
		}
		if L == nil {
			continue
		}
		n["first delay or only sleeps"]++
		waited := map[*Term]bool{}
		for _, b := range L.Backs {
			for _, e := range b.Events {
				if t := fires(e); t != nil {
					waited[t] = true
				}
			}
		}
		used := map[*Term]bool{}
		for _, e := range w.delays(p) {
			if doneDelay[e] || e.Callee == "time.NewTicker" || !waited[e.Res] {
				continue
			}
			doneDelay[e] = true
			c.Ob(w.drawn(p, e, used), "generated", "first delay", e.Pos, "the delay before the first transaction is %s", e.Args[0])
		}
	}
	// it runs once if there is a rate
	for _, p := range w.rt.ps {
		if len(evs(p, "call", "flag.Parse")) == 0 {
			continue
		}
		fatal := false
		k := 0
		for _, e := range p.Events {
			fatal = fatal || e.Kind == "call" && strings.HasPrefix(e.Callee, "log.Fatal")
			if e.Kind != "go" {
				continue
			}
			if w.runsG(e) {
				k++
			}
		}
		if fatal {
			continue
		}
		n["goroutine for transactions"] += k
		want := -1
		if p.St.F.Entails(tb.FLt(tb.Int(0), w.flags["tx"])) {
			want = 1
		} else if p.St.F.Entails(tb.FLe(w.flags["tx"], tb.Int(0))) {
			want = 0
		}
		c.Ob(k == want || want < 0 && k == 1, "generated", "started", p.Pos, "%d goroutines make transactions where %d should", k, want)
	}
}

// oneShot: t is a timer that fires once per delay.
func (w *nload) oneShot(t *Term) bool {
	for _, p := range w.ps {
		for _, e := range p.History() {
			if e.Kind == "call" && e.Res == t {
				return e.Callee == "time.NewTimer" || e.Callee == "time.After"
			}
		}
	}
	return strings.HasPrefix(t.Aux, "time.After")
}

// runsG: the goroutine started at e makes transactions.
func (w *nload) runsG(e *Event) bool {
	for _, p := range w.x.Spawned {
		if p.Go.Instr != e.Instr {
			continue
		}
		for _, x := range p.Events {
			if x.Kind == "loop" && w.role[x.Loop] == "G" && w.within(p, x.Loop) {
				return true
			}
		}
	}
	return false
}

// random: the transaction handed on at e carries the time in its first bytes
// and random ones in all others.
func (w *nload) random(sg Seg, e *Event) {
	c := w.c
	tx := e.Args[1]
	var data *Term
	var um *Event
	for _, x := range sg.P.Events {
		if x == e {
			break
		}
		if x.Kind == "call" && x.Callee == "(*ldpc.Transaction).UnmarshalBinary" && x.Args[0] == tx {
			if um != nil {
				data = nil
				break
			}
			um, data = x, x.Args[1]
		}
	}
	if !c.Ob(data != nil && data.Op == "slicearr" && len(data.Args) == 3, "generated", "content", e.Pos, "what a new transaction holds is %s", data) {
		return
	}
	lo, hi, ok := bounds(data)
	arr, isArr := deref(data.Args[0].Typ).Underlying().(*types.Array)
	if !c.Ob(ok && isArr && lo == 0 && hi == arr.Len(), "generated", "whole", um.Pos, "a new transaction is made from %s", data) {
		return
	}
	cover := make([]byte, hi)
	for _, x := range sg.P.Events {
		if x == um {
			break
		}
		var s *Term
		k := byte(0)
		switch {
		case x.Kind != "call":
		case strings.HasSuffix(x.Callee, "ndian).PutUint64") && len(x.Args) == 3:
			s, k = x.Args[1], 't'
		case (x.Callee == "rand.Read" || x.Callee == "(*rand.Rand).Read") && len(x.Args) > 0:
			s, k = x.Args[len(x.Args)-1], 'r'
		}
		if s == nil || s.Op != "slicearr" || s.Args[0] != data.Args[0] {
			continue
		}
		a, b, ok := bounds(s)
		if k == 't' {
			b = min64(b, a+8)
		}
		for i := a; ok && i < b && i < hi; i++ {
			cover[i] = k
		}
	}
	stamps := strings.Count(string(cover), "t")
	full := !strings.Contains(string(cover), "\x00")
	c.Ob(stamps == 8 && full, "generated", "random", um.Pos, "of the %d bytes of a new transaction %d hold the time and %d are random", hi, stamps, strings.Count(string(cover), "r"))
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func bounds(s *Term) (lo, hi int64, ok bool) {
	if len(s.Args) != 3 || s.Args[1].Op != "num" || s.Args[2].Op != "num" {
		return
	}
	return s.Args[1].Num.Num().Int64(), s.Args[2].Num.Num().Int64(), true
}

func ruleC49(c *C) {
	w := c.nload()
	if w == nil || w.flag("warmup") == nil {
		return
	}
	n := map[string]int{}
	sk := map[string]map[*Term]bool{"K": {}, "D": {}}
	stamps := w.stamped(n)
	w.decoded(n, sk, stamps)
	w.transmitted(n, sk)
	for s := range sk["D"] {
		c.Ob(!sk["K"][s], "recorded", "sketches", w.rt.fn.Pos(), "delays of transactions and of codewords are recorded in the same sketch")
	}
	w.figures(n, sk)
	for _, what := range []string{"stamp of a transaction", "stamp of a codeword", "delay of a transaction", "delay of a codeword", "warm-up", "count of K", "count of G", "count of D", "count of E", "quantile of K", "quantile of D", "mean of K", "mean of D", "rate"} {
		c.Ob(n[what] > 0, "instances", what, token.NoPos, "no %s found", what)
	}
	// when a codeword was sent is what its sender said
	c.borrow(func() { ruleC43(c) }, "fresh")
}

// clock: t is the time now, read in p, as a number; the unit in fractions of a second.
func (w *nload) clock(p *Path, t *Term) (unit string) {
	t = bare(t)
	if t == nil || t.Op != "call" || !strings.HasPrefix(t.Aux, "(time.Time).Unix") || t.Args[0].Op != "sym" {
		return ""
	}
	for _, e := range evs(p, "call", "time.Now") {
		if e.Res == t.Args[0] {
			return strings.TrimPrefix(t.Aux, "(time.Time).")
		}
	}
	return ""
}

// perMs: how many of a clock's units are a millisecond.
var perMs = map[string]int64{"UnixMicro": 1000, "UnixMilli": 1, "UnixNano": 1000000}

// stamped: what is written into new transactions and codewords.
func (w *nload) stamped(n map[string]int) (out map[string]bool) {
	c, tb := w.c, w.x.TB
	out = map[string]bool{}
	for _, sg := range w.segs {
		for _, e := range sg.P.Events {
			if tx := w.fresh(e); tx != nil && sg.Loop != nil {
				k := 0
				for _, x := range sg.P.Events {
					if x == e {
						break
					}
					if x.Kind != "call" || !strings.HasSuffix(x.Callee, "ndian).PutUint64") || len(x.Args) != 3 {
						continue
					}
					lo, _, ok := bounds(x.Args[1])
					u := w.clock(sg.P, x.Args[2])
					if ok && u != "" {
						k++
						out[x.Args[0].String()+" "+tb.Int(lo).String()+" "+u] = true
					}
				}
				n["stamp of a transaction"] += k
				c.Ob(k == 1, "stamped", "transaction", e.Pos, "the time is written %d times into a new transaction", k)
			}
			if isSend(e) && isNamed("Codeword")(chanElem(e)) && w.is(sg, "E") && len(e.Args) > 1 {
				n["stamp of a codeword"]++
				i := w.stampField(chanElem(e))
				ok := i >= 0 && w.clock(sg.P, tb.Field(e.Args[1], chanElem(e), i)) != ""
				c.Ob(ok, "stamped", "codeword", e.Pos, "a codeword is sent with the stamp %s", e.Args[1])
				if ok {
					out["codeword "+w.clock(sg.P, tb.Field(e.Args[1], chanElem(e), i))] = true
				}
			}
		}
	}
	return
}

func (w *nload) stampField(t types.Type) int {
	fs := fieldsOfType(t, isBasic(types.Int64))
	if len(fs) != 1 {
		return -1
	}
	return fs[0]
}

func isSketch(callee, m string) bool {
	return strings.HasPrefix(callee, "(*ddsketch.") && strings.HasSuffix(callee, ")."+m)
}

func sketchEvs(p *Path, m string) []*Event {
	var out []*Event
	for _, e := range p.Events {
		if e.Kind == "call" && isSketch(e.Callee, m) {
			out = append(out, e)
		}
	}
	return out
}

// about: a is b up to the rounding of a constant.
func about(a, b *big.Rat) bool {
	x, _ := a.Float64()
	y, _ := b.Float64()
	return x-y < 1e-15 && y-x < 1e-15
}

// age: v is the time now less a stamp, in milliseconds.
func (w *nload) age(p *Path, v *Term) (stamp *Term, unit string) {
	tb := w.x.TB
	k, m := mono(tb, v)
	var diff *Term
	if v.Op == "lin" || v.Op == "conv" || v.Op == "fdiv" || v.Op == "mul" {
		if len(m) == 1 {
			for t, e := range m {
				if e == 1 {
					diff = bare(t)
				}
			}
		}
	}
	if diff == nil {
		return nil, ""
	}
	l := tb.LinOf(diff)
	if len(l.Vars) != 2 || l.K.Sign() != 0 {
		return nil, ""
	}
	for i := 0; i < 2; i++ {
		u := w.clock(p, l.Vars[i])
		c := new(big.Rat).Mul(k, l.Coef[i])
		d := new(big.Rat).Mul(k, l.Coef[1-i])
		if u != "" && perMs[u] > 0 && about(c, big.NewRat(1, perMs[u])) && about(d, big.NewRat(-1, perMs[u])) {
			return l.Vars[1-i], u
		}
	}
	return nil, ""
}

// decoded: once warmed up, and only then, one delay per transaction decoded.
func (w *nload) decoded(n map[string]int, sk map[string]map[*Term]bool, stamps map[string]bool) {
	c, tb := w.c, w.x.TB
	for _, sg := range w.segs {
		if !w.is(sg, "K") {
			continue
		}
		var rec *Event
		for _, e := range sg.P.Events {
			if isRecv(e) && isNamed("DecodedTransaction")(chanElem(e)) && got(sg.P, e) {
				c.Ob(rec == nil, "recorded", "round", e.Pos, "several transactions are taken in one round")
				rec = e
			}
		}
		adds := sketchEvs(sg.P, "Add")
		clears := sketchEvs(sg.P, "Clear")
		c.Ob(len(clears) == 0, "recorded", "cleared", sg.P.Pos, "the delays of transactions are forgotten")
		if rec == nil || len(sg.Outer) > 0 {
			c.Ob(len(adds) == 0, "recorded", "other", sg.P.Pos, "a delay is recorded although no transaction was decoded")
			if len(sg.Outer) == 0 {
				w.warm(sg, n, false)
			}
			continue
		}
		on, known := w.warm(sg, n, true)
		if !c.Ob(known, "recorded", "warm-up", sg.P.Pos, "whether the warm-up is over does not decide if a delay is recorded") {
			continue
		}
		if !on {
			c.Ob(len(adds) == 0, "recorded", "cold", sg.P.Pos, "a delay is recorded before the warm-up is over")
			continue
		}
		if !c.Ob(len(adds) == 1, "recorded", "once", sg.P.Pos, "%d delays are recorded for a transaction decoded", len(adds)) {
			continue
		}
		n["delay of a transaction"]++
		e := adds[0]
		sk["K"][e.Args[0]] = true
		stamp, unit := w.age(sg.P, e.Args[1])
		why := ""
		var at *Event
		for _, x := range sg.P.Events {
			if x.Kind == "call" && x.Res != nil && x.Res == stamp && strings.HasSuffix(x.Callee, "ndian).Uint64") && len(x.Args) == 2 {
				at = x
			}
		}
		if at == nil {
			why = "not the time since a stamp in the transaction"
		} else {
			s := at.Args[1]
			lo := int64(0)
			for s.Op == "slice" && s.Args[1].Op == "num" {
				lo += s.Args[1].Num.Num().Int64()
				s = s.Args[0]
			}
			src := false
			tx := tb.Field(rec.Res, chanElem(rec), w.txField(chanElem(rec)))
			for _, x := range evs(sg.P, "call", "(*ldpc.Transaction).Serialized") {
				src = src || x.Res == s && x.Args[0] == tx
			}
			if !src {
				why = "not that of the transaction decoded"
			} else if !stamps[at.Args[0].String()+" "+tb.Int(lo).String()+" "+unit] {
				why = "read differently from how it is written"
			}
		}
		c.Ob(why == "", "recorded", "delay", e.Pos, "the delay recorded for a transaction, %s, is %s", e.Args[1], why)
	}
}

func (w *nload) txField(t types.Type) int {
	fs := fieldsOfType(t, ptrTo("Transaction"))
	if len(fs) != 1 {
		return 0
	}
	return fs[0]
}

// warm: is the warm-up known to be over (or not) in this round of the
// controller; where the mark of that is set, it must be.
func (w *nload) warm(sg Seg, n map[string]int, use bool) (on, known bool) {
	c, f := w.c, sg.P.St.F
	past, before := w.elapsed(sg.P, "warmup")
	marks := 0
	for _, v := range sg.Loop.Vars {
		if v.LV.Typ == nil || !types.Identical(v.LV.Typ.Underlying(), types.Typ[types.Bool]) {
			continue
		}
		// a mark that is never set by the warm-up is something else
		if !w.marks(sg.Loop, v) {
			continue
		}
		marks++
		val, ok := f.Value(v.LV)
		if ok {
			on, known = val, true
		}
		if v.Entry.Op != "false" {
			c.Fail("recorded", "mark", sg.Loop.Pos, "the mark of the warm-up starts as %s", v.Entry)
		}
		b := sg.Loop.Back(sg.P, v)
		if b == v.LV || ok && val && b.Op == "true" {
			continue
		}
		bv, bk := f.Value(b)
		n["warm-up"]++
		c.Ob(bk && bv && past || bk && !bv && before && ok && !val, "recorded", "mark set", sg.P.Pos, "the mark of the warm-up becomes %s although it is not known that -warmup has passed", b)
	}
	if marks == 0 && use {
		if past {
			on, known = true, true
		} else if before {
			on, known = false, true
		}
		n["warm-up"]++
	}
	return
}

// marks: some round sets v under a condition on the time.
func (w *nload) marks(l *Loop, v *absint.LVInfo) bool {
	for _, b := range l.Backs {
		if l.Back(b, v) == v.LV {
			continue
		}
		for _, e := range b.Events {
			if e.Kind == "branch" && len(w.timed(b, e.Cond)) > 0 {
				return true
			}
		}
		if len(w.timed(b, l.Back(b, v))) > 0 {
			return true
		}
	}
	return false
}

// elapsed: the time a flag gives has passed since the start, or has not.
func (w *nload) elapsed(p *Path, name string) (past, before bool) {
	tb, f := w.x.TB, p.St.F
	lim := w.flags[name]
	var ts []*Term
	add := func(t *Term) {
		for _, s := range w.timed(p, t) {
			ts = append(ts, s)
		}
	}
	for _, t := range f.Terms() {
		add(t)
	}
	for a := range f.AtomList() {
		add(a)
	}
	started := func(t *Term) bool { // a time taken before the rounds
		if t.Op != "sym" || !strings.HasPrefix(t.Aux, "time.Now") {
			return false
		}
		for _, e := range evs(p, "call", "time.Now") {
			if e.Res == t {
				return false
			}
		}
		return true
	}
	now := func(t *Term) bool {
		for _, e := range evs(p, "call", "time.Now") {
			if e.Res == t {
				return true
			}
		}
		return false
	}
	due := func(t *Term) bool {
		return t.Op == "call" && t.Aux == "(time.Time).Add" && started(t.Args[0]) && bare(t.Args[1]) == lim
	}
	for _, t := range ts {
		if t.Op == "sym" || t.Aux == "(time.Time).Sub" {
			ok := false
			if t.Op == "sym" {
				for _, e := range evs(p, "call", "time.Since") {
					ok = ok || e.Res == t && started(e.Args[0])
				}
			} else {
				ok = now(t.Args[0]) && started(t.Args[1])
			}
			if ok {
				past = past || f.Entails(tb.Le(lim, t))
				before = before || f.Entails(tb.Le(t, lim))
			}
			continue
		}
		v, k := f.Value(t)
		if !k {
			continue
		}
		after := t.Aux == "(time.Time).After"
		switch {
		case due(t.Args[0]) && now(t.Args[1]):
			past, before = past || v != after, before || v == after
		case due(t.Args[1]) && now(t.Args[0]):
			past, before = past || v == after, before || v != after
		}
	}
	return
}

// transmitted: one delay per codeword received.
func (w *nload) transmitted(n map[string]int, sk map[string]map[*Term]bool) {
	c, tb := w.c, w.x.TB
	for _, sg := range w.segs {
		if !w.is(sg, "D") {
			continue
		}
		var rec []*Event
		for _, e := range sg.P.Events {
			if isRecv(e) && isNamed("Codeword")(chanElem(e)) && got(sg.P, e) {
				rec = append(rec, e)
			}
		}
		adds := sketchEvs(sg.P, "Add")
		if !c.Ob(len(adds) == len(rec) && len(rec) <= 1, "recorded", "per codeword", sg.P.Pos, "%d delays are recorded for %d codewords received", len(adds), len(rec)) || len(rec) == 0 {
			continue
		}
		n["delay of a codeword"]++
		e := adds[0]
		sk["D"][e.Args[0]] = true
		i := w.stampField(chanElem(rec[0]))
		stamp, unit := w.age(sg.P, e.Args[1])
		ok := i >= 0 && stamp != nil && bare(stamp) == tb.Field(rec[0].Res, chanElem(rec[0]), i)
		c.Ob(ok && unit != "", "recorded", "delay of a codeword", e.Pos, "the delay recorded for a codeword is %s", e.Args[1])
		c.Ob(w.madeSince(sg.P, e.Args[0]), "recorded", "sketch of a peer", e.Pos, "the delays of a peer's codewords are recorded in %s, not a sketch made for the peer", e.Args[0])
	}
}

// madeSince: t was made after the connection was.
func (w *nload) madeSince(p *Path, t *Term) bool {
	ok := false
	for _, e := range p.History() {
		if e.Kind != "call" {
			continue
		}
		if e.Callee == "(net.Listener).Accept" || strings.HasPrefix(e.Callee, "(*net.Dialer).Dial") || strings.HasPrefix(e.Callee, "net.Dial") {
			ok = false
		}
		ok = ok || e.Res != nil && (e.Res == t || t.Op == "extract" && t.Args[0] == e.Res)
	}
	return ok
}

var fmtVerb = regexp.MustCompile(`%[-+# 0]*[0-9]*(\.[0-9]+)?[a-zA-Z]`)

// figures: what is printed is what it is said to be.
func (w *nload) figures(n map[string]int, sk map[string]map[*Term]bool) {
	c := w.c
	for _, sg := range w.segs {
		if sg.Loop == nil || w.role[w.top(sg)] == "" {
			continue
		}
		role := w.role[w.top(sg)]
		rep := false
		var at token.Pos
		for _, e := range sg.P.Events {
			if e.Kind != "call" || !strings.HasSuffix(e.Callee, "rintf") || len(e.Args) < 2 || e.Args[0].Op != "str" || e.Args[1].Op != "append" {
				continue
			}
			f := e.Args[0].Aux
			if u, err := strconv.Unquote(f); err == nil {
				f = u
			}
			args := e.Args[1].Args[1:]
			last := 0
			for i, loc := range fmtVerb.FindAllStringIndex(f, -1) {
				label := strings.ToLower(f[last:loc[0]])
				last = loc[1]
				if i >= len(args) {
					continue
				}
				rep = w.figure(sg, e, role, label, bareIface(args[i]), n, sk) || rep
				at = e.Pos
			}
		}
		if role != "D" || len(sg.Outer) > 0 {
			continue
		}
		// what is reported for the last second is forgotten then, and only then
		clears := 0
		after := true
		for _, e := range sketchEvs(sg.P, "Clear") {
			clears++
			for _, q := range sg.P.Events {
				if q == e {
					after = false
				}
				if !after && q.Kind == "call" && (isSketch(q.Callee, "GetValuesAtQuantiles") || isSketch(q.Callee, "GetSum") || isSketch(q.Callee, "GetCount")) {
					c.Fail("figures", "cleared before", q.Pos, "the delays of the last second are read after they were cleared")
				}
			}
			c.Ob(sk["D"][e.Args[0]], "figures", "cleared sketch", e.Pos, "another sketch is cleared")
		}
		if rep {
			c.Ob(clears == 1, "figures", "last second", at, "after a report of the last second its delays are cleared %d times", clears)
		} else {
			c.Ob(clears == 0, "figures", "cleared", sg.P.Pos, "delays are cleared without a report")
		}
	}
}

var percentile = regexp.MustCompile(`\bp([0-9]+)`)

// figure checks one number printed.
func (w *nload) figure(sg Seg, e *Event, role, label string, v *Term, n map[string]int, sk map[string]map[*Term]bool) (delay bool) {
	c := w.c
	q := -1.0
	if m := percentile.FindStringSubmatch(label); m != nil {
		x, _ := strconv.Atoi(m[1])
		q = float64(x) / 100
	} else if strings.Contains(label, "median") {
		q = 0.5
	}
	switch {
	case q >= 0:
		ok := false
		if v.Op == "num" && v.Num.Sign() < 0 { // nothing was recorded
			for _, x := range sketchEvs(sg.P, "GetValuesAtQuantiles") {
				val, k := sg.P.St.F.Value(w.x.TB.Eq(w.x.TB.Mk("extract", "1", x.Res), w.x.TB.Nil(), false))
				ok = ok || k && !val
			}
			c.Ob(ok, "figures", role+" "+label, e.Pos, "%s is printed for a quantile there is", v)
			return true
		}
		for _, x := range sketchEvs(sg.P, "GetValuesAtQuantiles") {
			list, i := listElem(v)
			if list == nil || list.Op != "extract" || list.Aux != "0" || list.Args[0] != x.Res || i.Op != "num" || !sk[role][x.Args[0]] {
				continue
			}
			qs := x.Args[1]
			j := int(i.Num.Num().Int64()) + 1
			if qs.Op == "append" && j < len(qs.Args) && qs.Args[j].Op == "num" {
				fl, _ := qs.Args[j].Num.Float64()
				ok = fl == q
			}
		}
		n["quantile of "+role]++
		c.Ob(ok, "figures", role+" "+label, e.Pos, "what is printed as %s is %s", strings.TrimSpace(label), v)
		return true
	case strings.Contains(label, "mean"):
		ok := false
		if v.Op == "fdiv" {
			for _, a := range sketchEvs(sg.P, "GetSum") {
				for _, b := range sketchEvs(sg.P, "GetCount") {
					ok = ok || bare(v.Args[0]) == a.Res && bare(v.Args[1]) == b.Res && a.Args[0] == b.Args[0] && sk[role][a.Args[0]]
				}
			}
		}
		n["mean of "+role]++
		c.Ob(ok, "figures", role+" "+label, e.Pos, "what is printed as the mean is %s", v)
		return true
	case bare(v).Op == "sym" && v.Typ != nil:
		// a number of delays recorded, or the name of the peer
		for _, b := range sketchEvs(sg.P, "GetCount") {
			if bare(v) == b.Res {
				c.Ob(sk[role][b.Args[0]], "figures", role+" "+label, e.Pos, "the number printed as%s is that of another sketch", label)
			}
		}
	case v.Op == "lv" && isBasicInt(v.Typ):
		w.counts(sg, e, role, v, n)
	case v.Op == "lv" && isF64(v.Typ) && strings.Contains(label, "rate"):
		n["rate"]++
		w.isRate(sg, e, v)
	}
	return false
}

func listElem(v *Term) (list, i *Term) {
	if v.Op == "load" {
		v = v.Args[0]
	}
	if (v.Op == "iaddr" || v.Op == "elem") && len(v.Args) > 1 {
		return v.Args[0], v.Args[1]
	}
	return nil, nil
}

// isRate: v is what the credit for codewords grows by.
func (w *nload) isRate(sg Seg, e *Event, v *Term) {
	var info *absint.LVInfo
	for _, x := range sg.Loop.Vars {
		if x.LV == v {
			info = x
		}
	}
	grows := false
	for _, b := range sg.Loop.Backs {
		for _, r := range b.Events {
			if !isRecv(r) || !isBasicInt(chanElem(r)) || info == nil {
				continue
			}
			d := w.x.TB.Sub(sg.Loop.Back(b, info), v)
			grows = grows || absint.Contains(d, r.Res)
		}
	}
	w.c.Ob(grows, "figures", "rate", e.Pos, "what is printed as the codeword rate is %s", v)
}

// counts: v grows by one exactly when what a goroutine counts happens.
func (w *nload) counts(sg Seg, e *Event, role string, v *Term, n map[string]int) {
	c, tb := w.c, w.x.TB
	L := sg.Loop
	var info *absint.LVInfo
	for _, x := range L.Vars {
		if x.LV == v {
			info = x
		}
	}
	if info == nil {
		return
	}
	k := w.n.class(info)
	n["count of "+role]++
	name := "count of " + role
	c.Ob(info.Entry.Op == "num" && info.Entry.Num.Sign() == 0, "figures", name, L.Pos, "the number printed starts at %s", info.Entry)
	lvs := map[*Term]bool{}
	for _, s2 := range w.segs {
		if s2.Loop == nil || w.top(s2) != w.top(sg) {
			continue
		}
		for _, x := range s2.Loop.Vars {
			if w.n.class(x) == k {
				lvs[x.LV] = true
			}
		}
	}
	for _, s2 := range w.segs {
		if s2.Loop == nil || w.top(s2) != w.top(sg) {
			continue
		}
		for _, x := range s2.Loop.Vars {
			if w.n.class(x) != k {
				continue
			}
			want := int64(0)
			for _, ev := range s2.P.Events {
				if w.counted(s2.P, ev, role) {
					want++
				}
			}
			b := s2.Loop.Back(s2.P, x)
			if want == 0 && lvs[b] {
				continue
			}
			c.Ob(tb.Sub(b, x.LV) == tb.Int(want), "figures", name+" step", s2.P.Pos, "the number printed as a count becomes %s where %d of what it counts happened", b, want)
		}
	}
}

// counted: what the goroutines' counters count.
func (w *nload) counted(p *Path, e *Event, role string) bool {
	switch role {
	case "K":
		return isRecv(e) && isNamed("DecodedTransaction")(chanElem(e)) && got(p, e)
	case "D":
		return isRecv(e) && isNamed("Codeword")(chanElem(e)) && got(p, e)
	case "G":
		return w.fresh(e) != nil
	case "E": // codewords there was no room for
		if e.Kind != "select" || e.Callee != "default" {
			return false
		}
		sel, ok := e.Instr.(*ssa.Select)
		for i := 0; ok && i < len(sel.States); i++ {
			if ch, is := sel.States[i].Chan.Type().Underlying().(*types.Chan); is && isNamed("Codeword")(ch.Elem()) && sel.States[i].Dir == types.SendOnly {
				return true
			}
		}
	}
	return false
}
