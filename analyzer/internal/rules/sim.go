package rules

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

// simp are the anchors shared by the two simulators.
type simp struct {
	*ltp
	tOut              types.Type // des.OutgoingMessage
	oPay, oTo, oDelay int
}

func (c *C) sim(rel string) *simp {
	s := &simp{ltp: &ltp{c: c, x: c.exec(), rel: rel}}
	c.X = s.x
	s.x.Inline = func(f *ssa.Function) bool {
		for g := f; g != nil; g = g.Parent() {
			if g.Pkg != nil {
				return c.rel(g.Pkg.Pkg) == rel
			}
		}
		return f.Synthetic != "" && f.Blocks != nil
	}
	pp := c.P.PP[rel]
	if pp != nil {
		for _, im := range pp.Types.Imports() {
			if im.Name() == "des" {
				if o := im.Scope().Lookup("OutgoingMessage"); o != nil {
					s.tOut = o.Type()
				}
			}
		}
	}
	if s.tOut != nil {
		s.oPay, s.oTo, s.oDelay = field(s.tOut, "Payload", nil), field(s.tOut, "To", nil), field(s.tOut, "Delay", nil)
	}
	return s
}

func (s *simp) need(t types.Type, what, name string, pred func(types.Type) bool) int {
	if t == nil {
		s.c.Fail("anchor", s.rel+" "+what, token.NoPos, "%s of package %s cannot be resolved", what, s.rel)
		return -1
	}
	i := field(t, name, pred)
	if i < 0 {
		s.c.Fail("anchor", s.rel+" "+what, token.NoPos, "%s of package %s cannot be resolved", what, s.rel)
	}
	return i
}

// par picks the parameter of a type.
func (rt *ltRoot) par(pred func(types.Type) bool) *Term {
	var r *Term
	for i, p := range rt.fn.Params {
		if i == 0 && rt.fn.Signature.Recv() != nil {
			continue
		}
		if pred(p.Type()) {
			if r != nil {
				return nil
			}
			r = rt.args[i]
		}
	}
	return r
}

func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func isModule(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Module"
}

// msgType names the dynamic type of an interface value built on the spot.
func msgType(t *Term) (string, *Term) {
	if t.Op != "iface" {
		return "", nil
	}
	return t.Aux, t.Args[0]
}

// empty: the list value v at the end of p (a round of which drained list q0) holds nothing.
func (s *simp) empty(p *Path, idx map[*Term][]lvRec, v, q0 *Term) bool {
	tb := s.x.TB
	none := func(st *State, t *Term) bool {
		return t.Op == "nil" || t.Op == "zero" || st.F.Entails(tb.Le(tb.Len(t), tb.Int(0)))
	}
	// it must not share storage with another queue
	own := func(t *Term) bool {
		for t.Op == "slice" || t.Op == "append" || t.Op == "appendsl" {
			t = t.Args[0]
		}
		loc := func(t *Term) *Term {
			if t.Op == "load" {
				return t.Args[0]
			}
			if l, ok := t.Obj.(*Term); ok && t.Op == "lv" {
				return l
			}
			return nil
		}
		l := loc(t)
		return l == nil || l == loc(q0)
	}
	if none(p.St, v) {
		return own(v)
	}
	for _, r := range idx[v] {
		if !onPath(p, r.l) {
			continue
		}
		// emptied in every round; without a round the list drained was empty
		_, ok := s.counter(r.l, []*Path{p}, tb.Len(q0))
		ok = ok && (r.v.Entry == q0 || none(p.St, r.v.Entry))
		for _, b := range r.l.Backs {
			ok = ok && none(b.St, r.l.Back(b, r.v)) && own(r.l.Back(b, r.v))
		}
		if ok {
			return true
		}
	}
	return false
}

// queue is one list of messages to be collected.
type queue struct {
	what string
	addr *Term
	q0   *Term
}

// drain: on p the list acc1 is acc0 with every message of every queue appended
// once, in order, addressed to peer with delay, and the queues end empty.
func (s *simp) drain(rt *ltRoot, p *Path, acc1, acc0 *Term, qs []queue, peer, delay *Term) {
	c, tb := s.c, s.x.TB
	steps, ok := walk(p, rt.idx, acc1, acc0)
	if !c.Ob(ok, "collect", rt.name, p.Pos, "%s returns %s, which is not the messages it was given with others appended", rt.name, acc1) {
		return
	}
	took := map[int]int{}
	for _, q := range steps {
		if !c.Ob(q.kind == "loop", "collect", rt.name+" only-queued", p.Pos, "%s adds %v, which is not a queued message", rt.name, q.xs) {
			continue
		}
		hit := -1
		var idx []*Term
		for i, u := range qs {
			ix, ok := s.counter(q.l, []*Path{p}, tb.Len(u.q0))
			ok = ok && upward(tb, q.l, ix)
			if !ok {
				// or takes the first one of what is left, until nothing is
				if v := fronted(tb, q.l, u.q0); v != nil && p.St.F.Entails(tb.Le(tb.Len(v.LV), tb.Int(0))) {
					ix, ok = []*Term{v.LV}, true
				}
			}
			if ok {
				all := true
				for _, b := range q.l.Backs {
					if s.oneMessage(b, q, ix, u.q0, peer, delay) != "" {
						all = false
					}
				}
				if all || hit < 0 {
					hit, idx = i, ix
				}
				if all {
					break
				}
			}
		}
		if !c.Ob(hit >= 0, "collect", rt.name+" all", q.l.Pos, "a loop of %s does not go once, in order, over all messages of a queue", rt.name) {
			continue
		}
		took[hit]++
		for _, b := range q.l.Backs {
			why := s.oneMessage(b, q, idx, qs[hit].q0, peer, delay)
			c.Ob(why == "", "collect", rt.name+" message", b.Pos, "%s %s", rt.name, why)
		}
	}
	for i, u := range qs {
		none := p.St.F.Entails(tb.Le(tb.Len(u.q0), tb.Int(0)))
		c.Ob(took[i] == 1 || took[i] == 0 && none, "collect", rt.name+" "+u.what, p.Pos, "%s takes the messages queued by the %s %d times", rt.name, u.what, took[i])
		if took[i] == 1 {
			c.Ob(s.empty(p, rt.idx, p.St.Peek(u.addr), u.q0), "emptied", rt.name+" "+u.what, p.Pos, "after collecting, the messages queued by the %s stay queued as %s", u.what, p.St.Peek(u.addr))
		}
	}
}

// fronted finds the variable that starts as the list and loses its first
// element in every turn.
func fronted(tb *absint.Table, l *Loop, list *Term) *absint.LVInfo {
	for _, v := range l.Vars {
		if v.LV.Typ == nil || !isSliceT(v.LV.Typ) || v.Entry != list || len(l.Backs) == 0 {
			continue
		}
		all := true
		for _, b := range l.Backs {
			all = all && l.Back(b, v) == tb.Slice(v.LV, tb.Int(1), tb.Len(v.LV))
		}
		if all {
			return v
		}
	}
	return nil
}

func (s *simp) oneMessage(b *Path, q step, idx []*Term, q0, peer, delay *Term) string {
	tb := s.x.TB
	v := q.l.Back(b, q.lv)
	if v.Op != "append" || v.Args[0] != q.lv.LV || len(v.Args) != 2 {
		return "does not add exactly one message for each queued one"
	}
	m := v.Args[1]
	if d := tb.Field(m, s.tOut, s.oTo); d != peer {
		return "addresses a message to " + d.String()
	}
	if d := tb.Field(m, s.tOut, s.oDelay); d != delay && !b.St.F.ProveEq(d, delay) {
		return "gives a message the delay " + d.String()
	}
	got := tb.Field(m, s.tOut, s.oPay)
	for _, i := range idx {
		if v := q.l.Var(i); v != nil && i.Typ != nil && isSliceT(i.Typ) {
			if got == b.St.Load(b.St.IndexAddr(i, tb.Int(0), sliceElem(q0.Typ)), sliceElem(q0.Typ)) {
				return ""
			}
			continue
		}
		if got == b.St.Load(b.St.IndexAddr(q0, i, sliceElem(q0.Typ)), sliceElem(q0.Typ)) {
			return ""
		}
	}
	return "sends " + got.String() + " in place of the queued message"
}

func init() {
	register(&Rule{ID: "C30", Pkgs: []string{"simulator", "newsim", "des", "riblt", "lt"}, MinObl: 20, Run: ruleC30,
		What: "all functions of the module that the simulators can reach are searched for what the runtime decides: map loops (allowed when shown independent of the order, or when the entries are collected and sorted), the program-wide or operating system's random generators, hash seeds, goroutines, channels, object pools, addresses; everything that depends on the clock is followed through variables, fields and calls and may only reach the log on the standard error stream"})
	register(&Rule{ID: "C31", Pkgs: []string{"simulator"}, MinObl: 20, Run: ruleC31,
		What: "the methods of the block simulator's sender and receiver are executed abstractly; every codeword queued is matched with the window, the count in flight, the encoder calls and the start mark, every block start with its guards and the loop that moves the buffer, every acknowledgement with the receiver's state and the count of undecoded codewords"})
	register(&Rule{ID: "C32", Pkgs: []string{"newsim"}, MinObl: 20, Run: ruleC32,
		What: "the methods of the shard simulator's sender and receiver are executed abstractly; every coded symbol queued is matched with the encoder calls, the start mark and the count in flight, every block start with the reset, the loop that moves transactions out of the buffer and the advance of the schedule, every symbol received with the decoder calls, the acknowledgement and the lists copied before the decoder's reset"})
	register(&Rule{ID: "C33", Pkgs: []string{"newsim"}, MinObl: 10, Run: ruleC33,
		What: "on every round of the loops that move transactions into a block, the conditions that hold are shown to imply that hash times randomizer lies in the circular range (moved) or outside it (kept); the bounds of a block are matched with consecutive multiples of a constant that wrap to 0; connecting two servers gives both ends the same randomizer and the sender a permutation of the shards, and nothing else changes these"})
	register(&Rule{ID: "C34", Pkgs: []string{"newsim"}, MinObl: 20, Run: ruleC34,
		What: "server.HandleMessage of the shard simulator is executed abstractly for every kind of message; on every path, and for every transaction of every loop round, the table of transactions seen decides between recording, counting, sampling and handing on to all peers but the sender, and counting as a duplicate"})
	register(&Rule{ID: "C35", Pkgs: []string{"newsim", "simulator"}, MinObl: 12, Run: ruleC35,
		What: "collecting appends each queued message once, in order, with the peer and the delay it is given, from the queues of both sides, and empties them; a server collects from every connected peer once with that peer's delay, as the last step of handling an event, and returns the result; connecting enters a peer in both the table and the list with the link's delay"})
	register(&Rule{ID: "C36", Pkgs: []string{"newsim"}, MinObl: 6, Run: ruleC36,
		What: "each message type on its own: what is queued, remembered and handed up, on every path"})
	register(&Rule{ID: "C37", Pkgs: []string{"newsim", "simulator"}, MinObl: 10, Run: each2([]string{"newsim", "simulator"}, ruleC37),
		What: "each line is scanned as three integers, failure stops the program; success adds exactly one link with the scanned ends and the delay in milliseconds; the maximum is kept over both ends from zero; the loader returns only after the scanner stopped without an error"})
	register(&Rule{ID: "C38", Pkgs: []string{"newsim", "simulator"}, MinObl: 8, Run: each2([]string{"newsim", "simulator"}, ruleC38),
		What: "a sample is added on exactly the paths where the recorder exists and the time is not before the warm-up, once; the value is the sample or the difference of receipt and creation in seconds; new recorders keep the warm-up given; resetting zeroes every counter"})
	register(&Rule{ID: "C39", Pkgs: []string{"simulator"}, MinObl: 6, Run: ruleC39,
		What: "the loop over the batch appends one self-addressed message per transaction in order; by induction its slot is neither before the current time nor within the interval after the last slot, which is then remembered; generated and decoded transactions are scheduled once, and a transaction whose slot came goes to the sender of every peer once"})
}

func each2(rels []string, f func(s *simp)) func(c *C) {
	return func(c *C) {
		for _, rel := range rels {
			f(c.sim(rel))
		}
	}
}

// ---------------------------------------------------------------- C35

// handlersOf resolves the server's table and list of peers.
func (s *simp) server() (tS types.Type, hand, peers int) {
	tS = s.c.Type(s.rel, "server")
	hand = s.need(tS, "server's table of peers", "handlers", isMapT)
	peers = s.need(tS, "server's list of peers", "peers", func(t types.Type) bool { e := sliceElem(t); return e != nil && isModule(e) })
	return
}

func ruleC35(c *C) {
	// newsim: two algorithms and the server
	s := c.sim("newsim")
	nq := 0
	for _, a := range []string{"coding", "pull"} {
		rt := s.run(a, "collectOutgoingMessages", nil)
		if rt == nil {
			continue
		}
		peer, delay, out := rt.par(isModule), rt.par(isDuration), rt.par(isSliceT)
		if !c.Ob(peer != nil && delay != nil && out != nil, "anchor", rt.name, rt.fn.Pos(), "parameters of %s", rt.name) {
			continue
		}
		for _, p := range rt.ps {
			if !c.Ob(p.Kind == "return" && len(p.Vals) == 1, "total", rt.name, p.Pos, "%s can end in a %s", rt.name, p.Kind) {
				continue
			}
			qs := s.queuesOf(rt.fn.Params[0].Type(), rt.args[0], rt.st0, p, a)
			nq += len(qs)
			s.drain(rt, p, p.Vals[0], out, qs, peer, delay)
		}
	}
	c.Ob(nq >= 2, "instances", "queues", token.NoPos, "message queues not found")
	s.serverCollect()
	s.connects()
	s2 := c.sim("simulator")
	s2.serverCollect()
	s2.connects()
}

// queuesOf finds the outboxes of an algorithm value, following non-nil pointers.
func (s *simp) queuesOf(t types.Type, v *Term, st0 *State, p *Path, name string) []queue {
	var out []queue
	ptr := false
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t, ptr = q.Elem(), true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		var a, fv *Term
		if ptr {
			a = s.fa(v, t, i)
			fv = st0.Peek(a)
		} else {
			fv = s.x.TB.Field(v, t, i)
		}
		if e := sliceElem(f.Type()); e != nil && isAny(e) && a != nil {
			out = append(out, queue{name, a, fv})
			continue
		}
		if pt, ok := f.Type().Underlying().(*types.Pointer); ok && f.Embedded() {
			if n, ok := pt.Elem().(*types.Named); !ok || n.Obj().Pkg() == nil || s.c.rel(n.Obj().Pkg()) != s.rel {
				continue
			}
			if p != nil && p.St.F.ProveEq(fv, s.x.TB.Nil()) {
				continue
			}
			out = append(out, s.queuesOf(f.Type(), fv, st0, p, f.Name())...)
		}
	}
	return out
}

// serverCollect: the server collects from every peer once, and an event ends with it.
func (s *simp) serverCollect() {
	c, tb := s.c, s.x.TB
	tS, fH, fP := s.server()
	if tS == nil || fH < 0 || fP < 0 {
		return
	}
	// methods of the protocol sides are not looked into here
	inl := s.x.Inline
	s.x.Inline = func(f *ssa.Function) bool {
		switch recvName(f) {
		case "sender", "receiver", "distributionSketch", "transactionGenerator":
			return false
		}
		return inl(f)
	}
	defer func() { s.x.Inline = inl }()
	rt := s.run("server", "HandleMessage", nil)
	if rt == nil {
		return
	}
	me := rt.args[0]
	n := 0
	for _, p := range rt.ps {
		if p.Kind != "return" || len(p.Vals) != 1 {
			continue
		}
		// the last loop that makes up the result
		v := p.Vals[0]
		var L *Loop
		var lv *absint.LVInfo
		for _, r := range rt.idx[v] {
			if onPath(p, r.l) {
				L, lv = r.l, r.v
			}
		}
		if !c.Ob(L != nil, "event-end", rt.name, p.Pos, "an event ends without the messages queued in it being collected: %s", v) {
			continue
		}
		n++
		peers := L.HeadSt.Peek(s.fa(me, tS, fP))
		ix, ok := s.counter(L, []*Path{p}, tb.Len(peers))
		if !c.Ob(ok && upward(tb, L, ix), "all-peers", rt.name, L.Pos, "messages are not collected once from every peer, in order") {
			continue
		}
		for _, b := range L.Backs {
			var peer, hand *Term
			for _, i := range ix {
				peer = b.St.Load(b.St.IndexAddr(peers, i, sliceElem(peers.Typ)), sliceElem(peers.Typ))
			}
			ref := L.HeadSt.Peek(s.fa(me, tS, fH))
			elem := s.ftype(tS, fH).Underlying().(*types.Map).Elem()
			hand = b.St.MapGet(L.HeadSt.MapContent(ref), peer, elem)
			fd := field(elem, "delay", isDuration)
			if !c.Ob(fd >= 0, "anchor", s.rel+" delay", L.Pos, "delay of a link not found") {
				return
			}
			delay := tb.Field(hand, elem, fd)
			got := L.Back(b, lv)
			if s.rel == "newsim" {
				ev := evs(b, "call", "(main.algorithm).collectOutgoingMessages")
				if !c.Ob(len(ev) == 1 && len(ev[0].Args) == 4, "collect", rt.name+" each", b.Pos, "messages of one peer are collected %d times", len(ev)) {
					continue
				}
				e := ev[0]
				fa := 0
				c.Ob(e.Args[0] == tb.Field(hand, elem, fa), "collect", rt.name+" handler", e.Pos, "messages for a peer are collected from %s, not from the handler of that peer", e.Args[0])
				c.Ob(e.Args[1] == peer, "collect", rt.name+" to", e.Pos, "messages for a peer are addressed to %s", e.Args[1])
				c.Ob(e.Args[2] == delay || b.St.F.ProveEq(e.Args[2], delay), "collect", rt.name+" delay", e.Pos, "messages for a peer get the delay %s, not that of its link", e.Args[2])
				c.Ob(e.Args[3] == lv.LV && got == e.Res, "collect", rt.name+" result", e.Pos, "what was collected before is not passed on and kept")
				continue
			}
			// simulator: the queues are emptied right here
			fh := 0
			hs := mustStruct(elem)
			for i := 0; i < hs.NumFields(); i++ {
				if hs.Field(i).Embedded() {
					fh = i
				}
			}
			hp := tb.Field(hand, elem, fh)
			qs := s.queuesOf(hs.Field(fh).Type(), hp, L.HeadSt, nil, "peer")
			if !c.Ob(len(qs) == 2, "anchor", s.rel+" queues", L.Pos, "%d message queues found per peer", len(qs)) {
				continue
			}
			s.drain(&ltRoot{fn: rt.fn, name: rt.name, args: rt.args, st0: rt.st0, ps: rt.ps, idx: rt.idx}, b, got, lv.LV, qs, peer, delay)
		}
		// nothing can be queued afterwards
		after := false
		for _, e := range p.Events {
			if e.Kind == "loop" && e.Loop == L {
				after = true
				continue
			}
			if after && (e.Kind == "call" && queues(e.Callee) || e.Kind == "loop" && s.calls(e.Loop)) {
				c.Fail("event-end", rt.name+" after", e.Pos, "a protocol handler is called after the messages of the event were collected")
			}
		}
		// what the server itself sends comes before
		if w, ok := walk(p, rt.idx, lv.Entry, tb.Nil()); ok {
			for _, q := range w {
				c.Ob(q.kind == "append" || q.kind == "loop", "event-end", rt.name+" own", p.Pos, "messages of the server itself are dropped: %s", lv.Entry)
			}
			for _, e := range p.Events {
				if e.Kind == "loop" && e.Loop == L {
					break
				}
				c.Ob(made(e, w), "event-end", rt.name+" kept", e.Pos, "a message of the server itself is made and lost")
			}
		} else {
			c.Fail("event-end", rt.name+" own", p.Pos, "the messages collected start from %s", lv.Entry)
		}
	}
	c.Ob(n >= 2, "instances", rt.name, token.NoPos, "only %d ways through an event found", n)
}

// made: a message list extended by the event is part of the list walked.
func made(e *Event, w []step) bool {
	switch e.Kind {
	case "append":
		v, ok := e.Instr.(ssa.Value)
		if !ok || sliceElem(v.Type()) == nil || !isNamed("OutgoingMessage")(sliceElem(v.Type())) || e.Res.Op != "append" {
			return true
		}
		for _, q := range w {
			if q.kind == "append" && q.before == e.Res.Args[0] && len(q.xs) >= len(e.Res.Args)-1 {
				same := true
				for i, x := range e.Res.Args[1:] {
					same = same && q.xs[i] == x
				}
				if same {
					return true
				}
			}
		}
		return false
	case "loop":
		for _, q := range w {
			if q.kind == "loop" && q.l == e.Loop {
				return true
			}
		}
		for _, b := range e.Loop.Backs {
			for _, f := range b.Events {
				if !made(f, nil) {
					return false
				}
			}
		}
	}
	return true
}

// queues: may a call of this function queue messages?
func queues(callee string) bool {
	switch callee {
	case "(main.algorithm).forwardTransaction", "(main.algorithm).handleMessage", "(*main.sender).onAck", "(*main.sender).onTransaction", "(*main.sender).tryFillSendWindow", "(*main.receiver).onCodeword", "(*main.receiver).onTransaction":
		return true
	}
	return false
}

func (s *simp) calls(l *Loop) bool {
	for _, b := range l.Backs {
		for _, e := range b.Events {
			if e.Kind == "call" && queues(e.Callee) || e.Kind == "loop" && s.calls(e.Loop) {
				return true
			}
		}
	}
	return false
}

// connects: functions that link two servers enter each in the other's table
// and list, with the delay of the link.
func (s *simp) connects() {
	c, tb := s.c, s.x.TB
	tS, fH, fP := s.server()
	if tS == nil || fH < 0 || fP < 0 {
		return
	}
	n := 0
	isS := func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		return ok && types.Identical(p.Elem(), tS)
	}
	links := func(fn *ssa.Function) bool {
		ps := fn.Params
		return fn.Signature.Recv() == nil && len(ps) >= 3 && fn.Parent() == nil && isS(ps[0].Type()) && isS(ps[1].Type())
	}
	half, whole := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs(s.rel) {
		for _, ci := range calls(fn) {
			if g := ci.Common().StaticCallee(); g != nil && g != fn {
				if links(fn) {
					half[g] = true
				} else {
					whole[g] = true
				}
			}
		}
	}
	for _, fn := range c.P.Funcs(s.rel) {
		if !links(fn) || half[fn] && !whole[fn] {
			continue // or one half of a link, made as part of a whole one
		}
		n++
		rt := s.runFn(fn, func(st *State, args []*Term) {
			st.F.Assume(tb.Not(tb.Eq(args[0], args[1], false)))
			st.F.Assume(tb.Not(tb.Eq(st.Peek(s.fa(args[0], tS, fH)), st.Peek(s.fa(args[1], tS, fH)), false)))
		})
		delay := rt.par(isDuration)
		elem := s.ftype(tS, fH).Underlying().(*types.Map).Elem()
		fd := field(elem, "delay", isDuration)
		for _, p := range rt.ps {
			if p.Kind != "return" {
				continue
			}
			for i := 0; i < 2; i++ {
				a, b := rt.args[i], rt.args[1-i]
				key := tb.MkT(nil, "iface", absint.TypeKey(fn.Params[1-i].Type()), b)
				ref := rt.st0.Peek(s.fa(a, tS, fH))
				m0, m1 := rt.st0.MapContent(ref), p.St.MapContent(ref)
				w, ok := walk(p, rt.idx, m1, m0)
				put := 0
				for _, q := range w {
					if q.kind == "put" && q.xs[0].Op == key.Op && q.xs[0].Aux == key.Aux && q.xs[0].Args[0] == b {
						put++
						d := tb.Field(q.xs[1], elem, fd)
						c.Ob(d == delay, "link", rt.name+" delay", p.Pos, "a link gets the delay %s", d)
					}
				}
				c.Ob(ok && put == 1 && len(w) == 1, "link", rt.name+" table", p.Pos, "connecting two servers does not enter each in the other's table once")
				l0, l1 := rt.st0.Peek(s.fa(a, tS, fP)), p.St.Peek(s.fa(a, tS, fP))
				has, known := false, false
				for _, q := range w {
					if q.kind == "put" {
						has, known = p.St.F.Value(p.St.MapHas(m0, q.xs[0]))
					}
				}
				if known && has && l1 == l0 {
					continue // already listed
				}
				ls, ok := walk(p, rt.idx, l1, l0)
				c.Ob(ok && len(ls) == 1 && ls[0].kind == "append" && len(ls[0].xs) == 1 && ls[0].xs[0].Op == "iface" && ls[0].xs[0].Args[0] == b, "link", rt.name+" list", p.Pos, "connecting two servers does not list each as a peer of the other")
			}
		}
	}
	c.Ob(n > 0, "instances", s.rel+" links", token.NoPos, "no function connecting two servers found")
}
