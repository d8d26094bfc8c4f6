package rules

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

// desp are the anchors of the event simulator.
type desp struct {
	*ltp
	tSim, tQ, tMsg, tOut types.Type
	fTime, fQ, fSeq      int // Simulator
	mArr, mSeq, mPay     int // queued message
	oPay, oTo, oDelay    int // OutgoingMessage
	fTo, fFrom           int // queued message, resolved from the delivery
}

func init() {
	register(&Rule{ID: "C20", Pkgs: []string{"des"}, MinObl: 20, Run: ruleC20,
		What: "Less is the lexicographic order of (arrival, sequence number) on every path; Len, Swap, Push and Pop are exactly length, exchange, append and removal of the last entry, and change no entry; the queue is touched only through container/heap; every queued entry carries the running sequence number, which then grows"})
	register(&Rule{ID: "C21", Pkgs: []string{"des"}, MinObl: 30, Run: ruleC21,
		What: "ScheduleMessage queues one entry with time + delay, payload, sender and addressee; each entry taken from the queue sets the clock to its arrival, which is not before the clock, and is handled once by its addressee; one loop schedules every returned message in order; Run and RunUntil stop only in the states they promise; counters are exact"})
}

func isDuration(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Duration"
}

func (c *C) des() *desp {
	d := &desp{ltp: &ltp{c: c, x: c.exec(), rel: "des"}}
	c.X = d.x
	d.tSim, d.tOut = c.Type("des", "Simulator"), c.Type("des", "OutgoingMessage")
	if d.tSim == nil || d.tOut == nil {
		c.Fail("anchor", "des types", token.NoPos, "types Simulator and OutgoingMessage not found")
		return nil
	}
	d.fTime = field(d.tSim, "time", isDuration)
	d.fQ = field(d.tSim, "mq", isSliceT)
	d.fSeq = field(d.tSim, "seq", isInt64ish)
	d.oPay, d.oTo, d.oDelay = field(d.tOut, "Payload", nil), field(d.tOut, "To", nil), field(d.tOut, "Delay", nil)
	if d.fTime < 0 || d.fQ < 0 || d.fSeq < 0 || d.oPay < 0 || d.oTo < 0 || d.oDelay < 0 {
		c.Fail("anchor", "des fields", token.NoPos, "clock, queue and sequence number of the simulator not found")
		return nil
	}
	d.tQ = d.ftype(d.tSim, d.fQ)
	d.tMsg = elemOf(d.tQ)
	if _, ok := structOf(d.tMsg); !ok {
		c.Fail("anchor", "des message", token.NoPos, "the queue does not hold message structures")
		return nil
	}
	d.mArr = field(d.tMsg, "arrival", isDuration)
	d.mSeq = field(d.tMsg, "seq", isInt64ish)
	d.mPay = field(d.tMsg, "payload", func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		return ok && i.NumMethods() == 0
	})
	if d.mArr < 0 || d.mSeq < 0 || d.mPay < 0 {
		c.Fail("anchor", "des message fields", token.NoPos, "arrival, sequence number and payload of a queued message not found")
		return nil
	}
	d.models()
	return d
}

func isInt64ish(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && !isDuration(t)
}

// models of container/heap: the queue's content is known by its length only.
func (d *desp) models() {
	tb := d.x.TB
	h := func(delta int64) absint.Model {
		return func(st *State, ci *absint.CallInfo) []absint.CallResult {
			q := ci.Args[0]
			for q.Op == "iface" {
				q = q.Args[0]
			}
			if q.Op == "faddr" || q.Op == "alloc" {
				old := st.Peek(q)
				nw := st.Fresh("queue@"+ci.Key, d.tQ)
				st.F.Assume(tb.Eq(tb.Len(nw), tb.AddK(tb.Len(old), delta), true))
				st.Poke(q, nw)
			}
			var res *Term
			if ci.Typ != nil {
				if t, ok := ci.Typ.(*types.Tuple); !ok || t.Len() > 0 {
					res = st.Fresh(ci.Key+"()", ci.Typ)
				}
			}
			if res == nil {
				res = tb.Nil()
			}
			st.Emit(&Event{Kind: "call", Pos: ci.Pos, Fn: ci.In, Callee: ci.Key, Args: append([]*Term{q}, ci.Args[1:]...), Res: res, Instr: ci.Instr})
			return absint.Ret(st, res)
		}
	}
	d.x.Models["heap.Push"] = h(1)
	d.x.Models["heap.Pop"] = h(-1)
	d.x.Models["heap.Remove"] = h(-1)
	d.x.Models["heap.Init"] = h(0)
	d.x.Models["heap.Fix"] = h(0)
}

func (d *desp) msg(e *Event) *Term {
	v := e.Args[1]
	for v.Op == "iface" {
		v = v.Args[0]
	}
	return v
}

// fields of a queued-message value.
func (d *desp) mf(v *Term, i int) *Term { return d.x.TB.Field(v, d.tMsg, i) }

func ruleC20(c *C) {
	d := c.des()
	if d == nil {
		return
	}
	tb := d.x.TB
	qn := ""
	if n, ok := d.tQ.(*types.Named); ok {
		qn = n.Obj().Name()
	}
	// list is the slice a method works on
	list := func(rt *ltRoot, st *State) *Term {
		if _, ok := rt.fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			return st.Peek(rt.args[0])
		}
		return rt.args[0]
	}
	at := func(st *State, l, i *Term, f int) *Term {
		return st.Peek(d.fa(st.IndexAddr(l, i, d.tMsg), d.tMsg, f))
	}
	pure := func(rt *ltRoot, p *Path) {
		for _, e := range evs(p, "store", "") {
			c.Ob(isAlloc(e.Args[0]), "pure", rt.name, e.Pos, "%s changes %s", rt.name, e.Args[0])
		}
		c.Ob(p.Kind == "return", "total", rt.name, p.Pos, "%s can end in a %s", rt.name, p.Kind)
	}
	nf := mustStruct(d.tMsg).NumFields()
	in := func(i string) func(st *State, a []*Term) {
		return func(st *State, a []*Term) {
			l := a[0]
			if l.Typ != nil {
				if _, ok := l.Typ.Underlying().(*types.Pointer); ok {
					l = st.Peek(l)
				}
			}
			for _, k := range a[1:] {
				st.F.Assume(tb.Le(tb.Int(0), k))
				st.F.Assume(tb.Lt(k, tb.Len(l)))
			}
		}
	}
	if rt := d.run(qn, "Len", nil); rt != nil {
		for _, p := range rt.ps {
			pure(rt, p)
			c.Ob(len(p.Vals) == 1 && p.St.F.ProveEq(p.Vals[0], tb.Len(list(rt, rt.st0))), "len", rt.name, p.Pos, "Len is not the number of queued messages")
		}
	}
	if rt := d.run(qn, "Less", in("")); rt != nil && len(rt.args) == 3 {
		l := list(rt, rt.st0)
		i, j := rt.args[1], rt.args[2]
		ai, aj := at(rt.st0, l, i, d.mArr), at(rt.st0, l, j, d.mArr)
		si, sj := at(rt.st0, l, i, d.mSeq), at(rt.st0, l, j, d.mSeq)
		cases := []struct {
			what string
			cond []*Term
			want bool
		}{
			{"the first arrives earlier", []*Term{tb.Lt(ai, aj)}, true},
			{"the first arrives later", []*Term{tb.Lt(aj, ai)}, false},
			{"both arrive together and the first was scheduled earlier", []*Term{tb.Eq(ai, aj, true), tb.Lt(si, sj)}, true},
			{"both arrive together and the first was scheduled later", []*Term{tb.Eq(ai, aj, true), tb.Lt(sj, si)}, false},
		}
		for _, p := range rt.ps {
			pure(rt, p)
			if p.Kind != "return" {
				continue
			}
			for _, k := range cases {
				f := p.St.Clone().F
				ok := true
				for _, t := range k.cond {
					ok = ok && f.Assume(t)
				}
				if !ok || contradictory(f, tb) {
					continue
				}
				v, known := f.Value(p.Vals[0])
				c.Ob(known && v == k.want, "order", rt.name, p.Pos, "when %s, Less gives %s, not %t", k.what, p.Vals[0], k.want)
			}
		}
	}
	if rt := d.run(qn, "Swap", in("")); rt != nil && len(rt.args) == 3 {
		l := list(rt, rt.st0)
		i, j := rt.args[1], rt.args[2]
		k := d.x.Param("other", types.Typ[types.Int])
		for _, p := range rt.ps {
			c.Ob(p.Kind == "return", "total", rt.name, p.Pos, "Swap can end in a %s", p.Kind)
			for _, same := range []bool{true, false} {
				st := p.St.Clone()
				if !st.F.Assume(cond(tb, tb.Eq(i, j, true), same)) {
					continue
				}
				for f := 0; f < nf; f++ {
					c.Ob(st.F.ProveEq(at(st, l, i, f), at(rt.st0, l, j, f)) && st.F.ProveEq(at(st, l, j, f), at(rt.st0, l, i, f)) ||
						same && at(st, l, i, f) == at(rt.st0, l, i, f), "swap", rt.name, p.Pos, "Swap does not exchange the two entries completely")
				}
			}
			st := p.St.Clone()
			st.F.Assume(tb.Not(tb.Eq(i, k, true)))
			st.F.Assume(tb.Not(tb.Eq(j, k, true)))
			for f := 0; f < nf; f++ {
				c.Ob(at(st, l, k, f) == at(rt.st0, l, k, f), "swap-others", rt.name, p.Pos, "Swap changes an entry other than the two exchanged")
			}
			c.Ob(list(rt, p.St) == l, "swap-list", rt.name, p.Pos, "Swap replaces the queue")
		}
	}
	if rt := d.run(qn, "Push", nil); rt != nil && len(rt.args) == 2 {
		l := list(rt, rt.st0)
		for _, p := range rt.ps {
			if p.Kind != "return" {
				c.Fail("total", rt.name, p.Pos, "Push can end in a %s", p.Kind)
				continue
			}
			now := list(rt, p.St)
			ok := now.Op == "append" && len(now.Args) == 2 && now.Args[0] == l
			if ok {
				v := now.Args[1]
				whole := tb.MkT(d.tMsg, "tval", absint.TypeKey(d.tMsg), rt.args[1])
				for f := 0; f < nf; f++ {
					ok = ok && d.mf(v, f) == d.mf(whole, f)
				}
			}
			c.Ob(ok, "push", rt.name, p.Pos, "Push leaves the queue as %s, not with the given message appended", now)
		}
	}
	if rt := d.run(qn, "Pop", func(st *State, a []*Term) {
		l := a[0]
		if _, ok := l.Typ.Underlying().(*types.Pointer); ok {
			l = st.Peek(l)
		}
		st.F.Assume(tb.Le(tb.Int(1), tb.Len(l)))
	}); rt != nil {
		l := list(rt, rt.st0)
		n := tb.Len(l)
		last := tb.AddK(n, -1)
		k := d.x.Param("other", types.Typ[types.Int])
		for _, p := range rt.ps {
			if p.Kind != "return" || len(p.Vals) != 1 {
				c.Fail("total", rt.name, p.Pos, "Pop can end in a %s", p.Kind)
				continue
			}
			v := p.Vals[0]
			for v.Op == "iface" {
				v = v.Args[0]
			}
			for f := 0; f < nf; f++ {
				c.Ob(d.mf(v, f) == at(rt.st0, l, last, f), "pop-intact", rt.name, p.Pos, "Pop returns %s, not the last entry as it was queued", v)
			}
			now := list(rt, p.St)
			ok := now.Op == "slice" && now.Args[0] == l && p.St.F.ProveEq(tb.Len(now), last) && p.St.F.ProveEq(now.Args[1], tb.Int(0))
			c.Ob(ok, "pop", rt.name, p.Pos, "Pop leaves the queue as %s, not without exactly its last entry", now)
			st := p.St.Clone()
			st.F.Assume(tb.Le(tb.Int(0), k))
			st.F.Assume(tb.Lt(k, last))
			for f := 0; f < nf; f++ {
				c.Ob(at(st, l, k, f) == at(rt.st0, l, k, f), "pop-others", rt.name, p.Pos, "Pop changes an entry that stays queued")
			}
		}
	}
	// the queue field is only ever handed to container/heap or measured
	qf := mustStruct(d.tSim).Field(d.fQ)
	uses := 0
	for _, fn := range c.P.Funcs("des") {
		c.Funcs[absint.FnKey(fn)] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st, ok := structOf(fa.X.Type())
				if !ok || st.Field(fa.Field) != qf {
					continue
				}
				for _, r := range *fa.Referrers() {
					uses++
					ok, what := d.queueUse(r)
					c.Ob(ok, "only-heap", shortFn(fn), r.Pos(), "%s %s, bypassing the priority queue operations", shortFn(fn), what)
				}
			}
		}
	}
	c.Ob(uses > 0, "instances", "queue uses", token.NoPos, "no use of the queue found")
	// sequence numbers
	pushes := 0
	for _, fn := range c.exportedRoots("des") {
		if fn.Signature.Recv() == nil || recvName(fn) != "Simulator" {
			continue
		}
		rt := d.runFn(fn, nil)
		sq := d.fa(rt.args[0], d.tSim, d.fSeq)
		for _, sg := range c.Segs(rt.ps) {
			if sg.P.Kind != "return" && sg.P.Kind != "back" {
				continue
			}
			from := rt.start(sg)
			seq := from.Peek(sq)
			end := sg.P.St.Peek(sq)
			push := evs(sg.P, "call", "heap.Push")
			for k, e := range push {
				pushes++
				m := d.msg(e)
				want := seq
				if k > 0 {
					want = nil
				}
				got := d.mf(m, d.mSeq)
				c.Ob(want == nil && k > 0 || sg.P.St.F.ProveEq(got, seq), "sequence", rt.name, e.Pos, "%s queues a message with sequence number %s, not the next one %s", rt.name, got, seq)
				if k > 0 {
					prev := d.mf(d.msg(push[k-1]), d.mSeq)
					c.Ob(sg.P.St.F.Entails(tb.Lt(prev, got)), "sequence", rt.name+" next", e.Pos, "%s queues two messages with sequence numbers %s and %s", rt.name, prev, got)
				}
			}
			if n := len(push); n > 0 {
				c.Ob(sg.P.St.F.Entails(tb.Lt(d.mf(d.msg(push[n-1]), d.mSeq), end)), "sequence", rt.name+" advance", push[n-1].Pos, "%s leaves the sequence number at %s after using it", rt.name, end)
			} else {
				cur := seq
				for _, e := range evs(sg.P, "loop", "") {
					for _, v := range e.Loop.Vars {
						if v.Loc == sq {
							c.Ob(sg.P.St.F.Entails(tb.Le(cur, v.Entry)), "sequence", rt.name+" keep", e.Pos, "%s moves the sequence number from %s to %s", rt.name, cur, v.Entry)
							cur = v.LV
						}
					}
				}
				c.Ob(sg.P.St.F.Entails(tb.Le(cur, end)), "sequence", rt.name+" keep", sg.P.Pos, "%s moves the sequence number from %s to %s", rt.name, cur, end)
			}
		}
	}
	c.Ob(pushes > 0, "instances", "queueing", token.NoPos, "no message is ever queued")
}

func cond(tb *absint.Table, t *Term, v bool) *Term {
	if v {
		return t
	}
	return tb.Not(t)
}

// contradictory: the facts exclude every case (an obvious falsity is derivable).
func contradictory(f *absint.Facts, tb *absint.Table) bool {
	return f.Entails(tb.Le(tb.Int(1), tb.Int(0)))
}

func recvName(fn *ssa.Function) string {
	r := fn.Signature.Recv()
	if r == nil {
		return ""
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// queueUse: may the address of the queue be used like this?
func (d *desp) queueUse(r ssa.Instruction) (bool, string) {
	switch r := r.(type) {
	case *ssa.DebugRef:
		return true, ""
	case *ssa.MakeInterface:
		for _, u := range *r.Referrers() {
			ci, ok := u.(ssa.CallInstruction)
			if !ok {
				return false, "hands the queue elsewhere"
			}
			switch k := calleeName(ci.Common()); k {
			case "heap.Push", "heap.Pop", "heap.Init":
			default:
				return false, "hands the queue to " + k
			}
		}
		return true, ""
	case *ssa.UnOp:
		for _, u := range *r.Referrers() {
			switch u := u.(type) {
			case *ssa.DebugRef:
			case *ssa.Call:
				if b, ok := u.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				if f := u.Common().StaticCallee(); f != nil && f.Name() == "Len" {
					continue
				}
				return false, "passes the queue's entries on"
			case *ssa.IndexAddr:
				for _, v := range *u.Referrers() {
					if _, ok := v.(*ssa.Store); ok {
						return false, "overwrites an entry"
					}
				}
			default:
				return false, "uses the queue's entries directly"
			}
		}
		return true, ""
	case *ssa.Call:
		if f := r.Common().StaticCallee(); f != nil && f.Name() == "Len" {
			return true, ""
		}
		return false, "calls " + calleeName(r.Common()) + " on the queue"
	case *ssa.Store:
		return false, "overwrites the queue"
	}
	return false, "uses the queue's address"
}

func calleeName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		return absint.FnKey(f)
	}
	if c.IsInvoke() {
		return c.Method.Name()
	}
	return c.Value.Name()
}

// schedules: does the loop queue messages (in itself or a nested loop)?
func (d *desp) schedules(l *Loop) bool {
	for _, b := range l.Backs {
		if len(evs(b, "call", "heap.Push")) > 0 {
			return true
		}
		for _, e := range evs(b, "loop", "") {
			if d.schedules(e.Loop) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- C21

func ruleC21(c *C) {
	d := c.des()
	if d == nil {
		return
	}
	tb := d.x.TB
	run := d.run("Simulator", "Run", nil)
	until := d.run("Simulator", "RunUntil", nil)
	sched := d.run("Simulator", "ScheduleMessage", nil)
	if run == nil || until == nil || sched == nil {
		return
	}
	// which fields are addressee and sender: the delivery decides
	d.fTo, d.fFrom = -1, -1
	for _, rt := range []*ltRoot{run, until} {
		for _, sg := range c.Segs(rt.ps) {
			for _, e := range evs(sg.P, "call", "(des.Module).HandleMessage") {
				for f := 0; f < mustStruct(d.tMsg).NumFields(); f++ {
					for _, o := range evs(sg.P, "call", "heap.Pop") {
						v := d.mf(d.popped(o), f)
						if e.Args[0] == v && d.fTo < 0 {
							d.fTo = f
						}
						if e.Args[2] == v && d.fFrom < 0 {
							d.fFrom = f
						}
					}
				}
			}
		}
	}
	if !c.Ob(d.fTo >= 0 && d.fFrom >= 0 && d.fTo != d.fFrom, "deliver", "parties", run.fn.Pos(), "messages are not handled by one module of theirs with another as the sender") {
		return
	}
	// scheduling
	for _, p := range sched.ps {
		if !c.Ob(p.Kind == "return", "schedule", sched.name+" ends", p.Pos, "ScheduleMessage can end in a %s", p.Kind) {
			continue
		}
		push := evs(p, "call", "heap.Push")
		if c.Ob(len(push) == 1 && len(evs(p, "loop", "")) == 0, "schedule", sched.name, p.Pos, "ScheduleMessage queues %d messages", len(push)) {
			d.entry(sched.name, p.St, d.msg(push[0]), push[0], sched.st0, sched.args[0], sched.args[1], sched.args[2])
		}
		d.after(sched, p, sched.st0, 1)
	}
	ndel := 0
	for _, rt := range []*ltRoot{run, until} {
		s := rt.args[0]
		clock := d.fa(s, d.tSim, d.fTime)
		queue := d.fa(s, d.tSim, d.fQ)
		var main []*Loop
		for _, p := range rt.ps {
			for _, e := range evs(p, "loop", "") {
				if !hasLoop(main, e.Loop) {
					main = append(main, e.Loop)
				}
			}
		}
		for _, sg := range c.Segs(rt.ps) {
			if sg.P.Kind != "return" && sg.P.Kind != "back" {
				continue
			}
			pops := evs(sg.P, "call", "heap.Pop")
			hs := evs(sg.P, "call", "(des.Module).HandleMessage")
			c.Ob(len(pops) == len(hs) && len(pops) <= 1, "deliver", rt.name, sg.P.Pos, "%s takes %d messages from the queue and has %d handled", rt.name, len(pops), len(hs))
			if sg.Loop != nil && len(sg.Outer) == 0 && hasLoop(main, sg.Loop) && !d.returnsOf(sg.Loop) {
				c.Ob(len(pops) == 1, "progress", rt.name, sg.P.Pos, "a round of %s delivers nothing", rt.name)
			}
			if len(pops) != 1 || len(hs) != 1 {
				continue
			}
			ndel++
			from := rt.start(sg)
			m := d.popped(pops[0])
			f := sg.P.St.F
			was := from.Peek(clock)
			arr := d.mf(m, d.mArr)
			h := hs[0]
			c.Ob(h.Args[0] == d.mf(m, d.fTo) && h.Args[2] == d.mf(m, d.fFrom) && h.Args[1] == d.mf(m, d.mPay), "deliver", rt.name+" message", h.Pos, "%s delivers %v, not the payload and sender of the message to its addressee", rt.name, h.Args)
			c.Ob(f.ProveEq(h.Args[3], arr), "deliver", rt.name+" time", h.Pos, "%s tells the time %s to the addressee of a message due at %s", rt.name, h.Args[3], arr)
			c.Ob(f.Entails(tb.Le(was, arr)), "monotone", rt.name, h.Pos, "%s delivers a message without its time being known not to be before the clock", rt.name)
			c.Ob(f.ProveEq(sg.P.St.Peek(clock), arr), "clock", rt.name, sg.P.Pos, "after a delivery the clock shows %s, not %s", sg.P.St.Peek(clock), arr)
			// due when delivered
			var lim *Term
			if rt == until {
				lim = rt.args[1]
				c.Ob(f.Entails(tb.Le(was, lim)), "until", rt.name, pops[0].Pos, "RunUntil delivers a message after the clock has passed the given time")
			}
			c.Ob(f.Entails(tb.Le(tb.Int(1), tb.Len(from.Peek(queue)))) || f.Entails(tb.Not(tb.Eq(tb.Len(from.Peek(queue)), tb.Int(0), true))), "non-empty", rt.name, pops[0].Pos, "%s takes a message from a queue not known to hold one", rt.name)
			// what was returned is scheduled
			var S *Loop
			n := 0
			for _, e := range evs(sg.P, "loop", "") {
				if d.schedules(e.Loop) {
					S = e.Loop
					n++
				}
			}
			if !c.Ob(n == 1 && len(evs(sg.P, "call", "heap.Push")) == 0, "follow-up", rt.name, h.Pos, "%s schedules what the handler returned in %d loops", rt.name, n) {
				continue
			}
			exits := []*Path{sg.P}
			nn := tb.Len(h.Res)
			idx, ok := d.counter(S, exits, nn)
			ok = ok && upward(tb, S, idx)
			if !c.Ob(ok, "follow-up", rt.name+" all", S.Pos, "%s does not schedule every message the handler returned, in order", rt.name) {
				continue
			}
			sq := d.fa(s, d.tSim, d.fSeq)
			for _, v := range S.Vars {
				if v.Loc == sq {
					c.Ob(f.ProveEq(v.Entry, from.Peek(sq)) && f.ProveEq(sg.P.St.Peek(sq), v.LV), "counted", rt.name+" delivery", S.Pos, "%s changes the count of scheduled messages by more than it schedules", rt.name)
				}
			}
			for _, b := range S.Backs {
				push := evs(b, "call", "heap.Push")
				if !c.Ob(len(push) == 1, "follow-up", rt.name+" each", b.Pos, "%s queues %d messages for one returned by the handler", rt.name, len(push)) {
					continue
				}
				hit := false
				for _, i := range idx {
					o := b.St.Load(b.St.IndexAddr(h.Res, i, d.tOut), d.tOut)
					if d.entryOK(b.St, d.msg(push[0]), S.HeadSt, s, o, d.mf(m, d.fTo)) == "" {
						hit = true
					}
				}
				if !hit {
					o := b.St.Load(b.St.IndexAddr(h.Res, idx[0], d.tOut), d.tOut)
					d.entry(rt.name, b.St, d.msg(push[0]), push[0], S.HeadSt, s, o, d.mf(m, d.fTo))
				} else {
					c.Ob(true, "schedule", rt.name, push[0].Pos, "")
				}
				c.Ob(S.HeadSt.Peek(clock) == b.St.Peek(clock) && f.ProveEq(S.HeadSt.Peek(clock), arr), "clock", rt.name+" follow-up", b.Pos, "%s schedules while the clock shows %s", rt.name, S.HeadSt.Peek(clock))
				d.after(rt, b, S.HeadSt, 1)
			}
		}
		for _, p := range rt.ps {
			if p.Kind == "panic" || p.Kind == "exit" {
				c.Ob(d.reversal(p, clock), "stop", rt.name+" panic", p.Pos, "%s can end in a %s although no message is late", rt.name, p.Kind)
				continue
			}
			empty := p.St.F.ProveEq(tb.Len(p.St.Peek(queue)), tb.Int(0)) || p.St.F.Entails(tb.Le(tb.Len(p.St.Peek(queue)), tb.Int(0)))
			past := rt == until && p.St.F.Entails(tb.Lt(rt.args[1], p.St.Peek(clock)))
			c.Ob(empty || past, "stop", rt.name, p.Pos, "%s can return with messages still queued%s", rt.name, map[bool]string{true: " and the clock not past the given time"}[rt == until])
			c.Ob(len(main) > 0, "stop", rt.name+" loop", p.Pos, "%s delivers nothing", rt.name)
		}
	}
	c.Ob(ndel > 0, "instances", "deliveries", token.NoPos, "no delivery found")
	// counters
	get := func(name string, want func(st *State, s *Term) *Term) {
		rt := d.run("Simulator", name, nil)
		if rt == nil {
			return
		}
		for _, p := range rt.ps {
			w := want(rt.st0, rt.args[0])
			ok := p.Kind == "return" && len(p.Vals) == 1
			if ok {
				if name == "Drained" {
					for _, v := range []bool{true, false} {
						f := p.St.Clone().F
						if f.Assume(cond(tb, w, v)) && !contradictory(f, tb) {
							g, k := f.Value(p.Vals[0])
							ok = ok && k && g == v
						}
					}
				} else {
					ok = p.St.F.ProveEq(p.Vals[0], w)
				}
			}
			c.Ob(ok, "counter", rt.name, p.Pos, "%s gives %v, not %s", rt.name, p.Vals, w)
			d.after(rt, p, rt.st0, 0)
		}
	}
	f := func(i int) func(st *State, s *Term) *Term {
		return func(st *State, s *Term) *Term { return st.Peek(d.fa(s, d.tSim, i)) }
	}
	qlen := func(st *State, s *Term) *Term { return tb.Len(f(d.fQ)(st, s)) }
	get("EventsQueued", qlen)
	get("EventsDelivered", func(st *State, s *Term) *Term { return tb.Sub(f(d.fSeq)(st, s), qlen(st, s)) })
	get("Drained", func(st *State, s *Term) *Term { return tb.Eq(qlen(st, s), tb.Int(0), true) })
	get("Time", f(d.fTime))
}

func hasLoop(ls []*Loop, l *Loop) bool {
	for _, o := range ls {
		if o == l {
			return true
		}
	}
	return false
}

// returnsOf: a loop that schedules returned messages itself.
func (d *desp) returnsOf(l *Loop) bool {
	for _, b := range l.Backs {
		if len(evs(b, "call", "heap.Push")) > 0 {
			return true
		}
	}
	return false
}

func upward(tb *absint.Table, l *Loop, idx []*Term) bool {
	for _, i := range idx {
		for _, v := range absint.Atoms(i) {
			if r := l.Var(v); r != nil {
				for _, b := range l.Backs {
					if tb.Sub(l.Back(b, r), r.LV) != tb.Int(1) {
						return false
					}
				}
			}
		}
	}
	return true
}

func (d *desp) popped(e *Event) *Term {
	return d.x.TB.MkT(d.tMsg, "tval", absint.TypeKey(d.tMsg), e.Res)
}

// entryOK: is m the queued form of the outgoing message o of module from?
func (d *desp) entryOK(st *State, m *Term, at *State, s, o, from *Term) string {
	tb := d.x.TB
	f := st.F
	of := func(i int) *Term { return tb.Field(o, d.tOut, i) }
	if got, want := d.mf(m, d.mArr), tb.Add(at.Peek(d.fa(s, d.tSim, d.fTime)), of(d.oDelay)); !f.ProveEq(got, want) {
		return "is due at " + got.String() + ", not at " + want.String()
	}
	if got := d.mf(m, d.mPay); got != of(d.oPay) && !f.ProveEq(got, of(d.oPay)) {
		return "carries " + got.String() + ", not the payload"
	}
	if got := d.mf(m, d.fFrom); got != from && !f.ProveEq(got, from) {
		return "names " + got.String() + " as the sender"
	}
	to := d.mf(m, d.fTo)
	isNil := tb.Eq(of(d.oTo), tb.Nil(), false)
	if v, k := f.Value(isNil); k && v {
		if to != from && !f.ProveEq(to, from) {
			return "goes to " + to.String() + " where no addressee is named, not back to the sender"
		}
	} else if k && to == of(d.oTo) {
	} else {
		return "goes to " + to.String() + ", not to the addressee named"
	}
	return ""
}

func (d *desp) entry(name string, st *State, m *Term, e *Event, at *State, s, o, from *Term) {
	why := d.entryOK(st, m, at, s, o, from)
	d.c.Ob(why == "", "schedule", name, e.Pos, "the message queued by %s %s", name, why)
}

// after: the sequence number has counted the n messages queued, the clock stands still.
func (d *desp) after(rt *ltRoot, p *Path, from *State, n int64) {
	tb := d.x.TB
	s := rt.args[0]
	sq := d.fa(s, d.tSim, d.fSeq)
	ck := d.fa(s, d.tSim, d.fTime)
	d.c.Ob(p.St.F.ProveEq(p.St.Peek(sq), tb.AddK(from.Peek(sq), n)), "counted", rt.name, p.Pos, "%s changes the count of scheduled messages from %s to %s for %d of them", rt.name, from.Peek(sq), p.St.Peek(sq), n)
	d.c.Ob(p.St.Peek(ck) == from.Peek(ck), "clock", rt.name+" frame", p.Pos, "%s changes the clock", rt.name)
}

// reversal: the path stops because the message taken is due before the clock.
func (d *desp) reversal(p *Path, clock *Term) bool {
	for _, e := range evs(p, "call", "heap.Pop") {
		for _, l := range append([]*Event{nil}, evs(p, "loop", "")...) {
			var was *Term
			if l == nil {
				was = p.St.Peek(clock)
			} else {
				was = l.Loop.HeadSt.Peek(clock)
			}
			if p.St.F.Entails(d.x.TB.Lt(d.mf(d.popped(e), d.mArr), was)) {
				return true
			}
		}
	}
	return false
}
