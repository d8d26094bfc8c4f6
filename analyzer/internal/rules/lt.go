package rules

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

// ltp holds the resolved anchors of one of the packages lt, iblt and ldpc.
type ltp struct {
	c                                    *C
	x                                    *absint.Exec
	rel                                  string
	ref                                  bool // transactions are held by pointer (ldpc)
	tEnc, tDec, tTx, tST, tRec, tPT, tPC types.Type
	tCW, tRes                            types.Type
	eWin, eKeys, eHasher, eDist, eWS     int
	dRecv, dRecent, dPend, dHasher, dMem int
	stKey, stTx, recKey, recTx           int
	ptKey, ptBlk                         int
	pcSym, pcMem, pcQ, pcDec, pcFreed    int
	cwSym, cwMem, txData, txHash, resTx  int
	resExp                               int
	ok                                   bool
}

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func isIface(t types.Type) bool {
	_, tp := t.(*types.TypeParam)
	return types.IsInterface(t) && !tp
}

func isMapTo(pred func(types.Type) bool) func(types.Type) bool {
	return func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && pred(m.Elem())
	}
}

func isNamed(n string) func(types.Type) bool {
	return func(t types.Type) bool {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		d, ok := t.(*types.Named)
		return ok && d.Obj().Name() == n
	}
}

func and(a, b func(types.Type) bool) func(types.Type) bool {
	return func(t types.Type) bool { return a(t) && b(t) }
}

func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
func isMapT(t types.Type) bool   { _, ok := t.Underlying().(*types.Map); return ok }

// lt resolves the anchors of package rel.
func (c *C) lt(rel string) *ltp {
	l := &ltp{c: c, rel: rel, ok: true, ref: rel == "ldpc"}
	l.x = c.exec()
	c.X = l.x
	need := func(ok bool, what string) {
		if !ok {
			l.ok = false
			c.Fail("anchor", rel+" "+what, token.NoPos, "%s of package %s cannot be resolved", what, rel)
		}
	}
	l.tEnc, l.tDec, l.tTx, l.tCW = c.Type(rel, "Encoder"), c.Type(rel, "Decoder"), c.Type(rel, "Transaction"), c.Type(rel, "Codeword")
	l.tPC = c.Type(rel, "PendingCodeword")
	need(l.tEnc != nil && l.tDec != nil && l.tTx != nil && l.tCW != nil && l.tPC != nil, "exported types")
	if !l.ok {
		return l
	}
	get := func(t types.Type, name string, pred func(types.Type) bool, what string) int {
		if t == nil {
			need(false, what)
			return -1
		}
		i := field(t, name, pred)
		need(i >= 0, what)
		return i
	}
	ftype := func(t types.Type, i int) types.Type {
		s, ok := structOf(t)
		if !ok || i < 0 {
			return nil
		}
		return s.Field(i).Type()
	}
	deref := func(t types.Type) types.Type {
		if t == nil {
			return nil
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
		return t
	}
	isU32 := isBasic(types.Uint32)
	l.eWin = get(l.tEnc, "window", func(t types.Type) bool { e := sliceElem(t); _, ok := structOf2(e); return e != nil && ok }, "encoder window")
	l.eKeys = get(l.tEnc, "hashes", isMapT, "encoder salted-hash set")
	l.eHasher = get(l.tEnc, "hasher", isNamed("Hash64"), "encoder hasher")
	l.eDist = get(l.tEnc, "degreeDist", isNamed("DegreeDistribution"), "degree distribution")
	l.eWS = get(l.tEnc, "windowSize", isBasic(types.Int), "window size")
	l.dRecv = get(l.tDec, "receivedTransactions", isMapTo(isNamed("Transaction")), "table of known transactions")
	l.dPend = get(l.tDec, "pendingTransactions", isMapTo(func(t types.Type) bool { return !isNamed("Transaction")(t) }), "table of unknown transactions")
	l.dRecent = get(l.tDec, "recentTransactions", isSliceT, "list of known transactions")
	l.dHasher = get(l.tDec, "hasher", isNamed("Hash64"), "decoder hasher")
	mem := "memory"
	if l.ref {
		mem = "numTransactionsMemorized"
	}
	l.dMem = get(l.tDec, mem, isBasic(types.Int), "decoder memory")
	if !l.ok {
		return l
	}
	l.tST = sliceElem(ftype(l.tEnc, l.eWin))
	l.tRec = sliceElem(ftype(l.tDec, l.dRecent))
	l.tPT = deref(ftype(l.tDec, l.dPend).Underlying().(*types.Map).Elem())
	l.stKey = get(l.tST, "saltedHash", isU32, "salted hash of a window entry")
	l.stTx = get(l.tST, "Transaction", isNamed("Transaction"), "transaction of a window entry")
	l.recKey = get(l.tRec, "saltedHash", isU32, "salted hash of a remembered transaction")
	l.recTx = get(l.tRec, "Transaction", isNamed("Transaction"), "remembered transaction")
	l.ptKey = get(l.tPT, "saltedHash", isU32, "salted hash of a pending record")
	l.ptBlk = get(l.tPT, "blocking", isSliceT, "codewords waiting for a pending record")
	l.pcMem = get(l.tPC, "members", isSliceT, "unknown members of a codeword")
	l.pcSym = get(l.tPC, "symbol", nil, "sum of a codeword")
	l.pcQ = get(l.tPC, "queued", nil, "queued mark of a codeword")
	l.pcDec = get(l.tPC, "decoded", nil, "decoded mark of a codeword")
	l.pcFreed = field(l.tPC, "freed", nil)
	cs, cm := "symbol", "members"
	if l.ref {
		cs, cm = "Symbol", "Members"
	}
	l.cwSym = get(l.tCW, cs, nil, "codeword data")
	l.cwMem = get(l.tCW, cm, isSliceT, "codeword members")
	dn := "data"
	if l.ref {
		dn = "serialized"
	}
	l.txData = get(l.tTx, dn, nil, "transaction data")
	l.txHash = get(l.tTx, "hash", nil, "transaction hash")
	l.resTx, l.resExp = -1, -1
	if l.ref {
		l.tRes = c.Type(rel, "DecodedTransaction")
		l.resTx = get(l.tRes, "Transaction", isNamed("Transaction"), "decoded transaction")
		l.resExp = get(l.tRes, "Expired", nil, "expired mark")
		l.refModels()
	}
	return l
}

func structOf2(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	return structOf(t)
}

// refModels: ldpc.Transaction.UnmarshalBinary and TransactionData.XOR, whose own
// code is the subject of C18, are taken at their word here.
func (l *ltp) refModels() {
	tb := l.x.TB
	size := int64(-1)
	s, _ := structOf(l.tTx)
	if a, ok := s.Field(l.txData).Type().Underlying().(*types.Array); ok {
		size = a.Len()
	}
	l.x.Models["(*ldpc.Transaction).UnmarshalBinary"] = func(st *State, ci *absint.CallInfo) []absint.CallResult {
		var out []absint.CallResult
		good := tb.Eq(tb.Len(ci.Args[1]), tb.Int(size), true)
		v, k := st.F.Value(good)
		if !k || !v {
			bad := st.Clone()
			if k || bad.F.Assume(tb.Not(good)) {
				r := bad.Fresh("unmarshal error", ci.Typ)
				bad.F.Assume(tb.Not(tb.Eq(r, tb.Nil(), false)))
				out = append(out, absint.Ret(bad, r)...)
			}
		}
		if !k || v {
			if k || st.F.Assume(good) {
				d := st.Content(ci.Args[1])
				st.Poke(l.fa(ci.Args[0], l.tTx, l.txData), tb.Dup(d))
				st.Poke(l.fa(ci.Args[0], l.tTx, l.txHash), tb.Hash(d))
				st.Emit(&Event{Kind: "call", Pos: ci.Pos, Fn: ci.In, Callee: ci.Key, Args: ci.Args, Instr: ci.Instr})
				out = append(out, absint.Ret(st, tb.Nil())...)
			}
		}
		return out
	}
	l.x.Models["(*ldpc.TransactionData).XOR"] = func(st *State, ci *absint.CallInfo) []absint.CallResult {
		old, arg := st.Peek(ci.Args[0]), st.Peek(ci.Args[1])
		r := tb.XorT(old, arg)
		if r.Typ == nil {
			r.Typ = old.Typ
		}
		st.Poke(ci.Args[0], r)
		st.Emit(&Event{Kind: "xor", Pos: ci.Pos, Fn: ci.In, Callee: ci.Key, Args: []*Term{old, arg, ci.Args[0], ci.Args[1]}, Res: r, Instr: ci.Instr})
		return absint.Ret(st, tb.Nil())
	}
}

func (l *ltp) fa(base *Term, t types.Type, i int) *Term {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return l.x.FieldAddr(base, t, i)
}

func (l *ltp) ftype(t types.Type, i int) types.Type {
	s, _ := structOf(t)
	return s.Field(i).Type()
}

// txParts: data and hash of a transaction value.
func (l *ltp) txParts(st *State, t *Term) (data, hash *Term) {
	if l.ref {
		return st.Peek(l.fa(t, l.tTx, l.txData)), st.Peek(l.fa(t, l.tTx, l.txHash))
	}
	return l.x.TB.Field(t, l.tTx, l.txData), l.x.TB.Field(t, l.tTx, l.txHash)
}

// txAt: the transaction held in field i of the list element at address a.
func (l *ltp) txAt(st *State, a *Term, t types.Type, i int) *Term {
	return st.Load(l.fa(a, t, i), l.ftype(t, i))
}

// key is the salted hash of content under hasher h.
func (l *ltp) key(h, content *Term) *Term {
	tb := l.x.TB
	st := tb.Mk("hwrite", "", tb.Mk("hempty", ""), content)
	sum := tb.MkT(types.Typ[types.Uint64], "hsum", "", h, st)
	return tb.MkT(types.Typ[types.Uint32], "conv", absint.TypeKey(types.Typ[types.Uint32]), sum)
}

func (l *ltp) at(st *State, list, i *Term, elem types.Type) *Term { return st.IndexAddr(list, i, elem) }

// root analyses an exported function from the generic initial state.
type ltRoot struct {
	fn   *ssa.Function
	name string
	args []*Term
	st0  *State
	ps   []*Path
	idx  map[*Term][]lvRec
}

func (l *ltp) run(recv, name string, assume func(st *State, args []*Term)) *ltRoot {
	fn := l.c.Fn(l.rel, recv, name)
	if fn == nil {
		return nil
	}
	return l.runFn(fn, assume)
}

func (l *ltp) runFn(fn *ssa.Function, assume func(st *State, args []*Term)) *ltRoot {
	st := l.x.NewState()
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, l.x.Param(p.Name(), p.Type()))
	}
	if assume != nil {
		assume(st, args)
	}
	st0 := st.Clone()
	ps := l.c.Run(l.x, fn, st, args)
	return &ltRoot{fn: fn, name: l.rel + "." + shortFn(fn), args: args, st0: st0, ps: ps, idx: l.c.lvIndex(ps)}
}

func shortFn(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + fn.Name()
		}
	}
	return fn.Name()
}

// present: does the map content hold the key (nil values are never stored).
func (l *ltp) present(st *State, m, key *Term, elem types.Type) (has, known bool) {
	if v, k := st.F.Value(st.MapHas(m, key)); k {
		return v, true
	}
	if _, ok := elem.Underlying().(*types.Pointer); ok {
		g := l.x.TB.MkT(elem, "mget", "", m, key)
		if st.F.ProveEq(g, l.x.TB.Nil()) {
			return false, true
		}
		if st.F.ProveNe(g, l.x.TB.Nil()) {
			return true, true
		}
	}
	return false, false
}

// value of a present key.
func (l *ltp) mapVal(st *State, m, key *Term, elem types.Type) *Term { return st.MapGet(m, key, elem) }

// step is one operation on a list or map along a path, oldest first.
type step struct {
	kind   string // append, drop, cut, put, del, loop
	before *Term
	after  *Term
	xs     []*Term // append: elements; drop: count; put: key, value; del: key
	l      *Loop
	lv     *absint.LVInfo
}

// walk decomposes the value v of a list or map on path p into operations on base.
func walk(p *Path, idx map[*Term][]lvRec, v, base *Term) ([]step, bool) {
	var rev []step
	for n := 0; n < 200; n++ {
		if v == base || base == p.St.TB().Nil() && v.Op == "makeslice" && p.St.TB().Len(v) == p.St.TB().Int(0) {
			out := make([]step, len(rev))
			for i := range rev {
				out[i] = rev[len(rev)-1-i]
			}
			return out, true
		}
		switch v.Op {
		case "append":
			rev = append(rev, step{kind: "append", before: v.Args[0], after: v, xs: v.Args[1:]})
			v = v.Args[0]
			continue
		case "slice":
			k := "cut"
			if v.Args[2] == p.St.TB().Len(v.Args[0]) {
				k = "drop"
			}
			rev = append(rev, step{kind: k, before: v.Args[0], after: v, xs: []*Term{v.Args[1], v.Args[2]}})
			v = v.Args[0]
			continue
		case "mput":
			rev = append(rev, step{kind: "put", before: v.Args[0], after: v, xs: v.Args[1:]})
			v = v.Args[0]
			continue
		case "mdel":
			rev = append(rev, step{kind: "del", before: v.Args[0], after: v, xs: v.Args[1:]})
			v = v.Args[0]
			continue
		}
		moved := false
		for _, x := range idx[v] {
			if onPath(p, x.l) {
				rev = append(rev, step{kind: "loop", before: x.v.Entry, after: v, l: x.l, lv: x.v})
				v = x.v.Entry
				moved = true
				break
			}
		}
		if !moved {
			return nil, false
		}
	}
	return nil, false
}

// keep describes how a bounded list and its lookup table are kept in step.
type keep struct {
	list, table string                                          // for messages
	limit       *Term                                           // at most this many entries
	elem        types.Type                                      // list element
	key         int                                             // its salted-hash field
	opaque      func(*Loop) bool                                // loops whose iterations are judged on their own
	same        func(st *State, m, key, a *Term) (yes, no bool) // identity guard (nil: always delete)
}

// bounded checks a change of list and table on path p: returns the appended
// elements and the entries put.
func (l *ltp) bounded(p *Path, idx map[*Term][]lvRec, from *State, k keep, construct string, list1, list0, tab1, tab0 *Term, extra int64) (apps []*Term, puts [][]*Term, ok bool) {
	c, tb := l.c, l.x.TB
	ls, ok1 := walk(p, idx, list1, list0)
	ms, ok2 := walk(p, idx, tab1, tab0)
	if !c.Ob(ok1, "list", construct, p.Pos, "%s becomes %s, which is not the old one with entries appended or the oldest dropped", k.list, list1) ||
		!c.Ob(ok2, "table", construct, p.Pos, "%s becomes %s, which is not the old one with entries set or deleted", k.table, tab1) {
		return nil, nil, false
	}
	// guards refer to the state around the operation
	peek := func(a *Term) []*Term {
		r := []*Term{p.St.Peek(a)}
		if from != nil {
			r = append(r, from.Peek(a))
		}
		return r
	}
	used := map[int]bool{}
	matched := func(base, i *Term) (int, *Term) {
		a := l.fa(l.at(p.St, base, i, k.elem), k.elem, k.key)
		for j, m := range ms {
			if m.kind != "del" || used[j] {
				continue
			}
			for _, kv := range peek(a) {
				if p.St.F.ProveEq(m.xs[0], kv) {
					return j, kv
				}
			}
		}
		return -1, p.St.Peek(a)
	}
	for i, s := range ls {
		later := extra // entries still to be appended after this step
		for _, z := range ls[i+1:] {
			if z.kind == "append" {
				later += int64(len(z.xs))
			}
		}
		switch s.kind {
		case "append":
			apps = append(apps, s.xs...)
		case "drop":
			n := s.xs[0]
			c.Ob(p.St.F.Entails(tb.Le(k.limit, tb.AddK(tb.Len(s.after), later))), "drop-only-excess", construct, p.Pos, "%s drops its oldest entries although it is not known to be over its size", k.list)
			if cnt, isNum := numOf(n); isNum && cnt <= 4 {
				for i := int64(0); i < cnt; i++ {
					l.dropOne(p, from, k, construct, s.before, tb.Int(i), ms, used, matched)
				}
				continue
			}
			// many at once: a loop on the path deletes the keys of the dropped ones
			found := false
			for j, m := range ms {
				if m.kind != "loop" || used[j] {
					continue
				}
				if l.deletesPrefix(p, m, s.before, n, k) {
					used[j] = true
					found = true
					break
				}
			}
			c.Ob(found, "drop-matches", construct, p.Pos, "%s drops %s entries whose salted hashes are not all removed from %s", k.list, n, k.table)
		case "loop":
			c.Ob(len(s.l.Backs) > 0, "list", construct, s.l.Pos, "empty loop")
			// the table's variable in the same loop
			mj := -1
			for j, m := range ms {
				if m.kind == "loop" && m.l == s.l {
					mj = j
					used[j] = true
				}
			}
			if k.opaque != nil && k.opaque(s.l) {
				continue
			}
			for _, b := range s.l.Backs {
				t0 := tab0
				if mj >= 0 {
					t0 = ms[mj].lv.LV
				}
				t1 := t0
				if mj >= 0 {
					t1 = s.l.Back(b, ms[mj].lv)
				}
				a2, p2, _ := l.bounded(b, idx, s.l.HeadSt, k, construct, s.l.Back(b, s.lv), s.lv.LV, t1, t0, later)
				c.Ob(len(a2) == 0 && len(p2) == 0, "list", construct, b.Pos, "the loop trimming %s also adds entries", k.list)
			}
		default:
			c.Fail("list", construct, p.Pos, "%s is cut at its end: %s", k.list, s.after)
		}
	}
	for j, m := range ms {
		switch m.kind {
		case "put":
			puts = append(puts, m.xs)
		case "del", "loop":
			c.Ob(used[j], "drop-matches", construct, p.Pos, "%s loses an entry although the list does not drop it", k.table)
		}
	}
	return apps, puts, true
}

func (l *ltp) dropOne(p *Path, from *State, k keep, construct string, base, i *Term, ms []step, used map[int]bool, matched func(base, i *Term) (int, *Term)) {
	c := l.c
	j, key := matched(base, i)
	if k.same == nil {
		c.Ob(j >= 0, "drop-matches", construct, p.Pos, "an entry leaves %s but its salted hash stays in %s", k.list, k.table)
		if j >= 0 {
			used[j] = true
		}
		return
	}
	a := l.at(p.St, base, i, k.elem)
	var yes, no bool
	tabs := map[*Term]bool{}
	for _, m := range ms {
		tabs[m.before] = true
		tabs[m.after] = true
	}
	if from != nil {
		// the table as the iteration found it
		for t := range p.St.F.AtomList() {
			for _, m := range mgetsIn(t) {
				tabs[m] = true
			}
		}
	}
	for t := range p.St.F.AtomList() {
		for _, m := range mgetsIn(t) {
			tabs[m] = true
		}
	}
	for m := range tabs {
		y, n := k.same(p.St, m, key, a)
		if !y && !n && from != nil {
			g := from.Clone()
			g.F = p.St.F
			y, n = k.same(g, m, key, a)
		}
		yes, no = yes || y, no || n
	}
	if j >= 0 {
		used[j] = true
		c.Ob(yes && !no, "forget-only-itself", construct, p.Pos, "forgetting the oldest transaction removes %s from %s without having established that the entry is the forgotten transaction itself", key, k.table)
	} else {
		c.Ob(no && !yes, "forget", construct, p.Pos, "the oldest transaction leaves %s but stays in %s", k.list, k.table)
	}
}

func mgetsIn(t *Term) []*Term {
	var out []*Term
	var w func(t *Term, d int)
	w = func(t *Term, d int) {
		if t == nil || d > 12 {
			return
		}
		if t.Op == "mget" || t.Op == "mhas" {
			out = append(out, t.Args[0])
		}
		for _, a := range t.Args {
			w(a, d+1)
		}
	}
	w(t, 0)
	return out
}

// deletesPrefix: loop step m deletes exactly the keys of elements 0..n-1 of base.
func (l *ltp) deletesPrefix(p *Path, m step, base, n *Term, k keep) bool {
	if k.same != nil || len(m.l.Backs) == 0 {
		return false
	}
	exits := []*Path{p}
	for _, b := range m.l.Backs {
		v := m.l.Back(b, m.lv)
		if v.Op != "mdel" || v.Args[0] != m.lv.LV {
			return false
		}
		key := v.Args[1]
		if key.Op != "load" || key.Args[0].Op != "faddr" || key.Args[0].Args[0].Op != "iaddr" {
			return false
		}
		el := key.Args[0].Args[0]
		i := el.Args[1]
		if el != l.at(b.St, base, i, k.elem) && el.Args[0] != base {
			return false
		}
		if key != m.l.HeadSt.Peek(l.fa(el, k.elem, k.key)) {
			return false
		}
		if !l.c.covers(m.l, b, exits, i, n) {
			return false
		}
	}
	return true
}

func init() {
	lts := []string{"lt", "iblt", "ldpc"}
	register(&Rule{ID: "C10", Pkgs: lts, MinObl: 12, Run: each(lts, ruleC10),
		What: "AddTransaction refuses exactly when the salted hash is in the set, leaving everything alone, and otherwise appends one entry, sets its hash and drops oldest entries together with their hashes only while over size, ending within size; no other operation changes window or set"})
	register(&Rule{ID: "C15", Pkgs: lts, MinObl: 8, Run: each(lts, ruleC15),
		What: "storing sets the table entry and appends to the list, oldest entries are dropped only while over memory and leave the table only if they are what the table holds; lookups read the table under the salted hash"})
	register(&Rule{ID: "C16", Pkgs: lts, MinObl: 6, Run: each(lts, ruleC16),
		What: "every keyed sum is taken from the object's own hasher, reset and fed with the complete transaction hash only, truncated to uint32; every salted hash stored or used as a key is such a value, a stored one or a listed one; constructors key the hasher with the whole salt"})
	register(&Rule{ID: "C11", Pkgs: []string{"lt", "iblt"}, MinObl: 8, Run: each([]string{"lt", "iblt"}, ruleC11),
		What: "the sampling loop exchanges position i with a later one, XORs and lists the entry brought to i exactly once, and a second loop undoes the exchanges in reverse order; N = min(degree, window) members; panic exactly for N = 0"})
	register(&Rule{ID: "C12", Pkgs: lts, MinObl: 10, Run: each(lts, rulePeel),
		What: "per listed member: known means one XOR, unknown means one link each way through the record under that salted hash; at most one unknown means the codeword is queued and worked off and the results returned"})
	register(&Rule{ID: "C13", Pkgs: lts, MinObl: 10, Run: each(lts, rulePeel),
		What: "work loop: exactly one unknown member and equal salted hash are necessary for reporting, storing and dropping the record, once each; a mismatch detaches the codeword and drops the record exactly when nothing waits for it"})
	register(&Rule{ID: "C14", Pkgs: lts, MinObl: 10, Run: each(lts, rulePeel),
		What: "peeling covers every waiting codeword: one removal of the record, one XOR, queued exactly when at most one member is left and not queued before; work goes on until the queue is empty; AddTransaction peels only what it did not hold"})
	register(&Rule{ID: "C17", Pkgs: []string{"ldpc"}, MinObl: 10, Run: each([]string{"ldpc"}, ruleC17),
		What: "per path and loop round: no access, link, return or second release of an object after its Put; every field of an object from Get is overwritten before it is read and before the round ends, old values flow nowhere; codewords are Put only when decoded and freed, records only when unlisted and waited for by none; pools make objects of their own and of one type"})
	register(&Rule{ID: "C18", Pkgs: []string{"ldpc"}, MinObl: 6, Run: each([]string{"ldpc"}, ruleC18),
		What: "UnmarshalBinary accepts exactly input of the transaction size, copies all of it and takes the digest of all of it with a reset hasher, and touches nothing otherwise; XOR's one pass combines every byte of the receiver, once, with the same byte of the operand; Serialized returns the bytes"})
	register(&Rule{ID: "C19", Pkgs: []string{"ldpc"}, MinObl: 10, Run: each([]string{"ldpc"}, ruleC19),
		What: "the picks start as the first N = min(degree, window size) window entries; a drawn slot is replaced by window entries at strictly increasing positions from N on, none of which is skipped for certain; a last loop adds each pick's data once and lists its salted hash; N = 0 gives an empty codeword; the window is never written"})
}

func each(rels []string, f func(l *ltp)) func(c *C) {
	return func(c *C) {
		for _, rel := range rels {
			l := c.lt(rel)
			if l.ok {
				f(l)
			}
		}
	}
}

// ---------------------------------------------------------------- C10

func ruleC10(l *ltp) {
	c, tb := l.c, l.x.TB
	loc := func(e *Term, i int) *Term { return l.fa(e, l.tEnc, i) }
	assume := func(st *State, args []*Term) {
		e := args[0]
		ws := st.Peek(loc(e, l.eWS))
		st.F.Assume(tb.Le(tb.Int(1), ws))
		st.F.Assume(tb.Le(tb.Len(st.Peek(loc(e, l.eWin))), ws))
	}
	rt := l.run("Encoder", "AddTransaction", assume)
	if rt == nil || len(rt.args) != 2 {
		return
	}
	e, t := rt.args[0], rt.args[1]
	win0, ws := rt.st0.Peek(loc(e, l.eWin)), rt.st0.Peek(loc(e, l.eWS))
	ref0 := rt.st0.Peek(loc(e, l.eKeys))
	keys0 := rt.st0.MapContent(ref0)
	_, h := l.txParts(rt.st0, t)
	key := l.key(rt.st0.Peek(loc(e, l.eHasher)), h)
	name := rt.name
	nNew, nOld := 0, 0
	for _, p := range rt.ps {
		if !c.Ob(p.Kind == "return" && len(p.Vals) == 1, "returns", name, p.Pos, "adding a transaction can end without an answer") {
			continue
		}
		st := p.St
		win1, ref1 := st.Peek(loc(e, l.eWin)), st.Peek(loc(e, l.eKeys))
		keys1 := st.MapContent(ref1)
		c.Ob(ref1 == ref0 && st.Peek(loc(e, l.eWS)) == ws, "frame", name, p.Pos, "adding a transaction replaces the set of salted hashes or the window size")
		has, known := st.F.Value(st.MapHas(keys0, key))
		ans, aknown := st.F.Value(p.Vals[0])
		if !c.Ob(known, "duplicate-decided", name, p.Pos, "a way through AddTransaction does not depend on whether the salted hash is in the window") {
			continue
		}
		c.Ob(aknown && ans == !has, "answer", name, p.Pos, "AddTransaction answers %s for a transaction whose salted hash is in the window: %v", p.Vals[0], has)
		if has {
			nOld++
			c.Ob(win1 == win0 && keys1 == keys0, "refused-unchanged", name, p.Pos, "a refused transaction changes the window or the set of salted hashes")
			c.Ob(!l.writesElem(p, win0, l.tST), "refused-unchanged", name, p.Pos, "a refused transaction changes an entry of the window")
			continue
		}
		nNew++
		k := keep{list: "the window", table: "the set of salted hashes", limit: ws, elem: l.tST, key: l.stKey}
		apps, puts, ok := l.bounded(p, rt.idx, rt.st0, k, name, win1, win0, keys1, keys0, 0)
		if !ok {
			continue
		}
		c.Ob(len(apps) == 1 && len(puts) == 1, "accepted-once", name, p.Pos, "an accepted transaction is appended %d times and its hash set %d times", len(apps), len(puts))
		for _, a := range apps {
			c.Ob(st.F.ProveEq(tb.Field(a, l.tST, l.stKey), key), "entry", name, p.Pos, "the new window entry has salted hash %s", tb.Field(a, l.tST, l.stKey))
			c.Ob(tb.Field(a, l.tST, l.stTx) == t, "entry", name, p.Pos, "the new window entry holds %s instead of the transaction", tb.Field(a, l.tST, l.stTx))
		}
		for _, q := range puts {
			c.Ob(st.F.ProveEq(q[0], key), "set-key", name, p.Pos, "the set of salted hashes gains %s", q[0])
		}
		c.Ob(st.F.Entails(tb.Le(tb.Len(win1), ws)), "size", name, p.Pos, "after adding, the window may hold more than the configured size")
		c.Ob(!l.writesElem(p, win0, l.tST), "entries-kept", name, p.Pos, "adding a transaction changes an existing entry of the window")
	}
	c.Ob(nNew > 0 && nOld > 0, "instances", name, token.NoPos, "AddTransaction does not distinguish new from known transactions")

	// everything else leaves window and set alone
	for _, fn := range c.exportedRoots(l.rel) {
		switch shortFn(fn) {
		case "Encoder.AddTransaction":
			continue
		case "Encoder.Reset":
			r := l.runFn(fn, nil)
			for _, p := range r.ps {
				e := r.args[0]
				w := p.St.Peek(loc(e, l.eWin))
				m := p.St.MapContent(p.St.Peek(loc(e, l.eKeys)))
				c.Ob(p.Kind == "return" && p.St.F.Entails(tb.Le(tb.Len(w), tb.Int(0))) && m.Op == "mempty", "reset", r.name, p.Pos, "Reset leaves transactions in the window or salted hashes in the set")
			}
			continue
		case "NewEncoder":
			r := l.runFn(fn, nil)
			for _, p := range r.ps {
				if !c.Ob(p.Kind == "return" && len(p.Vals) == 1, "new", r.name, p.Pos, "no encoder") {
					continue
				}
				e := p.Vals[0]
				keys := p.St.Peek(loc(e, l.eKeys))
				c.Ob(p.St.Peek(loc(e, l.eWin)).Op == "nil" || p.St.F.Entails(tb.Le(tb.Len(p.St.Peek(loc(e, l.eWin))), tb.Int(0))), "new", r.name, p.Pos, "a new encoder's window is not empty")
				c.Ob(keys.Op == "alloc" && p.St.MapContent(keys).Op == "mempty", "new", r.name, p.Pos, "a new encoder's set of salted hashes is not a fresh empty one")
				size := p.St.Peek(loc(e, l.eWS))
				isP := false
				for i, prm := range fn.Params {
					if isBasic(types.Int)(prm.Type()) && size == r.args[i] {
						isP = true
					}
				}
				c.Ob(isP, "new", r.name, p.Pos, "a new encoder's window size is %s, not the one given", size)
			}
			continue
		}
		rc := fn.Signature.Recv()
		if rc == nil || !isNamed("Encoder")(rc.Type()) {
			continue
		}
		r := l.runFn(fn, nil)
		e := r.args[0]
		for _, p := range r.ps {
			if p.Kind != "return" {
				continue
			}
			same := true
			for _, i := range []int{l.eWin, l.eKeys, l.eWS} {
				same = same && p.St.Peek(loc(e, i)) == r.st0.Peek(loc(e, i))
			}
			ref := r.st0.Peek(loc(e, l.eKeys))
			same = same && p.St.MapContent(ref) == r.st0.MapContent(ref)
			c.Ob(same, "frame", r.name, p.Pos, "%s changes the window, its size or the set of salted hashes", r.name)
		}
	}
	// producing codewords leaves the window alone
	prod := ruleC11
	if l.rel == "ldpc" {
		prod = ruleC19
	}
	c.borrow(func() { prod(l) }, "window-kept", "revert")
}

// writesElem: the piece (or a loop in it) stores into an element of the list.
func (l *ltp) writesElem(p *Path, list *Term, elem types.Type) bool {
	found := false
	for _, sg := range l.c.Segs([]*Path{p}) {
		for _, e := range evs(sg.P, "store", "") {
			a := e.Args[0]
			for a.Op == "faddr" {
				a = a.Args[0]
			}
			if a.Op == "iaddr" && a.Args[0] == list {
				found = true
			}
		}
	}
	return found
}
