package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

func init() {
	register(&Rule{ID: "C52", Pkgs: []string{"testbed"}, MinObl: 30, Run: runC52,
		What: "symbolic paths of every function, closures included: each call that may fail is asked for its error before anything it delivered is used, and on the paths where it failed nothing it delivered is used and the failure is told"})
}

// errResult: the index of the error among the results of a call, -1 for none.
func errResult(ci ssa.CallInstruction) (idx, n int) {
	res := ci.Common().Signature().Results()
	for i := 0; i < res.Len(); i++ {
		if isErr(res.At(i).Type()) {
			return i, res.Len()
		}
	}
	return -1, res.Len()
}

// carefree: calls whose error says nothing about their result, or cannot occur.
func (k *errs) carefree(ci ssa.CallInstruction) bool {
	cc := ci.Common()
	name := calleeName(cc)
	if cc.IsInvoke() {
		name = cc.Method.Name()
	}
	short := name[strings.LastIndex(name, ".")+1:]
	switch {
	case short == "Close":
		return true
	case strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Fprint"), strings.HasPrefix(name, "fmt.Scan"):
		return true // the answer to a question is C50's
	case strings.HasPrefix(name, "(*strings.Builder)."), strings.HasPrefix(name, "(*bytes.Buffer).Write"):
		return true
	case name == "(*flag.FlagSet).Parse":
		return k.exits(cc.Args[0])
	}
	// asking for processes to be ended fails if there are none
	if short == "Run" && len(cc.Args) > 0 {
		if s, ok := cc.Args[len(cc.Args)-1].(*ssa.Const); ok && s.Value != nil && strings.HasPrefix(strings.Trim(s.Value.ExactString(), "\""), "killall ") {
			return true
		}
	}
	// functions that never fail
	fs := k.g.direct(ci)
	for _, f := range fs {
		for _, r := range returns(f) {
			for _, v := range r.Results {
				if c, ok := v.(*ssa.Const); isErr(v.Type()) && !(ok && c.Value == nil) {
					return false
				}
			}
		}
	}
	return len(fs) > 0
}

// exits: the flag set ends the program itself when the command line is wrong.
func (k *errs) exits(set ssa.Value) bool {
	for _, o := range k.g.origins(set) {
		ci, ok := o.(*ssa.Call)
		if !ok || calleeName(&ci.Call) != "flag.NewFlagSet" {
			return false
		}
		c, ok := ci.Call.Args[1].(*ssa.Const)
		if !ok || c.Int64() != 1 {
			return false
		}
	}
	return true
}

type errs struct {
	*simp
	g *conc
}

// attempt is one call that may fail, on one path.
type attempt struct {
	ev   *Event
	e    *Term   // its error
	give []*Term // what else it delivers
}

func runC52(c *C) {
	k := &errs{simp: c.sim("testbed"), g: newConc(c, "testbed")}
	x := k.x
	x.TraceLoads = true
	helper := map[*ssa.Function]bool{}
	for _, f := range k.g.fns {
		for _, p := range f.Params {
			t := p.Type()
			if s, ok := t.Underlying().(*types.Slice); ok {
				t = s.Elem()
			}
			if i, ok := t.Underlying().(*types.Interface); ok && (isErr(t) || i.Empty()) {
				helper[f] = true
			}
		}
	}
	x.Inline = func(f *ssa.Function) bool { return helper[origin(f)] }
	n := 0
	for _, f := range k.g.fns {
		if f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		any := false
		for _, ci := range calls(f) {
			if i, _ := errResult(ci); i >= 0 && !k.carefree(ci) {
				any = true
				n++
				if _, ok := ci.(*ssa.Call); !ok {
					c.Ob(false, "told", shortFn(f)+" "+calleeName(ci.Common()), ci.Pos(), "nobody learns whether %s fails", calleeName(ci.Common()))
				}
			}
		}
		if any || helper[f] {
			k.fn(f)
		}
	}
	c.Ob(n > 0, "instances", "testbed", 0, "no call that may fail is found")
}

func (k *errs) fn(f *ssa.Function) {
	c, tb := k.c, k.x.TB
	ps := c.Run(k.x, f, nil, nil)
	type verdict struct {
		used, told string
	}
	got := map[ssa.Instruction]*verdict{}
	for _, s := range c.Segs(ps) {
		p := s.P
		h := p.History()
		own := map[*Event]bool{}
		for _, e := range p.Events {
			own[e] = true
		}
		for i, ev := range h {
			if ev.Kind != "call" || ev.Instr == nil || ev.Res == nil {
				continue
			}
			ci, ok := ev.Instr.(*ssa.Call)
			if !ok {
				continue
			}
			idx, cnt := errResult(ci)
			if idx < 0 || k.carefree(ci) {
				continue
			}
			v := got[ci]
			if v == nil {
				v = &verdict{}
				got[ci] = v
			}
			fl := &attempt{ev: ev, e: ev.Res}
			if cnt > 1 {
				fl.e = extractOf(tb, ev.Res, idx, ci)
				fl.give = append(fl.give, ev.Res)
			}
			for j := range ev.Post {
				if ev.Post[j] != nil && ev.Post[j] != ev.Pre[j] {
					fl.give = append(fl.give, ev.Post[j])
				}
			}
			k.follow(fl, p, h[i+1:], own, func(w string) {
				if v.used == "" {
					v.used = w
				}
			}, func(w string) {
				if v.told == "" && own[ev] {
					v.told = w
				}
			})
		}
	}
	k.scans(f, ps)
	for _, ci := range calls(f) {
		v := got[ci]
		if v == nil {
			continue
		}
		name := calleeName(ci.Common())
		c.Ob(v.used == "", "used", shortFn(f)+" "+name, ci.Pos(), "what %s delivers is used %s", name, v.used)
		c.Ob(v.told == "", "told", shortFn(f)+" "+name, ci.Pos(), "%s", strings.ReplaceAll(v.told, "%", name))
	}
}

// scans: what a scanner found is only used once it is known that the scanner
// did not stop because of a failure.
func (k *errs) scans(f *ssa.Function, ps []*Path) {
	bad := map[ssa.Instruction]bool{}
	for _, p := range ps {
		if p.Kind != "return" {
			continue
		}
		for i, ev := range p.Events {
			if ev.Kind != "call" || ev.Callee != "(*bufio.Scanner).Scan" || len(ev.Args) == 0 {
				continue
			}
			if v, known := p.St.F.Value(ev.Res); !known || v {
				continue
			}
			asked := false
			for _, u := range p.Events[i+1:] {
				asked = asked || u.Kind == "call" && u.Callee == "(*bufio.Scanner).Err" && u.Args[0] == ev.Args[0]
			}
			if !asked {
				bad[ev.Instr] = true
			}
		}
	}
	for _, ci := range calls(f) {
		if calleeName(ci.Common()) == "(*bufio.Scanner).Scan" {
			k.c.Ob(!bad[ci], "told", shortFn(f)+" scan", ci.Pos(), "the text is scanned to its end without asking whether reading it failed")
		}
	}
}

func extractOf(tb *absint.Table, res *Term, idx int, ci *ssa.Call) *Term {
	for _, r := range *ci.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == idx {
			return tb.MkT(x.Type(), "extract", fmt.Sprint(idx), res)
		}
	}
	return nil
}

func has(t, x *Term) bool { return t != nil && x != nil && absint.Contains(t, x) }

// follow looks at what happens after a call that may fail.
func (k *errs) follow(fl *attempt, p *Path, rest []*Event, own map[*Event]bool, used, told func(string)) {
	tb := k.x.TB
	F := k.x.NewState().F
	isNil := tb.Bool(false)
	if fl.e != nil {
		isNil = tb.Eq(fl.e, tb.Nil(), false)
	}
	gives := func(t *Term) bool {
		if t == nil || t == fl.e {
			return false
		}
		for _, g := range fl.give {
			if k.mentions(t, g, fl.e) {
				return true
			}
		}
		return false
	}
	state := func() string {
		if fl.e == nil {
			return "and its error is ignored"
		}
		v, known := F.Value(isNil)
		switch {
		case !known && (F.ProveNe(fl.e, tb.Nil())):
			return "although it failed"
		case !known:
			return "before its error is looked at"
		case !v:
			return "although it failed"
		}
		return ""
	}
	passed, exited := false, false
	none := k.none(fl.ev.CallFn, 0)
	for _, u := range rest {
		if u.Kind == "branch" {
			if s := state(); s != "" && own[u] && gives(u.Cond) && !has(u.Cond, fl.e) {
				used(s)
			}
			F.Assume(u.Cond)
			continue
		}
		withErr := false
		for _, a := range u.Args {
			withErr = withErr || has(a, fl.e)
		}
		if withErr && u.Kind != "load" {
			passed = passed || u.Kind != "store" || u.Args[0].Op != "alloc"
		}
		if u.Kind == "call" && (u.Callee == "os.Exit" || strings.HasPrefix(u.Callee, "log.Fatal")) {
			exited = exited || u.Callee != "os.Exit" || u.Args[0] != tb.Int(0)
		}
		if !own[u] || withErr || u.Kind == "store" || u.Kind == "enter" || u.Kind == "leave" || u.Kind == "loop" {
			continue
		}
		if s := state(); s != "" {
			for _, a := range u.Args {
				if gives(a) && !(none && u.Kind == "send") {
					used(s)
				}
			}
		}
	}
	returned := false
	for _, v := range p.Vals {
		if has(v, fl.e) {
			returned = true
		}
		if v.Typ != nil && isErr(v.Typ) && F.ProveNe(v, tb.Nil()) || v.Op == "iface" {
			returned = true
		}
	}
	if p.Kind == "return" && !returned {
		if s := state(); s != "" {
			for _, v := range p.Vals {
				if gives(v) {
					used(s)
				}
			}
		}
	}
	for _, v := range p.PhiVals {
		passed = passed || has(v, fl.e)
	}
	if p.Kind == "exit" && len(p.Events) > 0 && p.Events[len(p.Events)-1].Kind == "loop" {
		return
	}
	switch state() {
	case "":
	case "and its error is ignored":
		told("the error of % is ignored")
	case "although it failed":
		if !passed && !returned && !exited && p.Kind != "panic" {
			told("when % fails this is neither reported nor returned, and the program goes on")
		}
	default:
		if !passed && !returned && !exited && p.Kind != "panic" {
			told("the error of % is not looked at")
		}
	}
}

// none: the function delivers an empty list whenever it fails.
func (k *errs) none(f *ssa.Function, depth int) bool {
	if f == nil || len(f.Blocks) == 0 || depth > 3 || f.Signature.Results().Len() != 2 || !isSliceT(f.Signature.Results().At(0).Type()) {
		return false
	}
	for _, r := range returns(f) {
		v, e := r.Results[0], r.Results[1]
		if c, ok := v.(*ssa.Const); ok && c.Value == nil {
			continue
		}
		if c, ok := e.(*ssa.Const); ok && c.Value == nil {
			continue
		}
		x, ok1 := v.(*ssa.Extract)
		y, ok2 := e.(*ssa.Extract)
		if ok1 && ok2 && x.Tuple == y.Tuple && x.Index == 0 && y.Index == 1 {
			if ci, ok := x.Tuple.(*ssa.Call); ok && k.none(ci.Call.StaticCallee(), depth+1) {
				continue
			}
		}
		return false
	}
	return true
}

// mentions: t is made from g, other than through e.
func (k *errs) mentions(t, g, e *Term) bool {
	if t == e {
		return false
	}
	if t == g {
		return true
	}
	for _, a := range t.Args {
		if k.mentions(a, g, e) {
			return true
		}
	}
	if o, ok := t.Obj.(*Term); ok && t.Op == "lv" {
		_ = o
	}
	return false
}
