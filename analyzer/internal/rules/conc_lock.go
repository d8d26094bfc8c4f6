package rules

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// locks tracks which locks are held where.
type locks struct {
	g     *conc
	sum   map[*ssa.Function]*lockSum
	entry map[*ssa.Function]map[string]bool // held at every call
	may   map[ssa.Instruction]map[string]bool
	must  map[ssa.Instruction]map[string]bool
	made  map[string]ssa.Value
	ops   int
}

type lockSum struct {
	mayGen, mustGen, kill map[string]bool
}

type lockState struct {
	held   map[string]bool
	defers map[string]bool
}

func newLocks(g *conc) *locks {
	l := &locks{g: g, made: map[string]ssa.Value{}, sum: map[*ssa.Function]*lockSum{}, entry: map[*ssa.Function]map[string]bool{}, may: map[ssa.Instruction]map[string]bool{}, must: map[ssa.Instruction]map[string]bool{}}
	for _, f := range g.fns {
		l.sum[f] = &lockSum{map[string]bool{}, map[string]bool{}, map[string]bool{}}
	}
	for i := 0; i < 20; i++ {
		for _, f := range g.fns {
			l.flow(f, nil, true)
			l.flow(f, nil, false)
		}
	}
	// locks held by every caller
	for _, f := range g.fns {
		l.entry[f] = nil // unknown yet
	}
	for i := 0; i < 20; i++ {
		for _, f := range g.fns {
			root := len(g.sites[f]) == 0 && !l.calledBack(f)
			for _, r := range g.roots {
				root = root || r.fn == f
			}
			var e map[string]bool
			if root {
				e = map[string]bool{}
			} else {
				for _, s := range l.callers(f) {
					h := l.must[s]
					if l.entry[s.Parent()] == nil {
						continue // not known yet
					}
					h = union(h, l.entry[s.Parent()])
					if _, ok := s.(*ssa.Go); ok {
						h = map[string]bool{}
					}
					if e == nil {
						e = union(h, nil)
					} else {
						for k := range e {
							if !h[k] {
								delete(e, k)
							}
						}
					}
				}
			}
			if e != nil {
				l.entry[f] = e
			}
		}
	}
	return l
}

func (l *locks) callers(f *ssa.Function) []ssa.CallInstruction {
	out := append([]ssa.CallInstruction{}, l.g.sites[f]...)
	for ci, fs := range l.g.back {
		for _, t := range fs {
			if t == f {
				out = append(out, ci)
			}
		}
	}
	return out
}

func (l *locks) calledBack(f *ssa.Function) bool {
	for _, h := range l.g.fns {
		for _, ci := range calls(h) {
			for _, t := range l.g.callbacks(ci) {
				if t == f {
					return true
				}
			}
		}
	}
	return false
}

func union(a, b map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k := range a {
		r[k] = true
	}
	for k := range b {
		r[k] = true
	}
	return r
}

// lockOp recognises an operation on a lock: the locks it may act on.
func (l *locks) lockOp(cc *ssa.CallCommon) (ids []string, op string) {
	if cc.IsInvoke() {
		if (cc.Method.Name() == "Lock" || cc.Method.Name() == "Unlock") && cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == "sync" {
			return l.ids(cc.Value), cc.Method.Name()
		}
		return nil, ""
	}
	switch n := calleeName(cc); n {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock":
		return l.ids(cc.Args[0]), n[strings.LastIndex(n, ".")+1:]
	case "(*sync.RWMutex).RLock":
		return suffix(l.ids(cc.Args[0])), "Lock"
	case "(*sync.RWMutex).RUnlock":
		return suffix(l.ids(cc.Args[0])), "Unlock"
	}
	return nil, ""
}

func suffix(s []string) []string {
	var r []string
	for _, x := range s {
		r = append(r, x+" (shared)")
	}
	return r
}

func (l *locks) ids(v ssa.Value) []string {
	var out []string
	for _, o := range l.g.origins(v) {
		out = append(out, l.id(o))
	}
	return out
}

func (l *locks) id(o ssa.Value) string {
	switch x := o.(type) {
	case *ssa.FieldAddr:
		return "field " + fieldKey(x.X.Type(), x.Field)
	case *ssa.Global:
		return "variable " + x.Name()
	case *ssa.FreeVar, *ssa.Alloc:
		cs := l.g.cells(x)
		if len(cs) > 0 {
			id := "variable " + shortFn(cs[0].Parent()) + ":" + cs[0].Name()
			l.made[id] = cs[0]
			return id
		}
	}
	if f := o.Parent(); f != nil {
		id := "value " + shortFn(f) + ":" + o.Name()
		l.made[id] = o
		return id
	}
	return "value " + o.Name()
}

// flow runs the held-locks analysis over f. may: union at joins.
func (l *locks) flow(f *ssa.Function, _ any, may bool) {
	in := map[*ssa.BasicBlock]*lockState{}
	in[f.Blocks[0]] = &lockState{map[string]bool{}, map[string]bool{}}
	sum := l.sum[f]
	join := func(b *ssa.BasicBlock, s *lockState) bool {
		o := in[b]
		if o == nil {
			in[b] = &lockState{union(s.held, nil), union(s.defers, nil)}
			return true
		}
		ch := false
		if may {
			for k := range s.held {
				if !o.held[k] {
					o.held[k] = true
					ch = true
				}
			}
			for k := range o.defers {
				if !s.defers[k] {
					delete(o.defers, k)
					ch = true
				}
			}
		} else {
			for k := range o.held {
				if !s.held[k] {
					delete(o.held, k)
					ch = true
				}
			}
			for k := range s.defers {
				if !o.defers[k] {
					o.defers[k] = true
					ch = true
				}
			}
		}
		return ch
	}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	exit := map[string]bool{}
	first := true
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		s := &lockState{union(in[b].held, nil), union(in[b].defers, nil)}
		for _, ins := range b.Instrs {
			if may {
				l.may[ins] = union(s.held, nil)
			} else {
				l.must[ins] = union(s.held, nil)
			}
			switch x := ins.(type) {
			case *ssa.Defer:
				if ids, op := l.lockOp(&x.Call); op == "Unlock" {
					for _, id := range ids {
						s.defers[id] = true
					}
				}
				for _, t := range l.g.direct(x) {
					for k := range l.sum[t].kill {
						s.defers[k] = true
					}
				}
			case *ssa.RunDefers:
				for k := range s.defers {
					delete(s.held, k)
				}
			case *ssa.Call:
				ids, op := l.lockOp(&x.Call)
				switch op {
				case "Lock":
					for _, id := range ids {
						if may || len(ids) == 1 {
							s.held[id] = true
						}
					}
				case "Unlock":
					for _, id := range ids {
						if !s.held[id] {
							sum.kill[id] = true
						}
						if len(ids) == 1 || !may {
							delete(s.held, id)
						}
					}
				default:
					for _, t := range append(l.g.direct(x), l.g.callbacks(x)...) {
						for k := range l.sum[t].kill {
							if !s.held[k] {
								sum.kill[k] = true
							}
							delete(s.held, k)
						}
						gen := l.sum[t].mustGen
						if may {
							gen = l.sum[t].mayGen
						}
						for k := range gen {
							s.held[k] = true
						}
					}
				}
				if quits(&x.Call) {
					goto next
				}
			case *ssa.Return:
				if may {
					for k := range s.held {
						exit[k] = true
					}
				} else if first {
					exit = union(s.held, nil)
				} else {
					for k := range exit {
						if !s.held[k] {
							delete(exit, k)
						}
					}
				}
				first = false
			}
		}
		for _, t := range b.Succs {
			if join(t, s) {
				work = append(work, t)
			}
		}
	next:
	}
	if !may {
		// the accumulated intersection above depends on the visiting order only
		// in what it keeps; recompute from the final states
		exit, first = map[string]bool{}, true
		for _, r := range returns(f) {
			h, ok := l.must[r]
			if !ok || in[r.Block()] == nil {
				continue
			}
			if first {
				exit = union(h, nil)
			} else {
				for k := range exit {
					if !h[k] {
						delete(exit, k)
					}
				}
			}
			first = false
		}
		sum.mustGen = exit
	} else {
		sum.mayGen = exit
	}
}

// at lists the locks that may be held at an instruction, those of the callers included.
func (l *locks) at(in ssa.Instruction) map[string]bool {
	return union(l.may[in], l.entry[in.Parent()])
}

// sure lists the locks that are held at an instruction.
func (l *locks) sure(in ssa.Instruction) map[string]bool {
	return union(l.must[in], l.entry[in.Parent()])
}

// released checks that no lock is kept, taken twice or given back untaken.
func (l *locks) released(c *C) {
	for _, f := range l.g.fns {
		takes := false
		for _, ci := range calls(f) {
			ids, op := l.lockOp(ci.Common())
			if op == "" {
				continue
			}
			l.ops++
			takes = true
			if _, ok := ci.(*ssa.Call); !ok {
				continue
			}
			for _, id := range ids {
				if op == "Lock" {
					c.Ob(!l.may[ci][id] && !l.entry[f][id] || strings.HasPrefix(id, "field "), "taken twice", shortFn(f)+":"+lockName(id), ci.Pos(), "%s takes the lock %s that may already be taken here", shortFn(f), lockName(id))
				}
			}
		}
		s := l.sum[f]
		for k := range s.mayGen {
			takes = true
			if s.mustGen[k] && l.inner(f) {
				continue // the callers release it
			}
			pos := f.Pos()
			for _, r := range returns(f) {
				if l.may[r][k] {
					pos = r.Pos()
				}
			}
			c.Ob(false, "release", shortFn(f), pos, "%s can return here with the lock %s still taken", shortFn(f), lockName(k))
		}
		if takes && len(s.mayGen) == 0 {
			c.Ob(true, "release", shortFn(f), f.Pos(), "")
		}
	}
}

// inner: every run of f was called by the program's own functions.
func (l *locks) inner(f *ssa.Function) bool {
	n := 0
	for _, s := range l.g.sites[f] {
		if _, ok := s.(*ssa.Go); ok {
			return false
		}
		n++
	}
	return n > 0
}

func lockName(id string) string {
	if i := strings.LastIndex(id, "/"); i >= 0 {
		return id[i+1:]
	}
	return id
}

var _ = token.NoPos
