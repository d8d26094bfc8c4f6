package rules

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// slotOp is one send on or receive from a channel.
type slotOp struct {
	in   ssa.Instruction
	recv bool
}

// slots checks channels that are used as counting locks, and those by which
// workers report their end: a worker gives its slot back, and sends what is
// waited for, on all its ways out.
func (r *races) slots(c *C) int {
	g := r.g
	ops := map[ssa.Value][]slotOp{}
	skip := map[ssa.Value]bool{} // used in ways that tell more than the number of operations
	for _, f := range g.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					for _, o := range g.channels(x.Chan) {
						ops[o] = append(ops[o], slotOp{in, false})
					}
				case *ssa.UnOp:
					if x.Op != token.ARROW {
						continue
					}
					for _, o := range g.channels(x.X) {
						ops[o] = append(ops[o], slotOp{in, true})
						skip[o] = skip[o] || x.CommaOk
					}
				case *ssa.Select:
					for _, s := range x.States {
						for _, o := range g.channels(s.Chan) {
							skip[o] = true
						}
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && len(x.Common().Args) == 1 && isChan(x.Common().Args[0].Type()) && bi.Name() != "cap" {
						for _, o := range g.channels(x.Common().Args[0]) {
							skip[o] = true
						}
					}
				}
			}
		}
	}
	n := 0
	for _, root := range g.roots {
		if len(root.goes) == 0 {
			continue
		}
		for _, f := range g.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					mk, ok := in.(*ssa.MakeChan)
					if !ok || skip[mk] || len(ops[mk]) == 0 {
						continue
					}
					s := &slot{r: r, ops: ops[mk]}
					var send, recv, other []slotOp
					for _, o := range ops[mk] {
						switch {
						case !root.reach[o.in.Parent()]:
							other = append(other, o)
						case o.recv:
							recv = append(recv, o)
						default:
							send = append(send, o)
						}
					}
					name := chanName(mk)
					switch {
					case len(send) > 0 && len(recv) > 0:
						// taken and given back by the worker itself
						if k, ok := mk.Size.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
							continue
						}
						s.back = true
						take := send
						for _, o := range other {
							if !o.recv {
								// filled beforehand: a slot is taken by receiving
								s.back, take = false, recv
							}
						}
						for _, o := range take {
							n++
							s.taken(c, root, o.in, name, 0)
						}
					case len(recv) > 0:
						// taken by who starts the worker, given back by the worker
						s.back = true
						if k, ok := mk.Size.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 || loops(recv) {
							continue
						}
						for _, gi := range root.goes {
							for _, o := range other {
								if o.recv || o.in.Parent() != gi.Parent() || !reachable(o.in, gi, nil) || !reachable(gi, o.in, nil) {
									continue
								}
								n++
								c.Ob(s.all(root.fn, 0), "slot", root.name, root.fn.Pos(), "%s may end without giving back its place in %s, and those waiting for one wait for ever", root.name, name)
								var stop []ssa.Instruction
								stop = append(stop, gi)
								for _, p := range s.ops {
									if p.recv {
										stop = append(stop, p.in)
									}
								}
								c.Ob(!reachableAvoiding(o.in, o.in, stop), "slot", shortFn(gi.Parent()), o.in.Pos(), "a place in %s is taken here for which no worker may be started, so nobody gives it back", name)
							}
						}
					case len(send) > 0:
						// reported by the worker, waited for by who starts it
						if loops(send) {
							continue
						}
						for _, gi := range root.goes {
							for _, o := range other {
								if !o.recv || o.in.Parent() != gi.Parent() {
									continue
								}
								n++
								s.back = false
								c.Ob(s.all(root.fn, 0), "reports", root.name, root.fn.Pos(), "%s may end without sending to %s, which %s waits for", root.name, name, shortFn(gi.Parent()))
								break
							}
						}
					}
				}
			}
		}
	}
	return n
}

func loops(os []slotOp) bool {
	for _, o := range os {
		if reachable(o.in, o.in, nil) {
			return true
		}
	}
	return false
}

type slot struct {
	r    *races
	ops  []slotOp
	back bool // given back by receiving
}

// gives lists the instructions of f after which the slot is given back.
func (s *slot) gives(f *ssa.Function, depth int) []ssa.Instruction {
	var out []ssa.Instruction
	for _, o := range s.ops {
		if o.recv == s.back && o.in.Parent() == f {
			out = append(out, o.in)
		}
	}
	if depth > 5 {
		return out
	}
	for _, ci := range calls(f) {
		if _, ok := ci.(*ssa.Go); ok {
			continue
		}
		fs := s.r.g.direct(ci)
		if len(fs) == 0 {
			fs = s.r.g.callbacks(ci)
		}
		ok := len(fs) > 0
		for _, t := range fs {
			ok = ok && s.all(t, depth+1)
		}
		if ok {
			out = append(out, ci)
		}
	}
	return out
}

func quitting(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	for _, ci := range calls(f) {
		if quits(ci.Common()) {
			out = append(out, ci)
		}
	}
	return out
}

// all: f gives the slot back on all its ways out.
func (s *slot) all(f *ssa.Function, depth int) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	gives := s.gives(f, depth)
	if len(gives) == 0 {
		return false
	}
	stop := append(gives, quitting(f)...)
	first := f.Blocks[0].Instrs[0]
	for _, x := range stop {
		if x == first {
			return true
		}
	}
	for _, ret := range returns(f) {
		if ssa.Instruction(ret) == first || reachableAvoiding(first, ret, stop) {
			return false
		}
	}
	return true
}

// taken: the slot taken at an instruction is given back on all ways from there.
func (s *slot) taken(c *C, root *groot, in ssa.Instruction, name string, depth int) {
	f := in.Parent()
	gives := s.gives(f, 0)
	if len(gives) == 0 && f != root.fn && depth < 5 {
		// taken for the caller
		for _, ci := range s.r.g.sites[f] {
			if _, ok := ci.(*ssa.Go); !ok && root.reach[ci.Parent()] {
				s.taken(c, root, ci, name, depth+1)
			}
		}
		return
	}
	stop := append(gives, quitting(f)...)
	ok := true
	for _, ret := range returns(f) {
		if !reachableAvoiding(in, ret, stop) {
			continue
		}
		deferred := false
		for _, x := range gives {
			if _, d := x.(*ssa.Defer); d && (x.Block() == in.Block() && earlier(x, in) || x.Block() != in.Block() && x.Block().Dominates(in.Block())) {
				deferred = true
			}
		}
		ok = ok && deferred
	}
	c.Ob(ok, "slot", shortFn(f), in.Pos(), "%s can return with the place it took in %s not given back, and those waiting for one wait for ever", shortFn(f), name)
}

func earlier(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}
