package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C41", Pkgs: []string{"node"}, MinObl: 4, Run: ruleC41,
		What: "goroutines are told apart by where they start and how often, memory by where it is made (variables, fields, objects of the libraries), and every access by more than one of them must be ordered by the start of a goroutine, by waiting for its end, by a lock held at both, or be before the memory is given away; connections, channels and the safe library types apart. Transactions and codewords are changed only while they are made, nothing is filled again after it was sent, and the library's package variables are not written"})
	register(&Rule{ID: "C51", Pkgs: []string{"testbed"}, MinObl: 4, Run: ruleC51,
		What: "every lock is released on all ways out of the function that takes it, panics and early returns included, and is never taken again while held; every access to memory that more than one goroutine of the tool reaches (told apart by where it is made, map and slice elements included, distinct elements excepted) is ordered by starting or waiting for goroutines or made under a common lock; every worker of a group that is waited for reports its end on all ways out, and exactly as many are added as are started"})
}

func ruleC41(c *C) {
	g := newConc(c, "node")
	if !g.program("node") {
		return
	}
	r := newRaces(g)
	r.pointees = true
	r.immut = func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && n.Obj().Pkg() != nil && c.rel(n.Obj().Pkg()) == "ldpc" && (n.Obj().Name() == "Transaction" || n.Obj().Name() == "Codeword")
	}
	r.shared = isConn
	r.collect()
	r.check("shared")
	r.reused()
	// what the goroutines share by pointer is never changed
	g2 := newConc(c, "node", "ldpc")
	if !g2.program("node") {
		return
	}
	r2 := newRaces(g2)
	r2.pointees = true
	r2.shared = isConn
	r2.collect()
	r2.constants(c, "Transaction", "Codeword")
	r2.variables(c)
}

// reused: what is sent to another goroutine is not filled again afterwards.
func (r *races) reused() {
	c := r.g.c
	for _, s := range r.g.sends {
		if !s.send || !pointerIn(s.val.Type(), 0) {
			continue
		}
		ld, ok := s.val.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			continue
		}
		for _, a := range r.g.cells(ld.X) {
			var fills, fresh []ssa.Instruction
			fresh = append(fresh, a)
			var visit func(v ssa.Value)
			visit = func(v ssa.Value) {
				for _, u := range *v.Referrers() {
					switch x := u.(type) {
					case *ssa.Store:
						if x.Addr == ssa.Value(a) {
							fresh = append(fresh, x)
						}
					case *ssa.FieldAddr:
						visit(x)
					case *ssa.MakeInterface:
						visit(x)
					case ssa.CallInstruction:
						fills = append(fills, x)
					}
				}
			}
			visit(a)
			bad := token.NoPos
			for _, f := range fills {
				if reachableAvoiding(s.in, f, fresh) {
					bad = f.Pos()
				}
			}
			c.Ob(bad == token.NoPos, "reused", shortFn(s.fn)+":"+varName(a), bad, "the variable %s is filled again although what it pointed to has been sent to another goroutine", varName(a))
		}
	}
}

// pointerIn: values of the type point to memory.
func pointerIn(t types.Type, depth int) bool {
	if depth > 5 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerIn(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return pointerIn(u.Elem(), depth+1)
	}
	return false
}

// constants: values of these types only change while they are made.
func (r *races) constants(c *C, names ...string) {
	for _, nm := range names {
		t := c.Type("ldpc", nm)
		if t == nil {
			c.Fail("anchor", nm, token.NoPos, "type %s of package ldpc cannot be resolved", nm)
			continue
		}
		s, ok := structOf(t)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			cl := "field " + fieldKey(types.NewPointer(t), i)
			bad := token.NoPos
			why := ""
			for _, a := range r.acc {
				if !a.write || a.class != cl && a.class != cl+" content" || r.construction(a) {
					continue
				}
				bad, why = a.in.Pos(), shortFn(a.fn)
			}
			c.Ob(why == "", "constant", nm+"."+s.Field(i).Name(), bad, "%s changes a %s that other goroutines may hold", why, nm)
		}
	}
}

// variables: the package variables of the library are not written by its users.
func (r *races) variables(c *C) {
	n := 0
	for _, a := range r.acc {
		if !a.write {
			continue
		}
		glob := strings.HasPrefix(a.class, "global ")
		for _, o := range a.objs {
			f := o.Parent()
			if f != nil && f.Name() == "init" && f.Synthetic != "" {
				glob = true
			}
		}
		if !glob || a.fn.Pkg == nil || c.rel(a.fn.Pkg.Pkg) != "ldpc" {
			continue
		}
		n++
		c.Ob(false, "variable", shortFn(a.fn)+":"+a.class, a.in.Pos(), "%s changes %s, which all goroutines share", shortFn(a.fn), a.what)
	}
	c.Ob(n == 0, "variable", "ldpc", token.NoPos, "package variables of the library are changed")
}

// isConn: a connection, which one goroutine may read while another writes.
func isConn(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	rd, wr := false, false
	for k := 0; k < i.NumMethods(); k++ {
		rd = rd || i.Method(k).Name() == "Read"
		wr = wr || i.Method(k).Name() == "Write"
	}
	return rd && wr
}

func ruleC51(c *C) {
	g := newConc(c, "testbed")
	if !g.program("testbed") {
		return
	}
	r := newRaces(g)
	r.collect()
	r.l.released(c)
	r.check("shared")
	r.slots(c)
	c.Ob(r.groups(c) > 0, "instances", "groups", token.NoPos, "no worker group that is waited for was found in the tool")
}
