package rules

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C40", Pkgs: []string{"node"}, MinObl: 12, Run: ruleC40,
		What: "on every path that makes a peer's encoder or decoder or sends a peer to the controller: the encoder's key is what filling a whole key-sized array with random bytes left there and what one error-free Write to the connection carried; the decoder's key is what one error-free complete read (io.ReadFull, or io.ReadAtLeast of the whole) from the connection left in a whole key-sized array; both come before any other use of the connection, and the connection has one gob stream each way afterwards"})
}

// reaches: the functions of the package that lead to a call accepted by is, by
// calls, go statements, defers and the closures they make.
func (c *C) reaches(rel string, is func(*ssa.CallCommon) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for _, f := range c.P.Funcs(rel) {
			if out[f] {
				continue
			}
			hit := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						hit = hit || is(ci.Common())
						if g := ci.Common().StaticCallee(); g != nil {
							hit = hit || out[g]
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						hit = hit || out[mc.Fn.(*ssa.Function)]
					}
				}
			}
			if hit {
				out[f] = true
				again = true
			}
		}
	}
	return out
}

func callsFn(cc *ssa.CallCommon, name string) bool {
	f := cc.StaticCallee()
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Name()+"."+f.Name() == name
}

func takesConn(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isConn(p.Type()) {
			return true
		}
	}
	return false
}

func ruleC40(c *C) {
	s := c.sim("node")
	tb := s.x.TB
	makes := c.reaches("node", func(cc *ssa.CallCommon) bool {
		return callsFn(cc, "ldpc.NewEncoder") || callsFn(cc, "ldpc.NewDecoder")
	})
	connPar := takesConn
	called := map[*ssa.Function]bool{}
	for f := range makes {
		if !connPar(f) {
			continue
		}
		for _, ci := range calls(f) {
			if g := ci.Common().StaticCallee(); g != nil {
				called[g] = true
			}
		}
	}
	// every making function is reached through a function that is given the connection
	n, nPeers := 0, 0
	for _, f := range c.P.Funcs("node") {
		if !makes[f] || !connPar(f) || called[f] {
			continue
		}
		n++
		rt := s.runFn(f, nil)
		nPeers += s.keys(rt)
	}
	c.Ob(n > 0, "instances", "connections", token.NoPos, "no function of the node sets up a connection it is given")
	c.Ob(nPeers > 0, "instances", "peers", token.NoPos, "no path of the node makes a peer's encoder and decoder and hands the peer on")
	for _, f := range c.P.Funcs("node") {
		if !makes[f] || connPar(f) || f.Parent() != nil {
			continue
		}
		direct := false
		for _, ci := range calls(f) {
			cc := ci.Common()
			direct = direct || callsFn(cc, "ldpc.NewEncoder") || callsFn(cc, "ldpc.NewDecoder")
		}
		inl := false
		for g := range makes {
			for _, ci := range calls(g) {
				inl = inl || ci.Common().StaticCallee() == f && connPar(g)
			}
		}
		c.Ob(!direct || inl, "setup", shortFn(f), f.Pos(), "%s makes an encoder or a decoder away from the connection whose keys it should use", shortFn(f))
	}
	_ = tb
}

// keys checks the paths of one function that sets up a connection.
func (s *simp) keys(rt *ltRoot) int {
	c, tb := s.c, s.x.TB
	name := rt.name
	conn := rt.par(isConn)
	if !c.Ob(conn != nil, "anchor", name, rt.fn.Pos(), "the connection of %s cannot be told", name) {
		return 0
	}
	isC := func(t *Term) bool {
		for t.Op == "iface" || t.Op == "changeiface" {
			t = t.Args[0]
		}
		return t == conn
	}
	peers := 0
	for _, p := range rt.ps {
		okErr := func(e *Event) bool {
			r := e.Res
			if r == nil {
				return false
			}
			if tt, ok := r.Typ.(*types.Tuple); ok {
				for i := 0; i < tt.Len(); i++ {
					if isErr(tt.At(i).Type()) {
						return p.St.F.ProveEq(tb.MkT(tt.At(i).Type(), "extract", strconv.Itoa(i), r), tb.Nil())
					}
				}
			}
			return r.Typ != nil && isErr(r.Typ) && p.St.F.ProveEq(r, tb.Nil())
		}
		whole := func(t *Term) bool {
			if t.Op != "slicearr" || t.Args[1] != tb.Int(0) {
				return false
			}
			pt, ok := t.Args[0].Typ.Underlying().(*types.Pointer)
			if !ok {
				return false
			}
			a, ok := pt.Elem().Underlying().(*types.Array)
			return ok && t.Args[2] == tb.Int(a.Len())
		}
		encs, decs, joins := -1, -1, -1
		var uses []int
		ws, rs, gs := -1, -1, map[*Term]int{}
		bad := ""
		badPos := p.Pos
		setBad := func(e *Event, m string) {
			if bad == "" {
				bad, badPos = m, e.Pos
			}
		}
		enc, dec := 0, 0
		for i, e := range p.Events {
			switch {
			case e.Kind == "call" && e.Callee == "ldpc.NewEncoder":
				encs = i
			case e.Kind == "call" && e.Callee == "ldpc.NewDecoder":
				decs = i
			case e.Kind == "send" || e.Kind == "select" && e.Callee == "send":
				if len(e.Args) > 1 && isNamed("peer")(deref(e.Args[1].Typ)) {
					joins = i
				}
			}
			if e.Kind != "call" && e.Kind != "go" && e.Kind != "defer" {
				continue
			}
			if e.Kind == "call" && strings.HasSuffix(e.Callee, "rand.Read") && len(e.Args) == 1 {
				if whole(e.Args[0]) {
					gs[e.Post[0]] = i
				}
				continue
			}
			has := false
			for _, a := range e.Args {
				has = has || isC(a)
			}
			if !has || e.Kind != "call" {
				continue
			}
			uses = append(uses, i)
			switch {
			case strings.HasSuffix(e.Callee, ".Write") && len(e.Args) == 2 && isC(e.Args[0]):
				if ws >= 0 {
					setBad(e, "more than its key is written to the connection while it is set up")
				}
				ws = i
			case e.Callee == "io.ReadFull" || e.Callee == "io.ReadAtLeast":
				if rs >= 0 {
					setBad(e, "more than the peer's key is read from the connection while it is set up")
				}
				rs = i
			case e.Callee == "gob.NewEncoder" || e.Callee == "gob.NewDecoder":
				if e.Callee == "gob.NewEncoder" {
					enc++
				} else {
					dec++
				}
				if enc > 1 || dec > 1 {
					setBad(e, "the connection is given two streams in one direction")
				}
				if ws < 0 || rs < 0 {
					setBad(e, "data streams are opened before both keys are exchanged")
				}
			case strings.HasPrefix(e.Callee, "log.") || strings.HasPrefix(e.Callee, "fmt.") || strings.HasSuffix(e.Callee, ".Close") || strings.HasSuffix(e.Callee, "Addr") || strings.Contains(e.Callee, ").Set"):
			default:
				setBad(e, "the connection is used by "+e.Callee+" while it is set up")
			}
		}
		if encs < 0 && decs < 0 && joins < 0 {
			c.Ob(true, "no peer", name, p.Pos, "")
			continue
		}
		if encs >= 0 && decs >= 0 && joins >= 0 {
			peers++
		}
		c.Ob(bad == "", "stream", name, badPos, "%s", bad)
		if joins >= 0 {
			c.Ob(encs >= 0 && decs >= 0, "joins", name, p.Events[joins].Pos, "a peer joins without an encoder and a decoder of its own")
		}
		// our key: made, sent completely, and used to encode
		okW := ws >= 0 && okErr(p.Events[ws])
		c.Ob(okW, "sent", name, p.Pos, "a peer is made although the own key was not sent to it without an error")
		okR := rs >= 0 && okErr(p.Events[rs])
		c.Ob(okR, "received", name, p.Pos, "a peer is made although its key was not received completely and without an error")
		if okW {
			e := p.Events[ws]
			g, fresh := gs[e.Pre[1]]
			c.Ob(whole(e.Args[1]) && fresh && g < ws, "own key", name, e.Pos, "what is sent to the peer is not one complete fresh random key")
			if encs >= 0 {
				k := p.Events[encs].Args[0]
				c.Ob(ws < encs && k == e.Pre[1], "encode key", name, p.Events[encs].Pos, "the encoder to the peer does not use the key that was sent to it")
			}
		}
		if okR {
			e := p.Events[rs]
			c.Ob(ws >= 0 && ws < rs, "order", name, e.Pos, "the peer's key is waited for before the own key is sent, so two nodes wait for each other")
			okF := whole(e.Args[1]) && (e.Callee == "io.ReadFull" || len(e.Args) == 3 && p.St.F.Entails(tb.Le(tb.Len(e.Args[1]), e.Args[2])))
			c.Ob(okF, "peer key", name, e.Pos, "the peer's key is not read completely")
			if decs >= 0 {
				k := p.Events[decs].Args[0]
				c.Ob(rs < decs && k == e.Post[1], "decode key", name, p.Events[decs].Pos, "the decoder for the peer does not use the key that was received from it")
			}
		}
	}
	return peers
}
