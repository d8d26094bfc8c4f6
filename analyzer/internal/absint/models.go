package absint

import (
	"go/types"
	"strings"
)

// pureFns are library functions whose result depends only on their arguments.
var pureFns = map[string]bool{
	"math.Sqrt": true, "math.Ceil": true, "math.Floor": true, "math.Log": true, "math.Exp": true, "math.Pow": true,
	"math.Min": true, "math.Max": true, "math.Abs": true, "math.Log2": true, "math.Log1p": true, "math.Expm1": true, "math.IsInf": true, "math.IsNaN": true,
	"math.Trunc": true, "math.Round": true, "math.Float64bits": true, "math.Float64frombits": true,
	"(time.Duration).Seconds": true, "(time.Duration).Milliseconds": true, "(time.Time).Sub": true, "(time.Time).UnixMicro": true,
	"(time.Time).Add": true, "(time.Time).After": true, "(time.Time).Before": true,
	"bytes.Equal": true, "bytes.Compare": true, "strings.Split": true, "strings.Contains": true, "strings.HasPrefix": true,
	"strings.HasSuffix": true, "strings.EqualFold": true, "strings.ToLower": true, "strings.ToUpper": true, "strings.TrimSpace": true,
	"strings.Trim": true, "strings.TrimLeft": true, "strings.TrimRight": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true,
	"strings.Index": true, "strings.Count": true, "strings.Compare": true, "strings.ReplaceAll": true, "strings.Repeat": true,
	"bits.Mul64": true, "bits.Add64": true,
}

// printFns only read what they are given.
var printFns = map[string]bool{
	"fmt.Println": true, "fmt.Printf": true, "fmt.Print": true, "fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"log.Println": true, "log.Printf": true, "log.Print": true, "(*log.Logger).Println": true, "(*log.Logger).Printf": true, "(*log.Logger).Print": true,
}

func exit(st *State, c *CallInfo) []CallResult {
	st.emit(&Event{Kind: "call", Pos: c.Pos, Fn: c.In, Callee: c.Key, CallFn: c.Fn, Args: c.Args, Instr: c.Instr})
	return []CallResult{{St: st, Kind: "exit"}}
}

func (st *State) hloc(h *Term) *Term { return st.ex.TB.Mk("hst", "", h) }

func hReset(st *State, c *CallInfo) []CallResult {
	st.poke(st.hloc(c.Args[0]), st.ex.TB.Mk("hempty", ""))
	st.emit(&Event{Kind: "call", Pos: c.Pos, Fn: c.In, Callee: c.Key, Args: c.Args, Instr: c.Instr})
	return one1(st, st.ex.TB.Nil())
}
func hWrite(st *State, c *CallInfo) []CallResult {
	l := st.hloc(c.Args[0])
	st.poke(l, st.ex.TB.Mk("hwrite", "", st.Peek(l), st.Content(c.Args[1])))
	st.emit(&Event{Kind: "call", Pos: c.Pos, Fn: c.In, Callee: c.Key, Args: c.Args, Instr: c.Instr})
	return one1(st, st.fresh("sym", "hwrite@"+st.ex.posKey(c), c.Typ))
}
func hSum64(st *State, c *CallInfo) []CallResult {
	t := st.ex.TB.MkT(types.Typ[types.Uint64], "hsum", "", c.Args[0], st.Peek(st.hloc(c.Args[0])))
	st.emit(&Event{Kind: "call", Pos: c.Pos, Fn: c.In, Callee: c.Key, Args: c.Args, Res: t, Instr: c.Instr})
	return one1(st, t)
}
func hSum(st *State, c *CallInfo) []CallResult {
	tb := st.ex.TB
	d := c.Args[1]
	sum := tb.MkT(nil, "digest", "", c.Args[0], st.Peek(st.hloc(c.Args[0])))
	st.emit(&Event{Kind: "call", Pos: c.Pos, Fn: c.In, Callee: c.Key, Args: c.Args, Res: sum, Instr: c.Instr})
	if d.Op == "slicearr" && st.F.Entails(tb.Eq(tb.Len(d), tb.Int(0), true)) && d.Args[1] == tb.Int(0) {
		// Sum appends in place when the capacity suffices: the array then holds the digest
		st.poke(d.Args[0], sum)
		return one1(st, sum)
	}
	return one1(st, retype(tb.AppendSl(d, sum), c.Typ))
}

// sumOf: a digest of a byte string in one go.
func sumOf(st *State, c *CallInfo) []CallResult {
	t := st.ex.TB.MkT(c.Typ, "sum", c.Key, st.Content(c.Args[0]))
	st.emit(&Event{Kind: "call", Pos: c.Pos, Fn: c.In, Callee: c.Key, Args: c.Args, Res: t, Instr: c.Instr})
	return one1(st, t)
}

var stdModels = map[string]Model{
	"os.Exit": exit, "log.Fatal": exit, "log.Fatalln": exit, "log.Fatalf": exit, "log.Panic": exit, "log.Panicln": exit, "log.Panicf": exit,
	"(*log.Logger).Fatal": exit, "(*log.Logger).Fatalln": exit, "(*log.Logger).Fatalf": exit, "runtime.Goexit": exit,
	"(hash.Hash64).Reset": hReset, "(hash.Hash64).Write": hWrite, "(hash.Hash64).Sum64": hSum64,
	"(hash.Hash).Reset": hReset, "(hash.Hash).Write": hWrite, "(hash.Hash).Sum": hSum,
	"(*sync.Pool).Get": func(st *State, c *CallInfo) []CallResult {
		o := st.fresh("poolget", "pool@"+st.ex.posKey(c), c.Typ)
		st.emit(&Event{Kind: "call", Pos: c.Pos, Fn: c.In, Callee: c.Key, Args: c.Args, Res: o, Instr: c.Instr})
		return one1(st, o)
	},
	"(*sync.Pool).Put": func(st *State, c *CallInfo) []CallResult {
		st.emit(&Event{Kind: "call", Pos: c.Pos, Fn: c.In, Callee: c.Key, Args: c.Args, Instr: c.Instr})
		return one1(st, st.ex.TB.Nil())
	},
	"blake2b.Sum512": sumOf, "blake2b.Sum256": sumOf, "sha256.Sum256": sumOf, "sha512.Sum512": sumOf, "sha3.Sum512": sumOf,
	"(T).XOR": func(st *State, c *CallInfo) []CallResult {
		tb := st.ex.TB
		r := tb.XorT(c.Args[0], c.Args[1])
		if r.Typ == nil {
			r.Typ = c.Typ
		}
		st.emit(&Event{Kind: "xor", Pos: c.Pos, Fn: c.In, Callee: c.Key, Args: c.Args, Res: r, Instr: c.Instr})
		return one1(st, r)
	},
	"(T).Hash": func(st *State, c *CallInfo) []CallResult {
		tb := st.ex.TB
		r := tb.Hash(c.Args[0])
		st.emit(&Event{Kind: "call", Pos: c.Pos, Fn: c.In, Callee: c.Key, Args: c.Args, Res: r, Instr: c.Instr})
		return one1(st, r)
	},
}

// IsShort trims instantiation details of callee keys for messages.
func IsShort(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// Opaque exposes the default treatment of calls for models.
func (x *Exec) Opaque(st *State, ci *CallInfo) []CallResult { return x.opaque(st, ci) }

// Fresh creates a named unknown.
func (st *State) Fresh(name string, typ types.Type) *Term { return st.fresh("sym", name, typ) }

// Poke writes a leaf location.
func (st *State) Poke(a, v *Term) { st.poke(a, v) }

// Havoc forgets a location pattern.
func (st *State) Havoc(a *Term) { st.havoc(a, nil) }

// Emit appends an event.
func (st *State) Emit(e *Event) { st.emit(e) }

// TB returns the term table.
func (st *State) TB() *Table { return st.ex.TB }

// Ex returns the interpreter.
func (st *State) Ex() *Exec { return st.ex }

// Clone copies the state.
func (st *State) Clone() *State { return st.clone() }

// Ret wraps a single model result.
func Ret(st *State, v *Term) []CallResult { return one1(st, v) }

// Hash is the digest a symbol reports of itself; copies have equal digests.
func (tb *Table) Hash(s *Term) *Term {
	return tb.MkT(types.Typ[types.Uint64], "hash", "", Undup(s))
}

// Pure reports whether a library function's result depends only on its arguments.
func Pure(key string) bool { return pureFns[key] }
