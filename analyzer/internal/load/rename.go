package load

import (
	_ "embed"
	"encoding/json"
	"go/ast"
	"go/types"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The rules name functions, types and fields of the analysed code. names.json
// lists the names the code had when the rules were written, so that a name
// that was merely changed since is recognised: what is missing in a scope is
// paired with what is new in it and has the same type, and the sources are
// read with the old names put back (in memory only).

//go:embed names.json
var namesJSON []byte

type member struct {
	Name string `json:"n"`
	Sig  string `json:"s"`
}

// scope lists the members of "package kind" or "package type kind" in order.
type scopes map[string][]member

func modulePkgs(pkgs []*packages.Package) []*packages.Package {
	var out []*packages.Package
	packages.Visit(pkgs, nil, func(pp *packages.Package) {
		if pp.Types != nil && pp.Module != nil && pp.Module.Main && len(pp.Errors) == 0 {
			out = append(out, pp)
		}
	})
	sort.Slice(out, func(i, j int) bool { return out[i].PkgPath < out[j].PkgPath })
	return out
}

func collect(pkgs []*packages.Package) (scopes, map[string]types.Object) {
	sc, objs := scopes{}, map[string]types.Object{}
	for _, pp := range modulePkgs(pkgs) {
		rel := strings.TrimPrefix(strings.TrimPrefix(pp.PkgPath, Module), "/")
		q := func(p *types.Package) string {
			if p == pp.Types {
				return ""
			}
			return p.Name()
		}
		put := func(key string, o types.Object, sig string) {
			sc[key] = append(sc[key], member{o.Name(), sig})
			objs[key+" "+o.Name()] = o
		}
		sig := func(t types.Type) string {
			if s, ok := t.(*types.Signature); ok {
				// names of parameters do not matter
				strip := func(tp *types.Tuple) *types.Tuple {
					var vs []*types.Var
					for i := 0; i < tp.Len(); i++ {
						vs = append(vs, types.NewVar(0, nil, "", tp.At(i).Type()))
					}
					return types.NewTuple(vs...)
				}
				t = types.NewSignatureType(nil, nil, nil, strip(s.Params()), strip(s.Results()), s.Variadic())
			}
			return types.TypeString(t, q)
		}
		var os []types.Object
		for _, n := range pp.Types.Scope().Names() {
			os = append(os, pp.Types.Scope().Lookup(n))
		}
		sort.Slice(os, func(i, j int) bool { return os[i].Pos() < os[j].Pos() })
		for _, o := range os {
			switch o := o.(type) {
			case *types.Func:
				put(rel+" func", o, sig(o.Type()))
			case *types.Var:
				put(rel+" var", o, sig(o.Type()))
			case *types.TypeName:
				if o.IsAlias() {
					continue
				}
				n, ok := o.Type().(*types.Named)
				if !ok {
					continue
				}
				u := n.Underlying()
				shape := sig(u)
				if st, ok := u.(*types.Struct); ok {
					shape = "struct{"
					for i := 0; i < st.NumFields(); i++ {
						shape += sig(st.Field(i).Type()) + ";"
					}
					shape += "}"
				}
				if it, ok := u.(*types.Interface); ok {
					var ms []string
					for i := 0; i < it.NumExplicitMethods(); i++ {
						ms = append(ms, sig(it.ExplicitMethod(i).Type()))
					}
					sort.Strings(ms)
					shape = "interface{" + strings.Join(ms, ";") + "}"
				}
				put(rel+" type", o, shape)
				key := rel + " " + o.Name()
				if st, ok := u.(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if !st.Field(i).Embedded() {
							put(key+" field", st.Field(i), sig(st.Field(i).Type()))
						}
					}
				}
				if it, ok := u.(*types.Interface); ok {
					for i := 0; i < it.NumExplicitMethods(); i++ {
						put(key+" imethod", it.ExplicitMethod(i), sig(it.ExplicitMethod(i).Type()))
					}
				}
				var ms []*types.Func
				for i := 0; i < n.NumMethods(); i++ {
					ms = append(ms, n.Method(i))
				}
				sort.Slice(ms, func(i, j int) bool { return ms[i].Pos() < ms[j].Pos() })
				for _, m := range ms {
					put(key+" method", m, sig(m.Type()))
				}
			}
		}
	}
	return sc, objs
}

// Names writes the table of names.
func Names(dir string, rel ...string) ([]byte, error) {
	cfg := config(dir)
	pkgs, err := packages.Load(cfg, patterns(rel)...)
	if err != nil {
		return nil, err
	}
	sc, _ := collect(pkgs)
	return json.MarshalIndent(sc, "", " ")
}

var word = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`)

// pairs matches the members of a scope that are missing with those that are new.
func pairs(base, now []member, mask func(string) string) map[string]string {
	in := func(ms []member) map[string]bool {
		r := map[string]bool{}
		for _, m := range ms {
			r[m.Name] = true
		}
		return r
	}
	ib, in2 := in(base), in(now)
	gone, fresh := map[string][]string{}, map[string][]string{}
	for _, m := range base {
		if !in2[m.Name] {
			gone[mask(m.Sig)] = append(gone[mask(m.Sig)], m.Name)
		}
	}
	for _, m := range now {
		if !ib[m.Name] {
			fresh[mask(m.Sig)] = append(fresh[mask(m.Sig)], m.Name)
		}
	}
	out := map[string]string{}
	for s, g := range gone {
		if f := fresh[s]; len(f) == len(g) {
			for i := range g {
				out[f[i]] = g[i]
			}
		}
	}
	return out
}

// renames finds the objects to be given their old names.
func renames(pkgs []*packages.Package) map[types.Object]string {
	base := scopes{}
	if json.Unmarshal(namesJSON, &base) != nil {
		return nil
	}
	now, objs := collect(pkgs)
	out := map[types.Object]string{}
	tmap := map[string]map[string]string{} // package: new type name -> old
	odd := map[string]bool{}               // type names that are not in both
	for key, ms := range now {
		if !strings.HasSuffix(key, " type") || base[key] == nil {
			continue
		}
		o := map[string]bool{}
		for _, m := range ms {
			o[m.Name] = true
		}
		for _, m := range base[key] {
			if o[m.Name] {
				delete(o, m.Name)
			} else {
				o[m.Name] = true
			}
		}
		for n := range o {
			odd[n] = true
		}
	}
	mask := func(s string) string {
		return word.ReplaceAllStringFunc(s, func(w string) string {
			if odd[w] {
				return "?"
			}
			return w
		})
	}
	// members of a type that two tables have in common, and all of the first's
	common := func(a, b scopes, ka, kb string) (both, all int) {
		for _, k := range []string{" field", " method", " imethod"} {
			in := map[string]bool{}
			for _, m := range b[kb+k] {
				in[m.Name] = true
			}
			for _, m := range a[ka+k] {
				all++
				if in[m.Name] {
					both++
				}
			}
		}
		return
	}
	for key, ms := range now {
		if strings.HasSuffix(key, " type") && base[key] != nil {
			rel := strings.TrimSuffix(key, " type")
			full := func(sc scopes, ms []member) []member {
				var out []member
				for _, m := range ms {
					var l []string
					for _, x := range sc[rel+" "+m.Name+" method"] {
						l = append(l, x.Sig)
					}
					sort.Strings(l)
					out = append(out, member{m.Name, m.Sig + strings.Join(l, ";")})
				}
				return out
			}
			tmap[rel] = pairs(full(base, base[key]), full(now, ms), mask)
			rest := func(ms []member, done func(string) bool) (out []member) {
				for _, m := range ms {
					if !done(m.Name) {
						out = append(out, m)
					}
				}
				return
			}
			given := map[string]bool{}
			for _, g := range tmap[rel] {
				given[g] = true
			}
			for f, g := range pairs(rest(base[key], func(n string) bool { return given[n] }), rest(ms, func(n string) bool { return tmap[rel][n] != "" }), mask) {
				tmap[rel][f] = g
			}
			// types whose makeup changed too, by what their members are called
			old, used := map[string]bool{}, map[string]bool{}
			for _, m := range ms {
				old[m.Name] = true
			}
			for _, g := range tmap[rel] {
				used[g] = true
			}
			for _, g := range base[key] {
				if old[g.Name] || used[g.Name] {
					continue
				}
				best, top, tie := "", 0, false
				for _, f := range ms {
					if !odd[f.Name] || tmap[rel][f.Name] != "" {
						continue
					}
					n, all := common(base, now, rel+" "+g.Name, rel+" "+f.Name)
					if 2*n < all || n == 0 {
						continue
					}
					if n == top {
						tie = true
					}
					if n > top {
						best, top, tie = f.Name, n, false
					}
				}
				if best != "" && !tie {
					tmap[rel][best] = g.Name
				}
			}
			for f, g := range tmap[rel] {
				out[objs[key+" "+f]] = g
			}
		}
	}
	for key, ms := range now {
		fs := strings.Split(key, " ")
		bkey := key
		if len(fs) == 3 {
			if o := tmap[fs[0]][fs[1]]; o != "" {
				bkey = fs[0] + " " + o + " " + fs[2]
			}
		}
		if fs[len(fs)-1] == "type" || base[bkey] == nil {
			continue
		}
		for f, g := range pairs(base[bkey], ms, mask) {
			out[objs[key+" "+f]] = g
		}
	}
	return out
}

func originOf(o types.Object) types.Object {
	switch x := o.(type) {
	case *types.Var:
		return x.Origin()
	case *types.Func:
		return x.Origin()
	}
	return o
}

// rewritten gives the sources with the old names put back.
func rewritten(pkgs []*packages.Package, ren map[types.Object]string) map[string][]byte {
	name := func(o types.Object) string {
		if o == nil {
			return ""
		}
		o = originOf(o)
		if n := ren[o]; n != "" {
			return n
		}
		if v, ok := o.(*types.Var); ok && v.Embedded() {
			t := v.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				return ren[n.Obj()]
			}
		}
		return ""
	}
	type edit struct {
		off, end int
		text     string
	}
	out, taken := map[string][]byte{}, false
	for _, pp := range modulePkgs(pkgs) {
		for _, f := range pp.Syntax {
			var es []edit
			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				s := name(pp.TypesInfo.Uses[id])
				if o := pp.TypesInfo.Uses[id]; s != "" && o.Pkg() == pp.Types && o.Parent() == o.Pkg().Scope() {
					// the old name must not mean something else here
					if in := pp.Types.Scope().Innermost(id.Pos()); in != nil {
						if _, x := in.LookupParent(s, id.Pos()); x != nil {
							taken = true
						}
					}
				}
				if s == "" {
					s = name(pp.TypesInfo.Defs[id])
				}
				if s != "" && s != id.Name {
					p := pp.Fset.Position(id.Pos())
					es = append(es, edit{p.Offset, p.Offset + len(id.Name), s})
				}
				return true
			})
			if len(es) == 0 {
				continue
			}
			fn := pp.Fset.Position(f.Pos()).Filename
			src, err := os.ReadFile(fn)
			if err != nil {
				return nil
			}
			sort.Slice(es, func(i, j int) bool { return es[i].off > es[j].off })
			for i, e := range es {
				if i > 0 && e.off == es[i-1].off {
					continue
				}
				src = append(src[:e.off:e.off], append([]byte(e.text), src[e.end:]...)...)
			}
			out[fn] = src
		}
	}
	if taken {
		return nil
	}
	return out
}

// Shuffled gives the sources with some names changed to others, for testing
// that the rules do not depend on them.
func Shuffled(dir string, seed int64, share int, rel ...string) (map[string][]byte, []string, error) {
	pkgs, err := packages.Load(config(dir), patterns(rel)...)
	if err != nil {
		return nil, nil, err
	}
	_, objs := collect(pkgs)
	var keys []string
	for k := range objs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	rnd := rand.New(rand.NewSource(seed))
	fixed := map[string]bool{"main": true, "init": true, "Len": true, "Less": true, "Swap": true, "Push": true, "Pop": true,
		"Error": true, "String": true, "Write": true, "Read": true, "Reset": true, "Sum64": true, "Sum": true, "Size": true, "BlockSize": true,
		"Uint64": true, "Int63": true, "Seed": true, "GobEncode": true, "GobDecode": true, "Close": true}
	pick := map[string]bool{}
	ren := map[types.Object]string{}
	var list []string
	for _, k := range keys {
		fs := strings.Split(k, " ")
		n := fs[len(fs)-1]
		if fixed[n] || n == "_" {
			continue
		}
		if strings.HasSuffix(fs[len(fs)-2], "method") {
			if _, ok := pick[n]; !ok {
				pick[n] = rnd.Intn(100) < share
			}
			if !pick[n] {
				continue
			}
		} else if rnd.Intn(100) >= share {
			continue
		}
		ren[objs[k]] = n + "Alt"
		list = append(list, k)
	}
	return rewritten(pkgs, ren), list, nil
}
