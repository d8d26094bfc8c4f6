package rules

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"rsrcheck/internal/absint"
)

func init() {
	register(&Rule{ID: "C53", Pkgs: []string{"testbed"}, MinObl: 20, Run: ruleC53,
		What: "the experiment command is executed abstractly, every goroutine from the state it is started in; the text of each remote and local command is put together from its formats, joined lists and concatenations, and each variable part is traced to the server, the pair of the topology or the flag it is due from"})
}

// expt is the experiment command of the testbed.
type expt struct {
	*simp
	rt      *ltRoot
	ps      []*Path // of the command and of all goroutines
	idx     map[*Term][]lvRec
	flags   map[string]*Term
	servers *Term // the list of servers
	clients *Term // the connections to them
	segs    []Seg
	all     map[*Path][]*Event
	node    string // the program that is run
	log     string // the file it writes to
	found   map[string]map[*Loop]bool
}

// part is a piece of a text: constant, a joined list, or a value.
type part struct {
	lit  string
	list *Term // joined with sep
	sep  string
	v    *Term
	verb string
}

func ruleC53(c *C) {
	w := &expt{simp: c.sim("testbed"), flags: map[string]*Term{}, all: map[*Path][]*Event{}, found: map[string]map[*Loop]bool{}}
	w.x.Spawn = true
	w.rt = w.run("", "dispatchBwTest", nil)
	if w.rt == nil {
		return
	}
	c.Ob(len(w.x.Problems) == 0, "analysed", "command", w.rt.fn.Pos(), "the experiment command cannot be followed: %v", w.x.Problems)
	// only goroutines of the final look at each loop
	w.ps = append(w.ps, w.rt.ps...)
	have := map[*Event]bool{}
	took := map[*Path]bool{}
	for more := true; more; {
		more = false
		for _, sg := range c.Segs(w.ps) {
			for _, e := range evs(sg.P, "go", "") {
				have[e] = true
			}
		}
		for _, p := range w.x.Spawned {
			if have[p.Go] && !took[p] {
				took[p] = true
				w.ps = append(w.ps, p)
				more = true
			}
		}
	}
	w.idx = c.lvIndex(w.ps)
	w.segs = c.Segs(w.ps)
	for _, p := range w.ps {
		for _, e := range w.events(p) {
			if e.Kind != "call" || !strings.HasPrefix(e.Callee, "(*flag.FlagSet).") && !strings.HasPrefix(e.Callee, "flag.") || e.Res == nil && len(e.Args) < 3 {
				continue
			}
			if len(e.Args) > 2 && e.Args[1].Op == "str" && e.Args[2].Op == "str" {
				if strings.HasSuffix(e.Callee, "Var") {
					continue
				}
				w.flags[e.Args[1].Aux] = p.St.Peek(e.Res)
			} else if len(e.Args) > 3 && e.Args[2].Op == "str" {
				w.flags[e.Args[2].Aux] = p.St.Peek(e.Args[1])
			}
		}
	}
	for _, f := range []string{"l", "install", "run", "dl", "ping"} {
		if !c.Ob(w.flags[f] != nil, "instances", "flag "+f, w.rt.fn.Pos(), "there is no flag -%s", f) {
			return
		}
	}
	w.connected()
	if w.clients == nil {
		return
	}
	for _, kind := range []string{"run", "ping", "dl", "install"} {
		w.action(kind)
	}
	w.acts()
}

func (w *expt) events(p *Path) []*Event {
	if l, ok := w.all[p]; ok {
		return l
	}
	l := p.History()
	w.all[p] = l
	return l
}

func (w *expt) result(p *Path, t *Term) *Event {
	for _, e := range w.events(p) {
		if e.Kind == "call" && e.Res == t {
			return e
		}
	}
	return nil
}

// text takes a string apart.
func (w *expt) text(p *Path, t *Term) []part {
	t = bare(t)
	switch {
	case t.Op == "str":
		return []part{{lit: t.Aux}}
	case t.Op == "concat":
		return append(w.text(p, t.Args[0]), w.text(p, t.Args[1])...)
	case t.Op == "conv" && len(t.Args) == 1 && t.Typ != nil && isString(t.Typ) && t.Args[0].Typ != nil && isString(t.Args[0].Typ):
		return w.text(p, t.Args[0])
	case t.Op == "call" && strings.HasPrefix(t.Aux, "strconv.") && len(t.Args) > 0:
		return []part{{v: t.Args[0], verb: "d"}}
	}
	e := w.result(p, t)
	if e == nil {
		return []part{{v: t}}
	}
	switch e.Callee {
	case "strconv.Itoa", "strconv.FormatInt":
		return []part{{v: bare(e.Args[0]), verb: "d"}}
	case "strings.Join":
		if e.Args[1].Op == "str" {
			if xs, ok := listed(e.Args[0]); ok {
				var out []part
				for i, x := range xs {
					if i > 0 {
						out = append(out, part{lit: e.Args[1].Aux})
					}
					out = append(out, w.text(p, x)...)
				}
				return out
			}
			return []part{{list: e.Args[0], sep: e.Args[1].Aux}}
		}
	case "fmt.Sprintf":
		if e.Args[0].Op != "str" {
			break
		}
		xs, ok := listed(e.Args[1])
		if !ok {
			break
		}
		return w.format(p, e.Args[0].Aux, xs)
	}
	return []part{{v: t}}
}

// listed gives the elements of a list that is spelled out.
func listed(t *Term) ([]*Term, bool) {
	var out []*Term
	for t.Op == "append" {
		out = append(append([]*Term{}, t.Args[1:]...), out...)
		t = t.Args[0]
	}
	return out, t.Op == "nil"
}

func (w *expt) format(p *Path, f string, xs []*Term) (out []part) {
	k := 0
	lit := ""
	flush := func() {
		if lit != "" {
			out = append(out, part{lit: lit})
			lit = ""
		}
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789.+-# ", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		if f[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		flush()
		if k < len(xs) {
			x := bareIface(xs[k])
			plain := j == i+1 && (f[j] == 's' || f[j] == 'v')
			if plain && x.Typ != nil && isString(x.Typ) || plain && x.Op == "str" {
				out = append(out, w.text(p, x)...)
			} else {
				out = append(out, part{v: x, verb: f[i+1 : j+1]})
			}
		}
		k++
		i = j
	}
	flush()
	return
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// fieldOf: t is the named field of element i of a list.
func fieldOf(t *Term) (name string, list, i *Term) {
	t = bare(t)
	if t.Op != "load" || t.Args[0].Op != "faddr" {
		return "", nil, nil
	}
	v, ok := t.Args[0].Obj.(*types.Var)
	if !ok {
		return "", nil, nil
	}
	a := t.Args[0].Args[0]
	if a.Op != "iaddr" {
		return "", nil, nil
	}
	return v.Name(), a.Args[0], a.Args[1]
}

// isField: t is the named field of element i of the list.
func (w *expt) isField(p *Path, t, list, i *Term, name string) bool {
	n, l, j := fieldOf(t)
	return n == name && l == list && (j == i || p.St.F.ProveEq(j, i))
}

// sources are the flags that t was read by means of.
func (w *expt) sources(p *Path, t *Term) map[string]bool {
	out := map[string]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	var evl = w.events(p)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for n, f := range w.flags {
			if f == t {
				out[n] = true
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
		for _, e := range evl {
			if e.Kind != "call" && e.Kind != "store" {
				continue
			}
			if strings.HasPrefix(e.Callee, "(*flag.") || strings.HasPrefix(e.Callee, "flag.") {
				continue
			}
			hit := e.Res == t
			if t.Op == "alloc" && e.Kind == "call" {
				for _, a := range e.Args {
					hit = hit || a != nil && bareIface(a) == t
				}
			}
			if e.Kind == "store" {
				hit = absint.Contains(e.Args[0], t) && t.Op == "alloc"
			}
			if hit {
				for _, a := range e.Args {
					visit(a)
				}
			}
		}
	}
	visit(t)
	return out
}

// connected: connection i is the one to server i.
func (w *expt) connected() {
	c, tb := w.c, w.x.TB
	n := 0
	for _, p := range w.ps {
		if p.Go == nil {
			continue
		}
		for _, e := range evs(p, "call", "ssh.Dial") {
			res := tb.Mk("extract", "0", e.Res)
			// where it is kept
			var at *Term
			k := 0
			for _, s := range evs(p, "store", "") {
				if s.Args[0].Op == "iaddr" && (s.Args[1] == res || s.Args[1].Op == "extract" && s.Args[1].Args[0] == e.Res) {
					at = s.Args[0]
					k++
				}
			}
			if p.Kind == "exit" || p.Kind == "panic" {
				continue
			}
			if v, known := p.St.F.Value(tb.Eq(tb.Mk("extract", "1", e.Res), tb.Nil(), false)); known && !v {
				continue
			}
			n++
			if !c.Ob(k == 1, "connection", "kept", e.Pos, "a connection that is made is kept in %d places", k) {
				continue
			}
			list, i := at.Args[0], at.Args[1]
			tx := w.text(p, e.Args[1])
			ok := len(tx) == 3 && tx[0].v != nil && tx[1].lit == ":" && tx[2].v != nil
			var srv *Term
			if ok {
				var nm string
				var j *Term
				nm, srv, j = fieldOf(tx[0].v)
				ok = nm == "PublicIP" && (j == i || p.St.F.ProveEq(i, j)) && w.isField(p, tx[2].v, srv, i, "Port")
			}
			if !c.Ob(ok, "connection", "address", e.Pos, "connection %s is made to %s, not to the address and port of that server", i, show(tx)) {
				continue
			}
			w.servers, w.clients = srv, list
			// as the server's user, with its key
			user, key := false, false
			for _, s := range w.events(p) {
				if s.Kind == "store" && s.Args[0].Op == "faddr" {
					if v, ok := s.Args[0].Obj.(*types.Var); ok && v.Name() == "User" {
						user = user || w.isField(p, s.Args[1], srv, i, "User")
					}
				}
				if s.Kind == "call" && (s.Callee == "ioutil.ReadFile" || s.Callee == "os.ReadFile" || s.Callee == "os.Open") && len(s.Args) > 0 {
					key = key || w.isField(p, s.Args[0], srv, i, "KeyPath")
				}
			}
			c.Ob(user, "connection", "user", e.Pos, "a server is not connected to as its user")
			c.Ob(key, "connection", "key", e.Pos, "a server is not connected to with its key")
			src := w.sources(p, srv)
			c.Ob(src["l"] && len(src) == 1, "connection", "servers", e.Pos, "the servers do not come from the file given by -l (%v)", src)
			// every one of them
			c.Ob(w.each(p, i) != nil, "connection", "all", e.Pos, "not every server is connected to, once")
		}
	}
	c.Ob(n > 0, "instances", "connections", w.rt.fn.Pos(), "no server is ever connected to")
}

// each: the goroutine of p is started once for each index of the servers, i
// being its own.
func (w *expt) each(p *Path, i *Term) *Loop {
	c, tb := w.c, w.x.TB
	var res *Loop
	for _, sg := range w.segs {
		if sg.Loop == nil || res != nil {
			continue
		}
		mine := false
		for _, e := range sg.P.Events {
			mine = mine || e == p.Go
		}
		if !mine {
			continue
		}
		L := sg.Loop
		for _, n := range []*Term{tb.Len(w.servers), tb.Len(w.clients)} {
			ids, ok := w.counter(L, c.Exits(w.rt.ps, L), n)
			if !ok {
				continue
			}
			for _, j := range ids {
				if j == i || p.St.F.ProveEq(i, j) {
					res = L
				}
			}
		}
		for _, b := range L.Backs {
			k := 0
			for _, e := range evs(b, "go", "") {
				if e.Callee == p.Go.Callee && e.Pos == p.Go.Pos {
					k++
				}
			}
			if k != 1 {
				return nil
			}
		}
	}
	return res
}

// act is one command given in a goroutine.
type act struct {
	p    *Path
	e    *Event
	kind string
	cl   *Term // connection
	text []part
}

func show(ps []part) string {
	s := ""
	for _, p := range ps {
		switch {
		case p.list != nil:
			s += fmt.Sprintf("⟨%s joined⟩", p.list)
		case p.v != nil:
			s += fmt.Sprintf("⟨%s⟩", p.v)
		default:
			s += p.lit
		}
	}
	return strconv.Quote(s)
}

// flat writes a text with a mark for each variable part.
func flat(ps []part) string {
	s := ""
	for k, p := range ps {
		if p.list == nil && p.v == nil {
			s += p.lit
		} else {
			s += fmt.Sprintf("\x01%d\x02", k)
		}
	}
	return s
}

// only gives the one variable part a word consists of.
func only(ps []part, word string) *part {
	if !strings.HasPrefix(word, "\x01") || !strings.HasSuffix(word, "\x02") || strings.Count(word, "\x01") != 1 {
		return nil
	}
	k, err := strconv.Atoi(word[1 : len(word)-1])
	if err != nil {
		return nil
	}
	return &ps[k]
}

// given lists the commands given on p: those on a session, and those run here.
func (w *expt) given(p *Path, from int) (out []act) {
	tb := w.x.TB
	for _, e := range p.Events[from:] {
		if e.Kind != "call" {
			continue
		}
		a := act{p: p, e: e}
		switch {
		case e.Callee == "(*ssh.Session).Run" || e.Callee == "(*ssh.Session).Start" || e.Callee == "(*ssh.Session).Output" || e.Callee == "(*ssh.Session).CombinedOutput":
			for _, n := range w.events(p) {
				if n.Kind == "call" && n.Callee == "(*ssh.Client).NewSession" && (e.Args[0] == tb.Mk("extract", "0", n.Res) || e.Args[0].Op == "extract" && e.Args[0].Args[0] == n.Res) {
					a.cl = n.Args[0]
				}
			}
			a.text = w.text(p, e.Args[1])
			s := flat(a.text)
			switch {
			case strings.Contains(s, "killall") || strings.Contains(s, "pkill"):
				a.kind = "kill"
			case strings.HasPrefix(strings.TrimSpace(s), "ping "):
				a.kind = "ping"
			default:
				a.kind = "run"
			}
		case e.Callee == "exec.Command" || e.Callee == "exec.CommandContext":
			k := len(e.Args) - 1
			xs, ok := listed(e.Args[k])
			if !ok {
				continue
			}
			for j, x := range append([]*Term{e.Args[k-1]}, xs...) {
				if j > 0 {
					a.text = append(a.text, part{lit: " "})
				}
				a.text = append(a.text, w.text(p, x)...)
			}
			words := strings.Fields(flat(a.text))
			if len(words) < 3 || words[0] != "scp" {
				continue
			}
			a.kind = "install"
			if strings.Contains(words[len(words)-2], ":") {
				a.kind = "dl"
			}
		default:
			continue
		}
		out = append(out, a)
	}
	return
}

// inGoroutine is where the goroutine's own part of p starts.
func (w *expt) inGoroutine(p *Path) int {
	for k, e := range p.Events {
		if e == p.Go {
			return k + 1
		}
	}
	return 0
}

// ownClient gives the index of the connection cl, or nil.
func (w *expt) ownClient(p *Path, cl *Term) *Term {
	if cl == nil {
		return nil
	}
	for _, a := range append([]*Term{cl}, subterms(cl)...) {
		if a.Op == "iaddr" && a.Args[0] == w.clients {
			if p.St.Peek(a) == cl || absint.Contains(cl, a) {
				return a.Args[1]
			}
		}
	}
	return nil
}

// action looks at all goroutines that do one thing.
func (w *expt) action(kind string) {
	c, tb := w.c, w.x.TB
	loops := map[*Loop]bool{}
	w.found[kind] = loops
	n := 0
	for _, p := range w.ps {
		if p.Go == nil {
			continue
		}
		from := w.inGoroutine(p)
		acts := w.given(p, from)
		var mine []act
		var kills []act
		for _, a := range acts {
			if a.kind == kind {
				mine = append(mine, a)
			}
			if a.kind == "kill" {
				kills = append(kills, a)
			}
		}
		if kind == "ping" {
			for _, sg := range c.Segs([]*Path{p}) {
				if sg.Loop == nil || !w.after(p, sg.Loop) {
					continue
				}
				for _, a := range w.given(sg.P, 0) {
					if a.kind == "ping" {
						n++
						if l := w.ping(p, sg, a); l != nil {
							loops[l] = true
						}
					}
				}
			}
			continue
		}
		if len(mine) == 0 {
			continue
		}
		n++
		if !c.Ob(len(mine) == 1, kind, "once", mine[0].e.Pos, "a server is given the same command %d times", len(mine)) {
			continue
		}
		a := mine[0]
		var i *Term
		switch kind {
		case "run":
			i = w.ownClient(p, a.cl)
			if !c.Ob(i != nil, kind, "server", a.e.Pos, "it cannot be told on which server the node is started") {
				continue
			}
			w.start(a, i)
		case "dl", "install":
			i = w.copied(a, kind)
			if i == nil {
				continue
			}
		}
		l := w.each(p, i)
		if c.Ob(l != nil, kind, "all", a.e.Pos, "this is not done for each server, once") {
			loops[l] = true
		}
		// what ran before is ended
		killed := false
		for _, k := range kills {
			j := w.ownClient(p, k.cl)
			if j == nil || j != i && !p.St.F.ProveEq(i, j) || !before(p, k.e, a.e) {
				continue
			}
			for _, wd := range strings.Fields(flat(k.text)) {
				killed = killed || w.node != "" && strings.Trim(wd, "'\";") == w.node
			}
		}
		c.Ob(killed, kind, "ended", a.e.Pos, "what a server still runs is not ended before")
	}
	c.Ob(n > 0, "instances", kind, w.rt.fn.Pos(), "there is nothing -%s does", kind)
	_ = tb
}

func (w *expt) after(p *Path, l *Loop) bool {
	in := false
	for _, e := range p.Events {
		in = in || e == p.Go
		if in && e.Kind == "loop" && e.Loop == l {
			return true
		}
	}
	return false
}

// start checks the command that starts a node on server i.
func (w *expt) start(a act, i *Term) {
	c, p := w.c, a.p
	s := flat(a.text)
	words := strings.Fields(s)
	at := -1
	for k, wd := range words {
		if strings.HasPrefix(wd, "./") {
			at = k
		}
	}
	if !c.Ob(at >= 0, "run", "program", a.e.Pos, "no program is started by %s", show(a.text)) {
		return
	}
	name := strings.TrimPrefix(words[at], "./")
	c.Ob(w.node == "" || w.node == name, "run", "program", a.e.Pos, "the servers run different programs")
	w.node = name
	var listen, peers string
	var rest []string
	for k := at + 1; k < len(words); k++ {
		switch wd := words[k]; {
		case wd == "-l" && k+1 < len(words):
			k++
			listen = words[k]
		case strings.HasPrefix(wd, "-l="):
			listen = wd[3:]
		case wd == "-p" && k+1 < len(words):
			k++
			peers = words[k]
		case strings.HasPrefix(wd, "-p="):
			peers = wd[3:]
		case wd == ">" && k+1 < len(words):
			w.log = words[k+1]
			k = len(words)
		default:
			rest = append(rest, wd)
		}
	}
	// the port
	k := strings.LastIndex(listen, ":")
	var port *Term
	if k >= 0 {
		if o := only(a.text, listen[k+1:]); o != nil {
			port = o.v
		}
	}
	if !c.Ob(port != nil, "run", "listen", a.e.Pos, "it cannot be told what port a node listens on") {
		return
	}
	c.Ob(!w.local(p, port), "run", "port", a.e.Pos, "the port a node listens on is made up for each server: its peers cannot know it")
	c.Ob(listen[:k] == "" || listen[:k] == "0.0.0.0" || listen[:k] == "[::]", "run", "listen", a.e.Pos, "a node listens at %s, where its peers cannot reach it", listen[:k])
	// what else it is given
	ok := len(rest) == 1
	if ok {
		o := only(a.text, rest[0])
		ok = o != nil && o.list != nil && o.sep == " "
		if ok {
			e := w.result(p, o.list)
			ok = e != nil && (e.Callee == "(*flag.FlagSet).Args" || e.Callee == "flag.Args")
		}
	}
	c.Ob(ok, "run", "arguments", a.e.Pos, "a node is not given the arguments of the command line: %q", rest)
	// its peers
	if peers == "" {
		w.alone(a, i, port)
		return
	}
	o := only(a.text, peers)
	if c.Ob(o != nil && o.list != nil && o.sep == ",", "run", "peers", a.e.Pos, "what a node is given as its peers is not a list of addresses with commas") {
		w.peers(a, o.list, i, port)
	}
}

// local: t is made up in the goroutine of p.
func (w *expt) local(p *Path, t *Term) bool {
	in := false
	for _, e := range p.Events {
		in = in || e == p.Go
		if in && e.Kind == "call" && e.Res != nil && absint.Contains(t, e.Res) {
			return true
		}
	}
	for _, a := range append([]*Term{t}, subterms(t)...) {
		if a.Op == "lv" {
			return true
		}
	}
	return false
}

// alone: a node is started without peers only if it has none.
func (w *expt) alone(a act, i, port *Term) {
	c, tb, p := w.c, w.x.TB, a.p
	ok := false
	// the list of its peers is there and empty
	var lists []*Term
	for t := range w.idx {
		if t.Typ != nil && isSliceT(t.Typ) && isString(sliceElem2(t.Typ)) {
			lists = append(lists, t)
		}
	}
	for _, t := range lists {
		onp := false
		for _, r := range w.idx[t] {
			onp = onp || onPath(p, r.l) && w.after(p, r.l)
		}
		if !onp {
			continue
		}
		empty := p.St.F.Entails(tb.Le(tb.Len(t), tb.Int(0)))
		for _, e := range evs(p, "call", "strings.Join") {
			if v, k := p.St.F.Value(tb.Eq(e.Res, tb.MkT(types.Typ[types.String], "str", ""), false)); k && v && e.Args[0] == t {
				empty = true // addresses are never empty
			}
		}
		if empty {
			ok = true
			w.peers(a, t, i, port)
		}
	}
	c.Ob(ok, "run", "alone", a.e.Pos, "a node is started without peers although it may have some")
}

// peers: list holds the addresses of all servers that server i connects to.
func (w *expt) peers(a act, list, i, port *Term) {
	c, tb, p := w.c, w.x.TB, a.p
	var L *Loop
	var v *absint.LVInfo
	for _, r := range w.idx[list] {
		if onPath(p, r.l) && w.after(p, r.l) {
			L, v = r.l, r.v
		}
	}
	if !c.Ob(L != nil, "run", "peers", a.e.Pos, "the peers of a node are not collected from the topology") {
		return
	}
	c.Ob(v.Entry == tb.Nil() || p.St.F.Entails(tb.Le(tb.Len(v.Entry), tb.Int(0))), "run", "peers start", L.Pos, "the peers of a node do not start from none")
	var top, k *Term
	some := false
	for _, b := range L.Backs {
		nv := L.Back(b, v)
		if nv == v.LV {
			continue
		}
		if !c.Ob(nv.Op == "append" && len(nv.Args) == 2 && nv.Args[0] == v.LV, "run", "peers", b.Pos, "the list of a node's peers is not extended by one address") {
			return
		}
		tx := w.text(b, nv.Args[1])
		ok := len(tx) == 3 && tx[0].v != nil && tx[1].lit == ":" && tx[2].v == port
		var to *Term
		if ok {
			var nm string
			var l *Term
			nm, l, to = fieldOf(tx[0].v)
			ok = nm == "PublicIP" && l == w.servers
		}
		if !c.Ob(ok, "run", "address", b.Pos, "the address of a peer is %s, not a server's address with the port all listen on", show(tx)) {
			return
		}
		nm, t, j := fieldOf(to)
		if !c.Ob(nm == "To", "run", "to", b.Pos, "a node is connected to server %s, not to the one the topology has it connect to", to) {
			return
		}
		top, k = t, j
		some = true
		c.Ob(w.from(b, top, k, i) == 1, "run", "from", b.Pos, "a node is given a peer although the topology does not have it connect there")
	}
	if !c.Ob(some, "run", "peers", L.Pos, "no peer is ever added") {
		return
	}
	for _, b := range L.Backs {
		if L.Back(b, v) == v.LV {
			c.Ob(w.from(b, top, k, i) == -1, "run", "left out", b.Pos, "a peer the topology has a node connect to is left out")
		}
	}
	w.whole(p, L, top, k, "run")
}

// whole: loop L goes through the whole topology, k being its index, and that
// is the one of the file given by the flag.
func (w *expt) whole(p *Path, L *Loop, top, k *Term, kind string) {
	c := w.c
	ids, ok := w.counter(L, c.Exits(w.ps, L), w.x.TB.Len(top))
	in := false
	for _, j := range ids {
		in = in || j == k
	}
	c.Ob(ok && in, kind, "all pairs", L.Pos, "not every connection of the topology is looked at")
	src := w.sources(p, top)
	c.Ob(src[kind] && len(src) == 1, kind, "topology", L.Pos, "the topology does not come from the file given by -%s (%v)", kind, src)
}

// from: the pair k of the topology starts at server i (1), does not (-1), or
// that is not known (0).
func (w *expt) from(b *Path, top, k, i *Term) int {
	st, ok := structOf(sliceElem2(top.Typ))
	if !ok {
		return 0
	}
	a := b.St.IndexAddr(top, k, sliceElem2(top.Typ))
	for f := 0; f < st.NumFields(); f++ {
		if st.Field(f).Name() != "From" {
			continue
		}
		x := w.x.TB.Field(b.St.Load(a, sliceElem2(top.Typ)), sliceElem2(top.Typ), f)
		if b.St.F.ProveEq(x, i) {
			return 1
		}
		if b.St.F.ProveNe(x, i) {
			return -1
		}
	}
	return 0
}

// ping checks the measurement of one connection, in an iteration of a loop.
func (w *expt) ping(p *Path, sg Seg, a act) *Loop {
	c, b := w.c, sg.P
	i := w.ownClient(b, a.cl)
	if !c.Ob(i != nil, "ping", "server", a.e.Pos, "it cannot be told which server measures") {
		return nil
	}
	var to *Term
	n := 0
	for _, x := range a.text {
		if x.v == nil {
			continue
		}
		n++
		if nm, l, j := fieldOf(x.v); nm == "PublicIP" && l == w.servers {
			to = j
		}
	}
	if !c.Ob(n == 1 && to != nil, "ping", "address", a.e.Pos, "what is measured is %s, not the way to a server", show(a.text)) {
		return nil
	}
	nm, top, k := fieldOf(to)
	if !c.Ob(nm == "To", "ping", "to", a.e.Pos, "the way to server %s is measured, not one of the topology", to) {
		return nil
	}
	c.Ob(w.from(b, top, k, i) == 1, "ping", "from", a.e.Pos, "a way is measured from a server it does not start at")
	for _, o := range sg.Loop.Backs {
		if len(evs(o, "call", a.e.Callee)) == 0 {
			c.Ob(w.from(o, top, k, i) == -1, "ping", "left out", o.Pos, "a way that starts at a server is not measured")
		}
	}
	// a way that failed ends it, all others are gone through
	w.throughout(p, sg.Loop, top, k)
	src := w.sources(p, top)
	c.Ob(src["ping"] && len(src) == 1, "ping", "topology", sg.Loop.Pos, "the topology does not come from the file given by -ping (%v)", src)
	w.printed(sg, a, top, k)
	l := w.each(p, i)
	c.Ob(l != nil, "ping", "all", a.e.Pos, "this is not done for each server, once")
	return l
}

// throughout: the loop looks at one pair after the other and ends early only
// for an error.
func (w *expt) throughout(p *Path, L *Loop, top, k *Term) {
	c, tb := w.c, w.x.TB
	ok := false
	for _, v := range L.Vars {
		if v.LV.Typ == nil || !isBasicInt(v.LV.Typ) || !absint.Contains(k, v.LV) {
			continue
		}
		ok = tb.Subst(k, map[*Term]*Term{v.LV: v.Entry}) == tb.Int(0)
		for _, b := range L.Backs {
			ok = ok && L.Back(b, v) == tb.AddK(v.LV, 1)
		}
	}
	for _, o := range c.Exits(w.ps, L) {
		if o.Kind == "exit" || o.Kind == "panic" {
			continue
		}
		done := o.St.F.Entails(tb.Le(tb.Len(top), k))
		in := false
		for _, e := range o.Events {
			in = in || e.Kind == "loop" && e.Loop == L
			if !in || e.Kind != "call" || e.Res == nil {
				continue
			}
			tup, isT := e.Res.Typ.(*types.Tuple)
			if isT && isErr(tup.At(tup.Len()-1).Type()) {
				if v, known := o.St.F.Value(tb.Eq(tb.Mk("extract", strconv.Itoa(tup.Len()-1), e.Res), tb.Nil(), false)); known && !v {
					done = true
				}
			}
		}
		ok = ok && done
	}
	c.Ob(ok, "ping", "all pairs", L.Pos, "not every connection of the topology is looked at")
}

// printed: a measurement is printed with the numbers of its two servers.
func (w *expt) printed(sg Seg, a act, top, k *Term) {
	c, b := w.c, sg.P
	if b.Kind != "back" {
		return
	}
	n := 0
	on := false
	for _, e := range b.Events {
		on = on || e == a.e
		if !on || e.Kind != "call" || e.Callee != "fmt.Println" && e.Callee != "fmt.Printf" {
			continue
		}
		var tx []part
		if e.Callee == "fmt.Printf" && e.Args[0].Op == "str" {
			if xs, ok := listed(e.Args[1]); ok {
				tx = w.format(b, e.Args[0].Aux, xs)
			}
		} else if xs, ok := listed(e.Args[0]); ok && len(xs) == 1 {
			tx = w.text(b, bareIface(xs[0]))
		}
		var ends []string
		var fl []*Term
		for _, x := range tx {
			if x.v == nil {
				continue
			}
			if nm, l, j := fieldOf(x.v); l == top && j == k {
				ends = append(ends, nm)
			} else if len(ends) == 0 && w.from(b, top, k, x.v) == 1 {
				ends = append(ends, "From")
			} else {
				fl = append(fl, x.v)
			}
		}
		if len(ends) == 0 && len(fl) == 0 {
			continue
		}
		n++
		c.Ob(len(ends) == 2 && ends[0] == "From" && ends[1] == "To", "ping", "printed", e.Pos, "a measurement is printed for the servers %v, not From and To of the pair measured", ends)
		ok := len(fl) == 1
		if ok {
			kf, m := mono(w.x.TB, fl[0])
			ok = kf.RatString() == "1/2" && len(m) == 1
			for x, e := range m {
				ok = ok && e == 1 && w.reads(b, x, a.e.Res)
			}
		}
		c.Ob(ok, "ping", "delay", e.Pos, "the delay printed is not half of the mean round trip measured")
	}
	c.Ob(n == 1, "ping", "printed", a.e.Pos, "a measurement is printed %d times", n)
}

// reads: x was parsed from what the command res delivered.
func (w *expt) reads(b *Path, x, res *Term) bool {
	seen := map[*Term]bool{}
	var visit func(t *Term) bool
	visit = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t == res {
			return true
		}
		for _, a := range t.Args {
			if visit(a) {
				return true
			}
		}
		if e := w.result(b, t); e != nil {
			for _, a := range e.Args {
				if visit(a) {
					return true
				}
			}
		}
		return false
	}
	return visit(x)
}

// copied checks what is copied to or from a server, and gives its index.
func (w *expt) copied(a act, kind string) *Term {
	c, p := w.c, a.p
	words := strings.Fields(flat(a.text))
	src, dst := words[len(words)-2], words[len(words)-1]
	there, here := src, dst
	if kind == "install" {
		there, here = dst, src
	}
	// user@address:file
	at, col := strings.Index(there, "@"), strings.LastIndex(there, ":")
	var i *Term
	ok := at > 0 && col > at
	if ok {
		u, ad := only(a.text, there[:at]), only(a.text, there[at+1:col])
		ok = u != nil && ad != nil && u.v != nil && ad.v != nil
		if ok {
			nm, l, j := fieldOf(ad.v)
			ok = nm == "PublicIP" && l == w.servers && w.isField(p, u.v, l, j, "User")
			i = j
		}
	}
	if !c.Ob(ok, kind, "server", a.e.Pos, "what is copied is %s, not a file of a server, as its user", strconv.Quote(there)) {
		return nil
	}
	key := false
	for k, wd := range words {
		if wd == "-i" && k+1 < len(words) {
			o := only(a.text, words[k+1])
			key = o != nil && o.v != nil && w.isField(p, o.v, w.servers, i, "KeyPath")
		}
	}
	c.Ob(key, kind, "key", a.e.Pos, "a file is copied without the key of the server")
	file := there[col+1:]
	if kind == "install" {
		c.Ob(file == w.node, kind, "program", a.e.Pos, "the program is installed as %q, but %q is run", file, w.node)
		o := only(a.text, here)
		c.Ob(o != nil && o.v == w.flags["install"], kind, "file", a.e.Pos, "what is installed is not the file given by -install")
		return i
	}
	c.Ob(file == w.log, kind, "file", a.e.Pos, "file %q is downloaded, but what a node says goes to %q", file, w.log)
	nPre, nIdx, other := 0, 0, 0
	rest := here
	for strings.Contains(rest, "\x01") {
		x, y := strings.Index(rest, "\x01"), strings.Index(rest, "\x02")
		o := only(a.text, rest[x:y+1])
		rest = rest[y+1:]
		switch {
		case o == nil || o.v == nil:
			other++
		case o.v == w.flags["dl"]:
			nPre++
		case (o.v == i || p.St.F.ProveEq(o.v, i)) && (o.verb == "d" || o.verb == "v"):
			nIdx++
		default:
			other++
		}
	}
	c.Ob(nPre == 1 && nIdx == 1 && other == 0 && strings.HasPrefix(here, "\x01"), kind, "name", a.e.Pos, "the results of different servers are not kept under the given prefix and a number of each server's own")
	return i
}

// acts: each thing is done once if its flag is given, and not at all otherwise.
func (w *expt) acts() {
	c, tb := w.c, w.x.TB
	empty := tb.MkT(types.Typ[types.String], "str", "")
	for _, kind := range []string{"run", "ping", "dl", "install"} {
		for _, p := range w.rt.ps {
			if p.Kind != "return" {
				continue
			}
			n := 0
			for _, e := range evs(p, "loop", "") {
				if w.found[kind][e.Loop] {
					n++
				}
			}
			v, known := p.St.F.Value(tb.Eq(w.flags[kind], empty, false))
			if !known {
				c.Ob(false, kind, "asked", p.Pos, "whether -%s is given is not looked at", kind)
				continue
			}
			want := 1
			if v {
				want = 0
			}
			c.Ob(n == want, kind, "asked", p.Pos, "with -%s given or not, it is done %d times, not %d", kind, n, want)
		}
	}
}
