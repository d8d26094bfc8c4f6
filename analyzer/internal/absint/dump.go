package absint

import (
	"fmt"
	"sort"
	"strings"
)

// Dump prints a path for debugging.
func Dump(x *Exec, p *Path, ind string) {
	for _, e := range p.Events {
		pos := x.Fset.Position(e.Pos)
		loc := fmt.Sprintf("%d", pos.Line)
		switch e.Kind {
		case "branch":
			fmt.Printf("%s%s: if %s\n", ind, loc, e.Cond)
		case "loop":
			fmt.Printf("%s%s: LOOP %s\n", ind, loc, e.Loop.ID)
			for _, v := range e.Loop.Vars {
				fmt.Printf("%s   var %s entry %s\n", ind, v.LV, v.Entry)
			}
			for _, h := range e.Loop.Havoc {
				fmt.Printf("%s   havoc %s\n", ind, h)
			}
			for i, b := range e.Loop.Backs {
				fmt.Printf("%s   - iteration %d\n", ind, i)
				Dump(x, b, ind+"     ")
				for _, v := range e.Loop.Vars {
					fmt.Printf("%s       %s := %s\n", ind, v.LV, e.Loop.Back(b, v))
				}
			}
		default:
			var as []string
			for _, a := range e.Args {
				if a != nil {
					as = append(as, a.String())
				}
			}
			fmt.Printf("%s%s: %s %s(%s) -> %s\n", ind, loc, e.Kind, e.Callee, strings.Join(as, " , "), e.Res)
		}
	}
	if p.Kind == "back" {
		return
	}
	fmt.Printf("%sEND %s %v\n", ind, p.Kind, p.Vals)
	var ks []string
	for k, v := range p.St.mem {
		if v.Op == "load" && v.Args[0] == k && v.Args[1].Aux == "0" {
			continue
		}
		ks = append(ks, fmt.Sprintf("%s%s = %s", ind, k, v))
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k)
	}
}
