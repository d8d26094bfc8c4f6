package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
	"rsrcheck/internal/load"
	"rsrcheck/internal/rules"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	dump := flag.String("dump", "", "pkg:Recv.Method")
	model := flag.String("model", "", "model set for -dump")
	prop := flag.String("property", "", "property to decide")
	verif := flag.String("verif", "/verif", "")
	list := flag.Bool("list", false, "list the properties with rules")
	verbose := flag.Bool("v", false, "with -list: what each rule decides")
	names := flag.Bool("names", false, "print the table of names (internal/load/names.json)")
	shuffle := flag.Int64("shuffle", 0, "change names in the copy of the repository given by -repo, with this seed (for tests)")
	share := flag.Int("share", 30, "percentage of names changed")
	flag.Parse()
	if *shuffle != 0 {
		out, list, err := load.Shuffled(*repo, *shuffle, *share, flag.Args()...)
		if err != nil || filepath.Clean(*repo) == "/repo" {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for fn, b := range out {
			if err := os.WriteFile(fn, b, 0644); err != nil {
				os.Exit(2)
			}
		}
		fmt.Println(len(list), list)
		return
	}
	if *names {
		b, err := load.Names(*repo, flag.Args()...)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fmt.Printf("%s\n", b)
		return
	}
	if *list {
		for id, r := range rules.All {
			if *verbose {
				fmt.Printf("%s\t%s\n", id, r.What)
				continue
			}
			fmt.Println(id)
		}
		return
	}
	if *prop != "" {
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		os.Exit(rules.Check(*prop, *repo, *verif, tier, seed))
	}
	if *dump != "" {
		i := strings.Index(*dump, ":")
		pkg, m := (*dump)[:i], (*dump)[i+1:]
		p, err := load.Load(*repo, pkg)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		recv := ""
		if j := strings.Index(m, "."); j >= 0 {
			recv, m = m[:j], m[j+1:]
		}
		fn := p.Method(pkg, recv, m)
		if fn == nil {
			fmt.Println("not found")
			os.Exit(2)
		}
		x := rules.ExecFor(p, *model)
		if *model == "" {
			x.Inline = func(f *ssa.Function) bool { return f.Pkg == p.Pkgs[pkg] || f.Pkg == nil }
		}
		paths := x.Run(fn, nil, nil)
		for i, pa := range paths {
			fmt.Printf("=== path %d %s\n", i, pa.Kind)
			absint.Dump(x, pa, "  ")
		}
		fmt.Println("problems:", x.Problems, "paths", len(paths), "forks", x.PathCnt)
		return
	}
}
