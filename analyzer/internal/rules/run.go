package rules

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"go/token"

	"rsrcheck/internal/load"
)

// Known is one entry of the known-findings file.
type Known struct {
	Property, Key, What string
}

func loadKnown(file string) []Known {
	var out []Known
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> key=<key> :: <what fails>
		l = strings.TrimPrefix(l, "known: property=")
		id, rest, ok := strings.Cut(l, " key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " :: ")
		out = append(out, Known{strings.TrimSpace(id), strings.TrimSpace(key), strings.TrimSpace(what)})
	}
	return out
}

// Check decides one property on the tree at repo and writes its evidence file.
func Check(id, repo, verif, tier string, seed int) int {
	start := time.Now()
	r := All[id]
	if r == nil {
		fmt.Printf("unknown property %s\n", id)
		return 2
	}
	var c *C
	p, err := load.Load(repo, r.Pkgs...)
	if p == nil {
		p = &load.Prog{Dir: repo, Fset: token.NewFileSet()}
	}
	c = NewC(id, p)
	if err != nil {
		c.Fail("load", "packages", token.NoPos, "the analysed packages %v do not type-check: %v", r.Pkgs, err)
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Fail("undecided", "analysis", token.NoPos, "the code is in a form the analysis cannot decide: %v", e)
					if os.Getenv("RSR_DEBUG") != "" {
						fmt.Println(string(debug.Stack()))
					}
				}
			}()
			r.Run(c)
		}()
		if len(c.Viol) == 0 && c.Obl < r.MinObl {
			c.Fail("coverage", "obligations", token.NoPos, "only %d obligations were found, %d were confirmed by hand: the analysis no longer reaches the code it is about", c.Obl, r.MinObl)
		}
	}
	known := loadKnown(filepath.Join(verif, "known-findings.txt"))
	var viol []Violation
	for _, v := range c.Viol {
		hit := false
		for _, k := range known {
			if k.Property == id && k.Key == v.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s: %s)\n", id, k.What, v.Pos, v.Key)
				hit = true
			}
		}
		if !hit {
			viol = append(viol, v)
		}
	}
	cov := map[string]any{
		"explanation":            "Static analysis of the source in the repository's working tree (packages " + strings.Join(r.Pkgs, ", ") + "): " + r.What + ". Every listed function is abstractly interpreted over its SSA form on all paths, loops by fixpoint; each obligation is one rule instance at one construct.",
		"files_analysed":         p.Files,
		"functions_analysed":     len(c.Funcs),
		"roots":                  dedup(c.Roots),
		"paths_analysed":         c.Paths,
		"loop_summaries":         c.Loops,
		"obligations":            c.Obl,
		"discharged":             c.Discharged,
		"obligations_by_rule":    c.byRule,
		"obligations_required":   r.MinObl,
		"samples":                c.Samples,
		"known_findings_matched": len(c.Viol) - len(viol),
	}
	if len(p.Renamed) > 0 {
		cov["names_taken_for"] = p.Renamed
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": []string{"the Go compiler implements the language as specified", "integer arithmetic on positions, counts and lengths does not overflow its 64 bits", "slices held in different fields do not share backing arrays unless the analysis sees the sharing"},
		"wall_s":      time.Since(start).Seconds(), "violations": len(viol)}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d obligations (%d discharged) at %d functions, %d paths, %d loops in %d files; %.2fs\n", id, c.Obl, c.Discharged, len(c.Funcs), c.Paths, c.Loops, p.Files, time.Since(start).Seconds())
	for _, v := range viol {
		fmt.Printf("%s: [%s] %s\n", v.Pos, v.Key, v.Msg)
	}
	if len(viol) > 0 {
		v := viol[0]
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, strings.ReplaceAll(v.Pos, " ", "_"))
		return 1
	}
	return 0
}

func dedup(s []string) []string {
	m := map[string]bool{}
	var out []string
	for _, x := range s {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}
