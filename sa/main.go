package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type checkFn func(c *Check)

var checks = map[string]checkFn{}
var techniques = map[string]string{}

func runOne(p *Prog, id, tier string, kn []known) (c *Check, err error) {
	f := checks[id]
	if f == nil {
		return nil, fmt.Errorf("no check %s", id)
	}
	c = newCheck(p, id, tier)
	started = time.Now()
	for _, k := range kn {
		c.Findings = c.Findings || k.prop == id
	}
	func() {
		if os.Getenv("SA_PANIC") == "" {
			defer func() {
				if r := recover(); r != nil {
					c.Bad("undecided", "analyzer", "?", fmt.Sprintf("analysis stopped: %v", r), nil)
				}
			}()
		}
		f(c)
	}()
	c.finish()
	return c, nil
}

func main() {
	prop := flag.String("prop", "", "property id, comma separated, or 'all'")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	evdir := flag.String("evidence", "", "evidence directory")
	kf := flag.String("known", "", "known findings file")
	verbose := flag.Bool("v", false, "print every violation")
	over := flag.String("overlay", "", "analyse with the files named in this JSON object (path: replacement file) replaced")
	flag.Parse()
	var overlay map[string][]byte
	if *over != "" {
		overlay = map[string][]byte{}
		m := map[string]string{}
		b, err := os.ReadFile(*over)
		if err == nil {
			err = json.Unmarshal(b, &m)
		}
		for k, f := range m {
			if err == nil {
				overlay[k], err = os.ReadFile(f)
			}
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	start := time.Now()
	p, err := loadProg(*repo, overlay, "")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	loadT := time.Since(start)
	kn, err := readKnown(*kf)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	exit := 0
	for _, id := range ids {
		t0 := time.Now()
		c, err := runOne(p, id, *tier, kn)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var bad []*Violation
		for _, v := range c.sorted() {
			for _, k := range kn {
				if k.prop == id && k.key == v.Rule+"|"+v.Key {
					v.Known = k.text
				}
			}
			if v.Known != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s at %s)\n", id, v.Known, v.Key, v.Pos)
			} else {
				bad = append(bad, v)
			}
		}
		if *verbose {
			for _, v := range bad {
				fmt.Printf("%s [%s] %s @ %s: %s\n", id, v.Rule, v.Key, v.Pos, v.Msg)
				if os.Getenv("SA_PATH") != "" {
					for _, l := range v.Path {
						fmt.Println("      ", l)
					}
				}
			}
			var rs []string
			for r, m := range c.Seen {
				rs = append(rs, fmt.Sprintf("%s=%d", r, len(m)))
			}
			sort.Strings(rs)
			fmt.Printf("%s: %d violations, %d fns, %d states, %v, rules %v\n", id, len(bad), len(c.Fns), c.States, time.Since(t0).Round(time.Millisecond), rs)
		}
		if *evdir != "" {
			if err := writeEvidence(*evdir, c, bad, time.Since(t0)+loadT); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		}
		if len(bad) > 0 {
			exit = 1
			rp := filepath.Join(*evdir, "replay", id+".txt")
			if *evdir == "" {
				rp = filepath.Join(os.TempDir(), "sa-"+id+".txt")
			}
			if err := writeReport(rp, c, bad); err != nil {
				fmt.Fprintln(os.Stderr, err)
			}
			for _, v := range bad {
				fmt.Printf("%s: [%s] %s: %s\n", v.Pos, v.Rule, v.Key, v.Msg)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		}
	}
	os.Exit(exit)
}

func writeEvidence(dir string, c *Check, bad []*Violation, d time.Duration) error {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	tier := c.Tier
	if tier != "thorough" {
		tier = "quick"
	}
	obs, kfs := 0, 0
	perRule := map[string]int{}
	sample := map[string][]string{}
	for r, m := range c.Seen {
		perRule[r] = len(m)
		obs += len(m)
		var ks []string
		for k, pos := range m {
			ks = append(ks, k+" @ "+pos)
		}
		sort.Strings(ks)
		if len(ks) > 400 {
			ks = ks[:400]
		}
		sample[r] = ks
	}
	for _, v := range c.Viol {
		if v.Known != "" {
			kfs++
		}
	}
	pk := map[string]bool{}
	var fns []string
	for f := range c.Fns {
		pk[c.P.Rel(f)] = true
		fns = append(fns, c.P.FnName(f))
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation":         "Static analysis of the current source: every instance of each rule found in the resolved program (types, SSA, call graph) is one obligation; it is discharged when no path of the analysed functions violates the rule.",
		"rules":               c.Rules,
		"obligations":         obs,
		"discharged":          obs - len(c.Viol),
		"known_findings":      kfs,
		"obligations_by_rule": perRule,
		"instances":           sample,
		"functions_analysed":  len(fns),
		"functions":           fns,
		"packages_analysed":   len(pk),
		"abstract_states":     c.States,
		"instructions":        c.Steps,
		"paths_ended":         c.Paths,
		"module_functions":    len(c.P.Funcs),
	}
	level := "other"
	if c.ID == "P14" {
		level = "proof"
		cov["checker_cmd"] = "/verif/run.sh P14 " + tier
		cov["trusted_base"] = []string{"go/types and golang.org/x/tools/go/ssa translation of the source", "integer-set analysis in sa/p14.go", "Go conversion semantics (two's complement truncation)"}
	}
	if len(c.Notes) > 0 {
		cov["notes"] = c.Notes
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": float64(d.Milliseconds()) / 1000, "assumptions": append([]string{}, c.Trust...),
	}
	if len(bad) > 0 {
		ev["violations"] = bad
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644)
}
