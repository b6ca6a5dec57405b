package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Rule  string   `json:"rule"`
	Key   string   `json:"key"` // construct identity, independent of line numbers
	Pos   string   `json:"pos"`
	Msg   string   `json:"message"`
	Path  []string `json:"path,omitempty"`
	Known string   `json:"known_finding,omitempty"`
}

// Check collects the obligations and violations of one property run.
type Check struct {
	P      *Prog
	T      *Terms
	ID     string
	Tier   string
	Seen   map[string]map[string]string // rule -> construct -> pos (obligations examined)
	Viol   map[string]*Violation
	Fns    map[*ssa.Function]bool
	States int
	Steps  int
	Paths  int
	Mins   map[string]int
	Notes  []string
	Rules  map[string]string
	Trust  []string
	// Findings: some violations of this check are listed as known
	Findings bool
}

func newCheck(p *Prog, id, tier string) *Check {
	return &Check{P: p, T: newTerms(p), ID: id, Tier: tier, Seen: map[string]map[string]string{}, Viol: map[string]*Violation{},
		Fns: map[*ssa.Function]bool{}, Mins: map[string]int{}, Rules: map[string]string{}}
}

// Rule documents a rule that is part of this check.
func (c *Check) Rule(name, text string, min int) {
	c.Rules[name] = text
	c.Mins[name] = min
	if c.Seen[name] == nil {
		c.Seen[name] = map[string]string{}
	}
}

// Ob records one examined instance of a rule.
func (c *Check) Ob(rule, key, pos string) {
	if c.Seen[rule] == nil {
		c.Seen[rule] = map[string]string{}
	}
	if _, ok := c.Seen[rule][key]; !ok {
		c.Seen[rule][key] = pos
	}
}

func (c *Check) Bad(rule, key, pos, msg string, path []string) {
	c.Ob(rule, key, pos)
	k := rule + "|" + key
	if _, ok := c.Viol[k]; ok {
		return
	}
	if len(path) > 40 {
		path = path[len(path)-40:]
	}
	c.Viol[k] = &Violation{Rule: rule, Key: key, Pos: pos, Msg: msg, Path: path}
}

// Sim makes a simulator whose statistics are accounted to this check.
func (c *Check) Sim(h Hooks) *Sim { return newSim(c.P, c.T, h) }

// Run simulates root fn, reporting overflow as undecided.
func (c *Check) Run(s *Sim, fn *ssa.Function, init func(*State, []*Term, []*Term)) {
	s.Overflow = false
	s.Steps, s.Paths = 0, 0
	// once this root has a violation, a bounded number of further states is
	// enough to collect others; the verdict no longer changes
	before, after := len(c.Viol), 0
	s.Settled = func() bool {
		if len(c.Viol) == before || c.Findings {
			return false
		}
		if after == 0 {
			after = s.States + 5000
		}
		return s.States > after
	}
	s.Run(fn, init)
	c.States += s.States
	c.Steps += s.Steps
	c.Paths += s.Paths
	for f := range s.Fns {
		c.Fns[f] = true
	}
	if s.Overflow {
		c.Bad("undecided", c.P.FnName(fn), c.P.Pos(fn.Pos()), fmt.Sprintf("state limit %d reached while analysing %s", s.MaxStates, c.P.FnName(fn)), nil)
	}
	if os.Getenv("SA_STATS") != "" && s.States > 2000 {
		fmt.Fprintf(os.Stderr, "stats %s states=%d steps=%d paths=%d\n", c.P.FnName(fn), s.States, s.Steps, s.Paths)
	}
}

func (c *Check) finish() {
	for r, min := range c.Mins {
		if n := len(c.Seen[r]); n < min {
			c.Bad("coverage", r, "?", fmt.Sprintf("rule %s found %d instances, at least %d are expected: the construct it checks has disappeared or is no longer recognised", r, n, min), nil)
		}
	}
}

type known struct{ prop, key, text string }

func readKnown(path string) ([]known, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=P01 key=<rule|construct> :: text
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		parts := strings.SplitN(l, " :: ", 2)
		var k known
		if len(parts) == 2 {
			k.text = parts[1]
		}
		h := parts[0]
		i := strings.Index(h, " key=")
		if !strings.HasPrefix(h, "property=") || i < 0 {
			return nil, fmt.Errorf("bad known-findings line: %s", l)
		}
		k.prop = strings.TrimPrefix(h[:i], "property=")
		k.key = strings.TrimSpace(h[i+5:])
		out = append(out, k)
	}
	return out, nil
}

func (c *Check) sorted() []*Violation {
	var vs []*Violation
	for _, v := range c.Viol {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		if vs[i].Rule != vs[j].Rule {
			return vs[i].Rule < vs[j].Rule
		}
		return vs[i].Key < vs[j].Key
	})
	return vs
}

func writeReport(path string, c *Check, vs []*Violation) error {
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s, tier %s, repository %s\n\n", c.ID, c.Tier, c.P.Repo)
	for _, v := range vs {
		fmt.Fprintf(&sb, "rule:      %s\nconstruct: %s\nat:        %s\nproblem:   %s\n", v.Rule, v.Key, v.Pos, v.Msg)
		if t := c.Rules[v.Rule]; t != "" {
			fmt.Fprintf(&sb, "meaning:   %s\n", t)
		}
		if len(v.Path) > 0 {
			fmt.Fprintf(&sb, "path:\n")
			for _, p := range v.Path {
				fmt.Fprintf(&sb, "  %s\n", p)
			}
		}
		sb.WriteString("\n")
	}
	fmt.Fprintf(&sb, "re-run: /verif/run.sh %s %s\n", c.ID, c.Tier)
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, []byte(sb.String()), 0o644)
}

// RunRest runs the functions accepted by keep that no earlier run entered.
func (c *Check) RunRest(s *Sim, keep func(*ssa.Function) bool) {
	for _, fn := range c.P.Funcs {
		if !s.Fns[fn] && !(fn.Name() == "init" && fn.Synthetic != "") && keep(fn) {
			if os.Getenv("SA_STATS") != "" {
				fmt.Println("rest", c.P.FnName(fn))
			}
			c.Run(s, fn, nil)
		}
	}
}
