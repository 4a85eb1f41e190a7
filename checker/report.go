package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Oblig is one instance of a rule: a construct of the repository and whether
// the rule was shown to hold for it in every context it was analysed in.
type Oblig struct {
	Rule, Construct string
	OK              bool
	Times           int // contexts or paths it was decided in
	Msg             string
	Detail          string
}

// Rep collects what one check decided.
type Rep struct {
	ID    string
	P     *Prog
	Tier  string
	obl   map[string]*Oblig
	order []string
	fns   map[*ssa.Function]bool
	steps int
	runs  int
	needs []need
	notes []string
	rules map[string]string
}

type need struct {
	rule string
	n    int
	what string
}

func newRep(id string, p *Prog) *Rep {
	return &Rep{ID: id, P: p, obl: map[string]*Oblig{}, fns: map[*ssa.Function]bool{}, rules: map[string]string{}}
}

// rule describes a rule and how many instances of it there are at least: a
// check that finds fewer constructs than were confirmed to exist has lost
// sight of the code, and says so.
func (r *Rep) rule(name string, min int, what string) {
	r.rules[name] = what
	r.needs = append(r.needs, need{name, min, what})
}

func (r *Rep) get(rule, construct string) *Oblig {
	k := rule + "\x00" + construct
	o := r.obl[k]
	if o == nil {
		o = &Oblig{Rule: rule, Construct: construct, OK: true}
		r.obl[k] = o
		r.order = append(r.order, k)
	}
	return o
}

func (r *Rep) ok(rule, construct string) { r.get(rule, construct).Times++ }

func (r *Rep) bad(rule, construct, msg string, args ...interface{}) {
	o := r.get(rule, construct)
	o.Times++
	if o.OK {
		o.OK = false
		o.Msg = fmt.Sprintf(msg, args...)
	}
}

// must records one decided instance.
func (r *Rep) must(cond bool, rule, construct, msg string, args ...interface{}) bool {
	if cond {
		r.ok(rule, construct)
	} else {
		r.bad(rule, construct, msg, args...)
	}
	return cond
}

func (r *Rep) note(f string, args ...interface{}) { r.notes = append(r.notes, fmt.Sprintf(f, args...)) }

// absorb counts what an engine analysed, and fails when it gave up.
func (r *Rep) absorb(e *Engine, what string) {
	for f := range e.Fns {
		r.fns[f] = true
	}
	r.steps += e.Steps
	r.runs++
	if e.Abort != "" {
		r.bad("analysis-completes", what, "%s", e.Abort)
	} else {
		r.ok("analysis-completes", what)
	}
}

func (r *Rep) count(rule string) int {
	n := 0
	for _, o := range r.obl {
		if o.Rule == rule {
			n++
		}
	}
	return n
}

func (r *Rep) settle() {
	for _, n := range r.needs {
		if c := r.count(n.rule); c < n.n {
			r.bad("instances-found", n.rule, "only %d instances of rule %q found in the code, at least %d expected (%s)", c, n.rule, n.n, n.what)
		}
	}
}

// ---- known findings ----

type finding struct{ prop, rule, construct, what string }

var findingRE = regexp.MustCompile(`^finding: property=(\S+) rule=(\S+) construct=\[(.*?)\] (.*)$`)

func loadFindings(path string) ([]finding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if m := findingRE.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, finding{m[1], m[2], m[3], m[4]})
		} else if strings.HasPrefix(l, "finding:") {
			return nil, fmt.Errorf("malformed finding: %s", l)
		}
	}
	return out, nil
}

// Check is one property's decision procedure.
type Check struct {
	ID          string
	Technique   string
	Explanation string
	Assumptions []string
	Run         func(r *Rep)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// decide runs a check on the program, with some files replaced.
func decide(c *Check, repo, tier string, overlay map[string][]byte) *Rep {
	r := newRep(c.ID, nil)
	r.Tier = tier
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.bad("analysis-completes", "checker", "the checker failed: %v\n%s", x, debug.Stack())
			}
		}()
		p, err := load(repo, overlay)
		if err != nil {
			r.bad("analysis-completes", "load", "cannot load %s: %v", repo, err)
			return
		}
		r.P = p
		c.Run(r)
	}()
	r.settle()
	return r
}

// overlayFile is what a check that runs on an expanded program is given.
type overlayFile struct {
	Files   map[string][]byte
	Helpers []string
}

func givenOverlay() (o overlayFile, err error) {
	if n := os.Getenv("WEGOCHECK_OVERLAY"); n != "" {
		var b []byte
		if b, err = os.ReadFile(n); err == nil {
			err = json.Unmarshal(b, &o)
		}
	}
	return
}

// quietOn decides a property for an expanded program, in a process of its own,
// which writes the evidence. What it prints is passed on when it is quiet.
func quietOn(id, repo, verif string, o overlayFile) bool {
	self, err := os.Executable()
	if err != nil {
		return false
	}
	tmp, err := os.CreateTemp("", "wegocheck-*.json")
	if err != nil {
		return false
	}
	defer os.Remove(tmp.Name())
	b, err := json.Marshal(o)
	if err != nil {
		return false
	}
	if _, err = tmp.Write(b); err != nil {
		return false
	}
	if tmp.Close() != nil {
		return false
	}
	cmd := exec.Command(self, "-repo", repo, "-verif", verif, id)
	cmd.Env = append(os.Environ(), "WEGOCHECK_OVERLAY="+tmp.Name())
	out, err := cmd.Output()
	if err != nil {
		if os.Getenv("EXPAND_DEBUG") != "" {
			fmt.Printf("expanded: %s\n", strings.ReplaceAll(string(out), "VIOLATION", "violation"))
		}
		return false
	}
	os.Stdout.Write(out)
	return true
}

func runCheck(c *Check, repo, verif string) int {
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	given, err := givenOverlay()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := decide(c, repo, tier, given.Files)
	if len(given.Helpers) > 0 {
		r.note("decided for the program in which these helpers are put back into their callers: %s", strings.Join(given.Helpers, ", "))
		fmt.Printf("helpers put back into their callers: %s\n", strings.Join(given.Helpers, ", "))
	}
	known, err := loadFindings(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		r.bad("analysis-completes", "known-findings.txt", "%v", err)
	}
	listed := func(o *Oblig) bool {
		for _, f := range known {
			if f.prop == c.ID && f.rule == o.Rule && f.construct == o.Construct {
				return true
			}
		}
		return false
	}
	alarm := func(r *Rep) bool {
		for _, o := range r.obl {
			if !o.OK && !listed(o) {
				return true
			}
		}
		return false
	}
	if given.Files == nil && alarm(r) {
		// the same program without the functions that are new
		if overlay, names := expandHelpers(repo); overlay != nil && quietOn(c.ID, repo, verif, overlayFile{overlay, names}) {
			return 0
		}
	}
	var viol []*Oblig
	knownHit := 0
	ob, dis := 0, 0
	sort.Strings(r.order)
	var list []map[string]interface{}
	for _, k := range r.order {
		o := r.obl[k]
		ob++
		st := "holds"
		if o.OK {
			dis++
		} else {
			st = "violated"
			hit := false
			for _, f := range known {
				if f.prop == c.ID && f.rule == o.Rule && f.construct == o.Construct {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, f.what)
					hit = true
				}
			}
			if hit {
				knownHit++
				st = "known finding"
			} else {
				viol = append(viol, o)
			}
		}
		list = append(list, map[string]interface{}{"rule": o.Rule, "construct": o.Construct, "contexts": o.Times, "status": st})
	}
	perRule := map[string]int{}
	for _, o := range r.obl {
		perRule[o.Rule]++
	}
	var fns []string
	for f := range r.fns {
		fns = append(fns, qualName(f))
	}
	sort.Strings(fns)
	fns = uniq(fns)
	samples := list
	if len(samples) > 400 {
		samples = samples[:400]
	}
	cov := map[string]interface{}{
		"explanation":        c.Explanation,
		"obligations":        ob,
		"discharged":         dis,
		"known_findings":     knownHit,
		"instances_per_rule": perRule,
		"rules":              r.rules,
		"functions_analysed": len(fns),
		"functions":          fns,
		"abstract_steps":     r.steps,
		"analysis_runs":      r.runs,
		"samples":            samples,
		"checker_cmd":        "./run.sh " + c.ID,
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append([]string{"golang.org/x/tools/go/ssa represents the program faithfully", "functions of other modules behave as modelled in the checker (DESIGN.md)"}, c.Assumptions...),
		"wall_s":      time.Since(start).Seconds(), "violations": len(viol),
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rp := filepath.Join(dir, c.ID+".violations.txt")
	os.Remove(rp)
	fmt.Printf("%s: %d obligations, %d hold, %d known findings, %d violated; %d functions, %d abstract steps, %.1fs\n", c.ID, ob, dis, knownHit, len(viol), len(fns), r.steps, time.Since(start).Seconds())
	if len(viol) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, o := range viol {
		fmt.Fprintf(&sb, "rule %s\n  construct: %s\n  %s\n", o.Rule, o.Construct, o.Msg)
		if d := r.rules[o.Rule]; d != "" {
			fmt.Fprintf(&sb, "  the rule: %s\n", d)
		}
	}
	fmt.Fprintf(&sb, "reproduce: cd /verif && ./run.sh %s\n", c.ID)
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	return 1
}

func uniq(xs []string) []string {
	var out []string
	for i, x := range xs {
		if i == 0 || x != xs[i-1] {
			out = append(out, x)
		}
	}
	return out
}
