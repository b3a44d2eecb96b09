package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// finding is one construct that breaks a rule. Key identifies the construct independently of lines.
type finding struct {
	Rule string `json:"rule"`
	Key  string `json:"construct"`
	Pos  string `json:"position"`
	Msg  string `json:"message"`
}

type result struct {
	property string
	findings []finding
	seen     map[string]bool
	// obligations discharged or examined, by rule
	counts map[string]int
	// what was analysed
	analysed map[string]int
	rules    []string
	samples  map[string][]string
	notes    []string
	once     map[string]bool
}

func newResult(property string) *result {
	return &result{
		property: property,
		seen:     map[string]bool{},
		counts:   map[string]int{},
		analysed: map[string]int{},
		samples:  map[string][]string{},
	}
}

func (x *result) rule(name, text string) {
	x.rules = append(x.rules, name+": "+text)
}

func (x *result) oblige(rule string) { x.counts[rule]++ }

func (x *result) sample(rule, text string) {
	if len(x.samples[rule]) < 12 {
		x.samples[rule] = append(x.samples[rule], text)
	}
}

func (x *result) flatSamples() []string {
	var rules []string
	for r := range x.samples {
		rules = append(rules, r)
	}
	sort.Strings(rules)
	out := []string{}
	for _, r := range rules {
		for _, s := range x.samples[r] {
			out = append(out, r+": "+s)
		}
	}
	return out
}

func (x *result) fail(rule, key, pos, format string, args ...any) {
	id := rule + "|" + key
	if x.seen[id] {
		return
	}
	x.seen[id] = true
	x.findings = append(x.findings, finding{rule, key, pos, fmt.Sprintf(format, args...)})
}

// atLeast is the vacuity guard: a rule that no longer finds its instances does not silently pass.
func (x *result) atLeast(rule string, n int) {
	if x.counts[rule] < n {
		x.fail("vacuous", rule, "-", "rule %s found %d instances, at least %d were confirmed by hand: its anchors are gone", rule, x.counts[rule], n)
	}
}

type known struct {
	property, rule, key, text string
}

func readKnown(path string) ([]known, error) {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		var k known
		rest := strings.TrimPrefix(line, "known: ")
		for _, name := range []string{"property", "rule", "construct"} {
			if !strings.HasPrefix(rest, name+"=") {
				return nil, fmt.Errorf("%s: bad line %q", path, line)
			}
			rest = strings.TrimPrefix(rest, name+"=")
			var val string
			if strings.HasPrefix(rest, "\"") {
				end := strings.Index(rest[1:], "\"")
				if end < 0 {
					return nil, fmt.Errorf("%s: bad line %q", path, line)
				}
				val = rest[1 : end+1]
				rest = strings.TrimSpace(rest[end+2:])
			} else {
				val, rest, _ = strings.Cut(rest, " ")
				rest = strings.TrimSpace(rest)
			}
			switch name {
			case "property":
				k.property = val
			case "rule":
				k.rule = val
			case "construct":
				k.key = val
			}
		}
		k.text = rest
		out = append(out, k)
	}
	return out, sc.Err()
}

// finish prints the verdict, writes evidence and returns the exit status.
func (x *result) finish(verif string, level, technique string, assumptions []string, start time.Time) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	kn, err := readKnown(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	sort.SliceStable(x.findings, func(i, j int) bool {
		a, b := x.findings[i], x.findings[j]
		if a.Rule != b.Rule {
			return a.Rule < b.Rule
		}
		return a.Key < b.Key
	})
	var fresh, listed []finding
	for _, f := range x.findings {
		ok := false
		for _, k := range kn {
			if k.property == x.property && k.rule == f.Rule && k.key == f.Key {
				ok = true
				break
			}
		}
		if ok {
			listed = append(listed, f)
		} else {
			fresh = append(fresh, f)
		}
	}
	for _, f := range listed {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s at %s: %s\n", x.property, f.Rule, f.Key, f.Pos, f.Msg)
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	total := 0
	for _, n := range x.counts {
		total += n
	}
	cov := map[string]any{
		"explanation": "static: rules decided on the type-checked source of the working tree; obligations are the constructs each rule was applied to",
		"technique":   technique,
		"rules":       x.rules,
		"analysed":    x.analysed,
		"obligations": total,
		"by_rule":     x.counts,
		"discharged":  total - len(x.findings),
		"samples":     x.flatSamples(),
	}
	if len(x.notes) > 0 {
		cov["notes"] = x.notes
	}
	if len(listed) > 0 {
		cov["known_findings"] = listed
	}
	ev := map[string]any{
		"property":    x.property,
		"tier":        tier,
		"seed":        seed,
		"level":       level,
		"coverage":    cov,
		"assumptions": assumptions,
		"wall_s":      time.Since(start).Seconds(),
	}
	var vs []any
	for _, f := range fresh {
		vs = append(vs, f)
	}
	if len(vs) > 0 {
		ev["violations"] = len(vs)
		cov["findings"] = vs
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, x.property+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	replay := filepath.Join(evdir, x.property+".violations.json")
	if len(fresh) == 0 {
		os.Remove(replay)
		fmt.Printf("%s held: %d obligations under %d rules, %d known findings\n", x.property, total, len(x.rules), len(listed))
		return 0
	}
	data, _ = json.MarshalIndent(fresh, "", " ")
	os.WriteFile(replay, append(data, '\n'), 0o644)
	for _, f := range fresh {
		fmt.Printf("%s %s [%s] %s: %s\n", x.property, f.Pos, f.Rule, f.Key, f.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", x.property, replay)
	return 1
}
