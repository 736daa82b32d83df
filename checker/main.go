package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Usage: checker -repo DIR -verif DIR ID...
//
//	checker -repo DIR -verif DIR -all     (every obligation, for development)
func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(5 << 30)
	if os.Getenv("VERIF_TIER") == "thorough" {
		thorough()
	}
	repo, verif := "/repo", "/verif"
	var ids []string
	all := false
	args := os.Args[1:]
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-repo":
			i++
			repo = args[i]
		case "-verif":
			i++
			verif = args[i]
			verifDir = verif
		case "-all":
			all = true
		case "-cmp":
			cmpMain(repo, verif, args[i+1:])
			return
		default:
			ids = append(ids, args[i])
		}
	}
	start := time.Now()
	if all {
		res, err := analyse(repo, verif, "")
		if err != nil {
			fmt.Println("ERROR", err)
			os.Exit(1)
		}
		dump(res)
		for _, o := range res.Undecided {
			fmt.Println("UNDECIDED", o.Props, o)
		}
		fmt.Printf("%.1fs\n", time.Since(start).Seconds())
		return
	}
	code := 0
	for _, id := range ids {
		if c := check(repo, verif, id, start); c > code {
			code = c
		}
	}
	os.Exit(code)
}

// analyse runs the analyses that a property needs ("" for all) over the current
// source. A crash of an analysis is an undecided obligation.
func analyse(repo, verif, id string) (res *Result, err error) {
	res = newResult()
	began := time.Now()
	overlay, err := specOverlay(repo)
	if err != nil {
		return nil, err
	}
	p, err := load(repo, overlay)
	if err != nil {
		return nil, err
	}
	res.count("packages", len(p.Pkgs))
	for _, a := range analyses {
		if id != "" && !a.wants(id) {
			continue
		}
		// an analysis that does not end in time leaves its obligations undecided
		part := make(chan *Result, 1)
		go func() {
			r := newResult()
			defer func() {
				if e := recover(); e != nil {
					if os.Getenv("CHECKER_DEBUG") != "" {
						debug.PrintStack()
					}
					r.undecided("analysis-completes", a.name, fmt.Sprintf("the analysis stopped: %v", e), a.props...)
				}
				part <- r
			}()
			a.run(p, r, id)
		}()
		done := false
		for !done {
			select {
			case r := <-part:
				res.merge(r)
				done = true
			case <-time.After(time.Second):
				if time.Since(began) > checkBudget || usedMemory() > memoryLimit {
					res.undecided("analysis-completes", a.name, "the time or memory for the analysis is used up", a.props...)
					return res, nil
				}
			}
		}
	}
	return res, nil
}

type analysis struct {
	name  string
	props []string
	run   func(p *Program, res *Result, id string)
}

func (a analysis) wants(id string) bool {
	for _, p := range a.props {
		if p == id {
			return true
		}
	}
	return false
}

func check(repo, verif, id string, start time.Time) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err := os.MkdirAll(filepath.Join(verif, "evidence"), 0o755); err != nil {
		fmt.Println(err)
	}
	replay := filepath.Join("evidence", id+".report.txt")
	violations := 0
	var report []string
	res, err := analyse(repo, verif, id)
	var allO, badO []Oblig
	if err != nil {
		report = append(report, fmt.Sprintf("[loads] the source cannot be analysed, so the property is undecided: %v", err))
		violations++
		res = newResult()
	} else {
		allO, badO = res.of(id)
		if len(allO) == 0 && len(res.undecidedOf(id)) == 0 {
			report = append(report, "[instances] no obligation was generated for this property: undecided")
			violations++
		}
		known, kerr := knownFindings(filepath.Join(verif, "known_findings.txt"))
		if kerr != nil {
			report = append(report, kerr.Error())
			violations++
		}
		seen := map[string]bool{}
		for _, o := range badO {
			if seen[o.String()] {
				continue
			}
			seen[o.String()] = true
			if k, ok := known[id+" "+o.Rule+" "+o.Key]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
				continue
			}
			report = append(report, o.String())
			violations++
		}
	}
	rules := map[string]int{}
	var discharged int
	for _, o := range allO {
		rules[o.Rule]++
		if o.OK {
			discharged++
		}
	}
	var samples []string
	lastRule := ""
	for _, o := range allO {
		if o.Rule != lastRule && len(samples) < 25 {
			samples = append(samples, "["+o.Rule+"] "+o.Key)
			lastRule = o.Rule
		}
	}
	keys := make([]string, 0, len(allO))
	for _, o := range allO {
		keys = append(keys, o.Rule+": "+o.Key)
	}
	sort.Strings(keys)
	var und []string
	for _, o := range res.undecidedOf(id) {
		und = append(und, o.String())
		fmt.Println("UNDECIDED: " + o.String())
	}
	coverage := map[string]any{
		"explanation": "Static analysis of the SSA form of /repo's current source. " + explain[id] +
			" obligations counts the instances of the rules that this run generated from the source for this property, discharged those it could establish; obligations_by_rule and analysed say of what.",
		"obligations":         len(allO),
		"discharged":          discharged,
		"obligations_by_rule": rules,
		"analysed":            res.Counts,
		"constructs":          keys,
		"samples":             samples,
		"undecided":           und,
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage":    coverage,
		"assumptions": assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
	text := fmt.Sprintf("property %s: %d obligations, %d discharged\n%s\n", id, len(allO), discharged, strings.Join(report, "\n"))
	if err := os.WriteFile(filepath.Join(verif, replay), []byte(text), 0o644); err != nil {
		fmt.Println(err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d violations (%s)\n", id, len(allO), discharged, violations, ruleCounts(allO))
	if violations > 0 {
		for _, r := range report {
			fmt.Println("  " + r)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	return 0
}

// knownFindings reads the lines "finding: property=<id> rule=<rule> key=<construct> :: <text>".
func knownFindings(path string) (map[string]string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		head, text, ok := strings.Cut(strings.TrimPrefix(l, "finding: "), " :: ")
		if !ok {
			return nil, fmt.Errorf("malformed line in %s: %s", path, l)
		}
		i := strings.Index(head, " rule=")
		j := strings.Index(head, " key=")
		if !strings.HasPrefix(head, "property=") || i < 0 || j < i {
			return nil, fmt.Errorf("malformed line in %s: %s", path, l)
		}
		out[head[len("property="):i]+" "+head[i+len(" rule="):j]+" "+head[j+len(" key="):]] = text
	}
	return out, nil
}

func dump(res *Result) {
	props := map[string]bool{}
	for _, o := range res.Obligs {
		for _, q := range o.Props {
			props[q] = true
		}
	}
	var ps []string
	for q := range props {
		ps = append(ps, q)
	}
	sort.Strings(ps)
	for _, q := range ps {
		all, bad := res.of(q)
		fmt.Println(q, len(all), ruleCounts(all))
		for _, o := range bad {
			fmt.Println("   ", o)
		}
	}
	fmt.Println(res.Counts)
}
