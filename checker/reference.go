package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The reference rule: a function of the code computes what its counterpart in
// the reference program (/verif/spec) computes, as value graphs.

// verifDir is where the reference program is.
var verifDir = "/verif"

// aspects of a difference
type aspect func(f *status, d mismatch) bool

func anyAspect(*status, mismatch) bool { return true }

func isErrResult(f *status, d mismatch) bool {
	if !strings.HasPrefix(d.comp, "result ") {
		return false
	}
	var i int
	fmt.Sscanf(d.comp, "result %d", &i)
	rs := f.spec.Signature.Results()
	return i < rs.Len() && isErrorType(rs.At(i).Type())
}

func isPanic(_ *status, d mismatch) bool { return d.comp == "panics" }
func isMem(_ *status, d mismatch) bool   { return strings.HasPrefix(d.comp, "memory ") }

// swallowed: the reference fails and the code does not, or returns something
// beside the error, or panics.
func swallowed(f *status, d mismatch) bool {
	return d.fails && (strings.HasPrefix(d.comp, "result ") || isPanic(f, d))
}

func errOrPanic(f *status, d mismatch) bool { return isErrResult(f, d) || isPanic(f, d) }

// rejected: what a failing call leaves behind, or whether it fails.
func rejected(f *status, d mismatch) bool {
	return isErrResult(f, d) || isPanic(f, d) || d.fails && isMem(f, d)
}

func compHas(words ...string) aspect {
	return func(f *status, d mismatch) bool {
		for _, w := range words {
			if strings.Contains(d.comp, w) {
				return true
			}
		}
		return false
	}
}

type refRule struct {
	prop   string
	re     *regexp.Regexp
	aspect aspect
}

const (
	reUni   = `\(\*moment\.(Mean|EWMA|Moment|EWMMoment|Std|EWMStd|Skewness|Kurtosis)\)`
	reJoint = `\(\*joint\.(Cov|Corr|EWMCov|EWMCorr|Autocov|Autocorr)\)`
	reCore  = `\(\*(moment|joint)\.Core\)`
	reTree  = `quantile/ost/(avl|rb)\.`
)

func rule(prop, re string, a aspect) refRule {
	return refRule{prop, regexp.MustCompile(`^(?:` + re + `)$`), a}
}

var refRules = []refRule{
	rule("P06", reCore+`\.(UnsafePush|Push|UnsafeClear|Clear|UnsafeCount|Count|remove)`, anyAspect),
	rule("P06", `\(\*minmax\.(Min|Max)\)\.(Push|Clear)|minmax\.New\w*`, anyAspect),
	rule("P06", `\(\*quantile\.(Quantile|Median|IQR|HeapMedian)\)\.(Push|Clear)|quantile\.New\w*`, anyAspect),
	rule("P06", `\(\*(moment|joint)\.Core\)\.(add|addDecay)`, compHas("ount")),
	rule("P06", reUni+`\.Config|`+reJoint+`\.Config`, compHas(":int")),
	rule("P06", `\(\*joint\.(Autocov|Autocorr)\)\.(Push|Clear)`, anyAspect),
	rule("P06", `(moment|joint)\.(NewCore|Init|New[A-Z]\w*|New|setConfigDefaults)|`+reUni+`\.Config|`+reJoint+`\.Config`, compHas("indow")),
	rule("P06", `(moment|joint)\.NewCore`, compHas("queue", "panics")),

	rule("P07", reCore+`\.(UnsafePush|Push)|`+reUni+`\.Push|`+reJoint+`\.Push`, rejected),
	rule("P07", `\(\*minmax\.(Min|Max)\)\.Push|\(\*quantile\.(Quantile|Median|IQR|HeapMedian)\)\.Push`, rejected),

	rule("P08", `.*`, swallowed),

	rule("P09", reCore+`\.(UnsafeSum|UnsafeMean|Sum|Mean|Push|UnsafePush|Count|UnsafeCount|Clear|UnsafeClear|tracks)`, errOrPanic),
	rule("P09", reUni+`\.\w+|`+reJoint+`\.\w+`, errOrPanic),
	rule("P09", `.*\.IsSetCore|\(\*joint\.Core\)\.tracks|`+reUni+`\.Clear|`+reJoint+`\.Clear`, anyAspect),
	rule("P09", `(\(\*`+reTree+`(Node|Tree)\)|\(\*quantile/skiplist\.\w+\))\.(Select|Rank)|\(\*quantile/heap\.Heap\)\.\w+`, isPanic),
	rule("P09", `\(\*minmax\.(Min|Max)\)\.\w+|\(\*quantile\.(Quantile|Median|IQR|HeapMedian)\)\.\w+`, errOrPanic),

	rule("P10", `(moment|joint)\.(NewCore|Init|setConfigDefaults|validate\w+|New[A-Z]\w*|New)`, anyAspect),
	rule("P10", `quantile\.(New\w*|withOptions|\w+Option)|\(quantile\.(Impl|Interpolation)\)\.\w+`, anyAspect),
	rule("P10", `minmax\.New\w+|sample\.New\w*|quantile/skiplist\.(New|\w+Option)`, anyAspect),

	rule("P11", `.*\.(Clear|UnsafeClear)`, anyAspect),

	rule("P12", reUni+`\.(Config|SetCore|IsSetCore)|`+reJoint+`\.(Config|SetCore|IsSetCore)|(moment|joint)\.(Init|New[A-Z]\w*|New)`, anyAspect),
	rule("P12", `(moment|joint)\.(MergeConfigs|simplifySums|setConfigDefaults|NewCore)|\(\*?(moment|joint)\.SumsConfig\)\.add`, anyAspect),
	rule("P12", reUni+`\.Value|`+reJoint+`\.Value|\(\*joint\.Core\)\.(tracks|UnsafeSum|Sum)|\(\*moment\.Core\)\.(UnsafeSum|Sum)`, errOrPanic),

	rule("P13", reUni+`\.(Value|unsafeValue|Push)|\(\*moment\.Core\)\.(Mean|Sum|Count|Unsafe(Mean|Sum|Count))|util/math\.\w+|moment\.New\w*`, anyAspect),

	rule("P14", `\(\*moment\.Core\)\.\w+|moment\.NewCore|util/math\.\w+`, anyAspect),

	rule("P15", reJoint+`\.(Value|Push|Config)|joint\.New\w*|\(\*joint\.(Autocov|Autocorr)\)\.Clear|\(\*joint\.Core\)\.(Mean|Sum|Count|Unsafe(Mean|Sum|Count)|tracks)|\(joint\.Tuple\)\.(hash|eq)`, anyAspect),

	rule("P16", `\(\*joint\.Core\)\.\w+|joint\.NewCore|joint\.(iter|multinom|pow|sub)|\(joint\.Tuple\)\.\w+|util/math\.\w+`, anyAspect),

	rule("P17", `(\(\*`+reTree+`(Node|Tree)\)\.\w+|`+reTree+`New\w*|`+reTree+`max)`, notString(anyAspect)),
	rule("P18", `(\(\*`+reTree+`(Node|Tree)\)\.\w+|`+reTree+`New\w*|`+reTree+`max)`, notString(notQuery)),
	rule("P19", `\(\*`+reTree+`(Node|Tree)\)\.(Rank|Select|Size|Value)|\(\*quantile/skiplist\.(SkipList|Node)\)\.(Rank|Select|Size|Value)`, anyAspect),
	rule("P19", `\(\*`+reTree+`(Node|Tree)\)\.\w+|\(\*quantile/skiplist\.(SkipList|Node)\)\.\w+|`+reTree+`New\w*`, compHas("size", "width", "length")),
	rule("P20", `\(\*quantile/skiplist\.(SkipList|Node)\)\.\w+|quantile/skiplist\.\w+`, anyAspect),
	rule("P21", `\(\*quantile/heap\.Heap\)\.\w+|quantile/heap\.\w+|\(\*quantile\.HeapMedian\)\.(Push|rebalance|Clear)`, anyAspect),
	rule("P22", `\(\*quantile/heap\.Heap\)\.\w+|quantile/heap\.\w+|\(\*quantile\.HeapMedian\)\.(Push|rebalance|Value|Clear)|quantile\.(New\w*HeapMedian|fmax|fmin)`, anyAspect),
	rule("P23", `\(\*quantile\.(Quantile|Median|IQR)\)\.(Push|Value|unsafeValue)|quantile\.(New\w*|InterpolationOption|ImplOption|withOptions)|\(quantile\.(Impl|Interpolation)\)\.\w+`, anyAspect),
	rule("P24", `\(\*aggregate\.\w+\)\.\w+|aggregate\.\w+`, anyAspect),
	rule("P25", `\(\*minmax\.\w+\)\.\w+|minmax\.\w+`, notString(anyAspect)),
	rule("P26", `(\(\*(moment|joint|minmax|quantile)\.\w+\)\.String)`, anyAspect),
	rule("P28", `\w+\.NewGlobal\w+`, anyAspect),
	rule("P29", `\(\*sample\.Reservoir\)\.\w+|sample\.\w+`, anyAspect),
	rule("P30", `(moment|joint)\.(MergeConfigs|simplifySums)|\(\*?(moment|joint)\.SumsConfig\)\.add|\(joint\.Tuple\)\.\w+`, anyAspect),
}

func notString(a aspect) aspect {
	return func(f *status, d mismatch) bool {
		return !strings.HasSuffix(strings.ToLower(f.name), "string") && a(f, d)
	}
}

var queryRE = regexp.MustCompile(`\.(Rank|Select|Value|Contains|contains)$`)

func notQuery(f *status, _ mismatch) bool { return !queryRE.MatchString(f.name) }

// inScope reports whether any difference of the function could concern the property.
func inScope(name, id string) bool {
	for _, r := range refRules {
		if (id == "" || r.prop == id) && r.re.MatchString(name) {
			return true
		}
	}
	return false
}

func concerns(f *status, d mismatch, id string) bool {
	for _, r := range refRules {
		if r.prop == id && r.re.MatchString(f.name) && r.aspect(f, d) {
			return true
		}
	}
	return false
}

func refProps() []string {
	seen := map[string]bool{}
	var out []string
	for _, r := range refRules {
		if !seen[r.prop] {
			seen[r.prop] = true
			out = append(out, r.prop)
		}
	}
	return out
}

const refRule1 = "computes-reference"

func analyseReference(pi *Program, res *Result, id string) {
	ps, err := load(filepath.Join(verifDir, "spec"), nil)
	if err != nil {
		res.undecided(refRule1, "the reference program", fmt.Sprintf("it does not load: %v", err), id)
		return
	}
	p := newPairing(pi, ps)
	r := &refRun{p: p, id: id, stop: time.Now().Add(refBudget)}
	r.names = map[*ssa.Function]string{}
	r.callers = map[string][]string{}
	for n, f := range p.fs {
		r.names[f] = n
	}
	for n, f := range p.fs {
		for _, c := range callees(f) {
			if m, ok := r.names[c]; ok {
				r.callers[m] = append(r.callers[m], n)
			}
		}
	}
	want := map[string]bool{}
	for n := range p.fs {
		if only := os.Getenv("CHECKER_ONLY"); inScope(n, id) && (id != "" || only == "" || strings.Contains(n, only)) {
			want[n] = true
		}
	}
	for _, n := range p.order {
		if want[n] && (id == "" || !r.found) {
			r.compare(n)
		}
	}
	props := refProps()
	if id != "" {
		props = []string{id}
	}
	res.count("functions_compared", len(p.st))
	res.count("terms", len(termList))
	for _, n := range p.order {
		if !want[n] {
			continue
		}
		s := p.st[n]
		if s == nil {
			continue // not compared: a violation was found
		}
		for _, q := range props {
			if inScope(n, q) {
				r.report(res, s, q)
			}
		}
	}
}

type refRun struct {
	p       *pairing
	id      string
	stop    time.Time
	names   map[*ssa.Function]string
	callers map[string][]string
	found   bool               // a difference that will be reported
	api     map[string]*status // confirmations, by helper
}

// compare compares a function after what it calls.
func (r *refRun) compare(n string) *status {
	if s := r.p.st[n]; s != nil {
		return s
	}
	r.p.st[n] = &status{name: n, spec: r.p.fs[n], impl: r.p.fi[n], err: fmt.Errorf("recursive")}
	for _, c := range callees(r.p.fs[n]) {
		if m, ok := r.names[c]; ok && m != n {
			r.compare(m)
		}
	}
	if time.Now().After(r.stop) || tooMuchMemory() {
		s := r.p.st[n]
		s.err = fmt.Errorf("the time or memory for comparisons is used up")
		return s
	}
	s := r.p.compare(n)
	if r.id != "" && inScope(n, r.id) && (r.isAPI(n) || r.p.rec[n]) {
		for _, d := range s.diffs {
			r.found = r.found || !d.unsure && concerns(s, d, r.id)
		}
	}
	if !s.assumable() {
		name := n
		r.p.mi.noContract[name], r.p.ms.noContract[name] = true, true
	}
	return s
}

// isAPI: what callers outside can reach directly, or through an interface.
func (r *refRun) isAPI(n string) bool {
	f := r.p.fs[n]
	return f.Object() != nil && f.Object().Exported() || len(r.callers[n]) == 0
}

// reachedWrong looks for an entry point that calls the helper and is not equal
// to its reference when the helper is taken as the code has it.
func (r *refRun) reachedWrong(n string) *status {
	if r.api == nil {
		r.api = map[string]*status{}
	}
	if s, ok := r.api[n]; ok {
		return s
	}
	seen := map[string]bool{n: true}
	level := []string{n}
	var found *status
	tried := 0
	for len(level) > 0 && found == nil && tried < 12 {
		var next []string
		sort.Strings(level)
		for _, m := range level {
			for _, c := range r.callers[m] {
				if seen[c] {
					continue
				}
				seen[c] = true
				s := r.compare(c)
				tried++
				if s.ok {
					continue // the difference is not seen through c
				}
				if r.isAPI(c) {
					found = s
					break
				}
				next = append(next, c)
			}
			if found != nil {
				break
			}
		}
		level = next
	}
	r.api[n] = found
	return found
}

func (r *refRun) report(res *Result, s *status, id string) {
	if s.ok {
		res.ok(refRule1, s.name, id)
		return
	}
	var sure []mismatch
	unsure := 0
	for _, d := range s.diffs {
		if !concerns(s, d, id) {
			continue
		}
		if d.unsure {
			unsure++
		} else {
			sure = append(sure, d)
		}
	}
	if id == "P17" {
		if bad, ok := r.p.subtreeRule(s.name); ok {
			res.bad(subtreesRule, s.name, fnPos(r.p.pi, s.impl), bad, id)
			return
		}
	}
	if len(sure) == 0 {
		if id == "P16" && updateStep[s.name] {
			if bad, where, ok := oldSums(r.p.pi, s.impl, r.p.fi["(*joint.Core).UnsafeSum"]); bad != "" {
				res.bad(oldSumsRule, s.name, where, bad, id)
			} else if ok {
				res.ok(oldSumsRule, s.name, id)
			}
		}
		switch {
		case s.err != nil:
			res.undecided(refRule1, s.name, s.err.Error(), id)
		case unsure > 0:
			res.undecided(refRule1, s.name, "it is not brought to a form that can be compared", id)
		default:
			// it differs, but not in what this property is about
			res.ok(refRule1, s.name, id)
		}
		return
	}
	via := ""
	if !r.isAPI(s.name) && !r.p.rec[s.name] {
		api := r.reachedWrong(s.name)
		if api == nil {
			res.ok(refRule1, s.name+" (as it is called)", id)
			return
		}
		via = "; reached through " + api.name
	}
	var ms []string
	for _, d := range sure {
		ms = append(ms, d.String())
	}
	res.bad(refRule1, s.name, fnPos(r.p.pi, s.impl), strings.Join(ms, "; ")+via, id)
}

var updateStep = map[string]bool{"(*joint.Core).add": true, "(*joint.Core).addDecay": true, "(*joint.Core).remove": true}

func fnPos(p *Program, f *ssa.Function) string {
	if f == nil {
		return ""
	}
	pos := p.Prog.Fset.Position(f.Pos())
	rel, err := filepath.Rel(p.Dir, pos.Filename)
	if err != nil {
		rel = pos.Filename
	}
	return fmt.Sprintf("%s:%d", rel, pos.Line)
}
