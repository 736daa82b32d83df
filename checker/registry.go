package main

// analyses lists the analyses and the properties whose obligations each decides.
var analyses = []analysis{
	{"walk", []string{"P01", "P02", "P03", "P04", "P05", "P24", "P33"}, func(p *Program, res *Result, id string) { analyseWalks(p, res) }},
	{"ownership", []string{"P05"}, analyseOwnership},
	{"sharing", []string{"P04", "P05"}, analyseSharing},
	{"reference", refProps(), analyseReference},
	{"nondet", []string{"P27"}, analyseNondet},
	{"ifaces", []string{"P31"}, analyseIfaces},
}

// explain says, per property, what the check analyses; it goes into the evidence.
var explain = map[string]string{}

const (
	explainWalk = "Every exported entry point is interpreted abstractly over all its paths with the locks held, the memory regions reached and the critical section of each access (rules walk/...)."
	explainRef  = "Every function in the property's scope is brought to a value graph over all its paths (results, errors, panic conditions, final memory) and compared with its counterpart in the reference program /verif/spec (rule computes-reference); constructs names the functions compared."
)

func init() {
	for _, q := range analyses[0].props {
		explain[q] = explainWalk
	}
	explain["P04"] += " Points-to analysis of every exported function: no object it makes or sets up refers to a package-level object that is changed somewhere (no-shared-object)."
	explain["P05"] += " Points-to analysis of every constructor: what it returns refers, however deep, to nothing that its caller passed in (keeps-nothing-of-its-caller); of every method returning a config: it refers to nothing of the object (config-is-a-copy)."
	explain["P27"] = "Every exported entry point's call graph is searched for ambient sources (no-ambient-source), every loop over a map for effects that depend on its order (map-order), and every goroutine for effects that depend on the schedule (schedule-order)."
	explain["P31"] = "Method sets of all documented types and interfaces (implements, interface-methods), and the concrete types that reach every unchecked type assertion (payload-type)."
	for _, q := range refProps() {
		if explain[q] != "" {
			explain[q] += " "
		}
		explain[q] += explainRef
	}
}

var assumptions = []string{
	"The Go compiler, the type checker go/types and the SSA builder golang.org/x/tools/go/ssa are trusted.",
	"The standard library and the third-party packages the module imports behave as modelled (sync, container/heap, the ring buffer and deque, errors, fmt, strings, math, math/rand).",
	"Callers do not use unsafe or reflection, and call the Unsafe methods only while holding the lock as documented.",
}

func specOverlay(repo string) (map[string][]byte, error) { return nil, nil }
