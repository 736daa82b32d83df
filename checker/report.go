package main

import (
	"fmt"
	"sort"
	"strings"
)

// Oblig is one decided obligation: an instance of a rule at a construct.
type Oblig struct {
	Props []string // properties it belongs to
	Rule  string
	Key   string // construct: function, field, call site
	OK    bool
	Where string
	Msg   string
}

// Result collects obligations and the counts of what was analysed.
type Result struct {
	Undecided []Oblig
	Obligs    []Oblig
	Counts    map[string]int
}

func newResult() *Result { return &Result{Counts: map[string]int{}} }

func (r *Result) add(o Oblig) { r.Obligs = append(r.Obligs, o) }

func (r *Result) ok(rule, key string, props ...string) {
	r.add(Oblig{Props: props, Rule: rule, Key: key, OK: true})
}

func (r *Result) bad(rule, key, where, msg string, props ...string) {
	r.add(Oblig{Props: props, Rule: rule, Key: key, Where: where, Msg: msg})
}

// undecided notes an instance that the rule could not decide; it is no alarm.
func (r *Result) undecided(rule, key, why string, props ...string) {
	r.Undecided = append(r.Undecided, Oblig{Props: props, Rule: rule, Key: key, Msg: why})
}

func (r *Result) undecidedOf(prop string) (out []Oblig) {
	for _, o := range r.Undecided {
		for _, p := range o.Props {
			if p == prop {
				out = append(out, o)
			}
		}
	}
	return
}

func (r *Result) count(what string, n int) { r.Counts[what] += n }

func (r *Result) merge(o *Result) {
	r.Obligs = append(r.Obligs, o.Obligs...)
	r.Undecided = append(r.Undecided, o.Undecided...)
	for k, n := range o.Counts {
		r.Counts[k] += n
	}
}

// select keeps the obligations of one property.
func (r *Result) of(prop string) (all, bad []Oblig) {
	for _, o := range r.Obligs {
		for _, p := range o.Props {
			if p == prop {
				all = append(all, o)
				if !o.OK {
					bad = append(bad, o)
				}
				break
			}
		}
	}
	return
}

func (o Oblig) String() string {
	s := fmt.Sprintf("[%s] %s", o.Rule, o.Key)
	if o.Where != "" {
		s = o.Where + ": " + s
	}
	if o.Msg != "" {
		s += ": " + o.Msg
	}
	return s
}

func ruleCounts(os []Oblig) string {
	m := map[string]int{}
	for _, o := range os {
		m[o.Rule]++
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s: %d", k, m[k]))
	}
	return strings.Join(out, ", ")
}
