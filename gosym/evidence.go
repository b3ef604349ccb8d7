package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func writeEvidence(id string, spec *CheckSpec, tier string, e *Engine, rs []HarnessResult, hs []HarnessSpec, validated, mismatched int, unrepro []string, exit int, wall, load time.Duration, known map[string]bool) {
	var states, trans, asserts, triv, done int64
	var perH []map[string]any
	var samples []any
	complete := true
	viol := 0
	for i, r := range rs {
		states += r.Paths
		trans += r.Steps
		asserts += r.Asserts
		triv += r.AssertsTrivial
		done += r.Done
		viol += len(r.Violations)
		var miss []string
		for _, l := range append([]string{"harness end"}, hs[i].Reach...) {
			if r.Reach[l] == 0 {
				miss = append(miss, l)
			}
		}
		inc := []string{}
		for k, n := range r.Inconc {
			inc = append(inc, fmt.Sprintf("%s (x%d)", k, n))
		}
		sort.Strings(inc)
		st := "holds for every value within the bounds"
		switch {
		case len(r.Violations) > 0:
			st = "counterexample"
		case len(miss) > 0:
			st = "vacuous: a reachability witness is missing"
		case len(inc) > 0:
			st = "holds on the explored part only; see inconclusive"
		}
		if st != "holds for every value within the bounds" {
			complete = false
		}
		perH = append(perH, map[string]any{"harness": r.Name, "verdict": st, "bound": hs[i].Bound, "parameters": r.Params, "paths": r.Paths, "completed_paths": r.Done,
			"instructions": r.Steps, "assertions_decided": r.Asserts, "assertions_closed_by_simplification": r.AssertsTrivial,
			"reachability_witnesses": r.Reach, "missing_witnesses": miss, "inconclusive": inc, "paths_left": r.Left, "seconds": r.Seconds})
		for l, m := range r.ReachModel {
			if len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": r.Name, "witness_for": l, "assignment": trimMap(m)})
			}
		}
		for _, v := range r.Violations {
			samples = append(samples, map[string]any{"harness": r.Name, "counterexample": v.Kind + ": " + v.Msg, "at": v.Pos, "assignment": trimMap(v.Vals)})
		}
	}
	var fns []string
	for fi := range e.fns {
		if fi.fn.Pkg != nil || fi.fn.Origin() != nil {
			s := fi.fn.String()
			if strings.Contains(s, "oov/psd") {
				fns = append(fns, fmt.Sprintf("%s (%d SSA instructions)", s, fi.ninstr))
			}
		}
	}
	var libs []string
	seen := map[string]bool{}
	for fi := range e.fns {
		s := fi.fn.String()
		if !strings.Contains(s, "oov/psd") && !strings.Contains(s, "verif/harness") && !seen[s] {
			seen[s] = true
			libs = append(libs, s)
		}
	}
	sort.Strings(fns)
	sort.Strings(libs)
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	if unrepro == nil {
		unrepro = []string{}
	}
	kf := []string{}
	for k := range known {
		kf = append(kf, k)
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": spec.Assumptions,
		"coverage": map[string]any{
			"explanation":                   "Symbolic execution of the SSA form of the real code, regenerated from the repository on this run; states = explored path prefixes (each stands for all inputs satisfying its path condition), transitions = SSA instructions executed symbolically. Verdicts hold within the stated bounds only; inconclusive entries are not counted as success.",
			"states":                        states,
			"transitions":                   trans,
			"traces_validated_against_impl": validated,
			"traces_disagreeing_with_impl":  mismatched,
			"completed_paths":               done,
			"assertions_decided":            asserts,
			"solver_queries":                e.st.Queries,
			"solver_sat":                    e.st.Sat,
			"solver_unsat":                  e.st.Unsat,
			"solver_unknown":                e.st.Unknown,
			"portfolio_queries":             e.st.OneShot,
			"integer_encoded_queries":       e.st.IntQueries,
			"queries_split_on_a_variable":   e.st.Splits,
			"queries_known_from_renaming":   e.st.CacheHits,
			"solver_seconds":                float64(e.st.TimeNS) / 1e9,
			"load_seconds":                  load.Seconds(),
			"all_harnesses_complete":        complete,
			"harnesses":                     perH,
			"functions_encoded":             fns,
			"library_functions_encoded":     libs,
			"bounds":                        spec.Bounds,
			"outside_the_claim":             spec.Outside,
			"unreproduced_counterexamples":  unrepro,
			"known_findings_seen":           kf,
			"samples":                       samples,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), b, 0644); err != nil {
		fatal(2, "%v", err)
	}
}

func trimMap(m map[string]uint64) any {
	if len(m) <= 60 {
		return m
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := map[string]uint64{}
	for _, k := range ks {
		if m[k] != 0 && len(r) < 60 {
			r[k] = m[k]
		}
	}
	return r
}
