package main

import (
	"os"
	"path/filepath"
	"strconv"
	"time"
)

// writeEvidence records what this run covered. Every number is measured on the run.
func (e *Engine) writeEvidence(prop, tier string, st Stats, queries, nsat, nunsat int64, stime, maxq time.Duration, fnames []string, nlib int, bounds []string, results []hResult, validated, confirmed int, complete bool, inconcl string, wall time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var samples []any
	for _, s := range e.samples {
		if s.h == nil || len(samples) >= 12 {
			continue
		}
		obs := map[string]string{}
		for _, o := range s.obs {
			obs[o.Label] = o.V
		}
		samples = append(samples, map[string]any{"harness": s.h.name, "part": s.h.part, "inputs": renderInputs(s.inputs), "observed": obs})
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path")
	}
	cov := map[string]any{
		"states":                        st.Paths,
		"transitions":                   st.Decisions,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"explanation":                   "states = symbolic paths explored to their end (each stands for every input satisfying its path condition); transitions = symbolic branch decisions taken; traces_validated_against_impl = sampled paths whose solver model was run on the compiled code with equal outcome and observations",
		"forks":                         st.Forks,
		"infeasible_path_ends":          st.Infeasible,
		"ssa_instructions_interpreted":  st.Steps,
		"max_symbolic_inputs_on_a_path": st.MaxVars,
		"max_steps_on_a_path":           st.MaxPathSteps,
		"assertions_decided_by_solver":  st.AssertSMT,
		"assertions_decided_by_path":    st.AssertFolded,
		"assertion_violations_found":    st.AssertFail,
		"smt_queries":                   queries,
		"smt_sat":                       nsat,
		"smt_unsat":                     nunsat,
		"smt_cache_hits":                st.CacheHits,
		"smt_path_condition_checks":     st.PathSMT,
		"smt_audits_of_domain_verdicts": st.Audits,
		"smt_cross_checked_cvc5":        st.XChecked,
		"solver_cpu_s":                  stime.Seconds(),
		"solver_max_query_s":            maxq.Seconds(),
		"branches_decided_by_domains":   st.DomDecided,
		"merged_calls":                  st.Merges + st.MergeHits,
		"solver":                        "z3 4.8.12",
		"target_functions_encoded":      fnames,
		"functions_compiled_total":      nlib,
		"bounds":                        bounds,
		"harnesses":                     results,
		"exhaustive_within_bounds":      complete,
		"encode_s":                      e.buildTime.Seconds(),
	}
	if inconcl != "" {
		cov["inconclusive"] = inconcl
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov,
		"assumptions": []string{
			"go/ssa represents the program compiled by the installed go toolchain; the interpreter gives its instructions Go's semantics (checked per run on sampled paths against the compiled code)",
			"fmt, errors, sort.Slice and sync.Pool are replaced by models in engine/rt; memory is not exhausted; one goroutine",
			"nothing is claimed outside the bounds listed per harness",
		},
		"wall_s":     wall.Seconds(),
		"violations": confirmed,
	}
	dir := filepath.Join(e.verif, "evidence")
	os.MkdirAll(dir, 0755)
	writeJSON(filepath.Join(dir, prop+".json"), ev)
}
