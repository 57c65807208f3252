package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"

	"govc/internal/smt"
)

var baseAssumptions = []string{
	"int is 64 bits; machine integers are bit-vectors with wrap-around, never mathematical integers",
	"slice lengths, capacities and loop iteration counts are at most 2^40 (address space)",
	"the Go compiler, runtime and the go/ssa translation are faithful to the source",
	"protobuf generated accessors store and return what they are given (opaque API: nil-safe getters, default when unset)",
	"no other goroutine writes the inputs during a call",
	"append may place its result in fresh memory; in-place writes to memory owned by the caller are separate frame obligations",
}

func writeEvidence(res []*lemmaResult, extra map[string]interface{}, t0 time.Time, notes []string, viol int) {
	inl, mod, con := map[string]bool{}, map[string]bool{}, map[string]bool{}
	nobl, nproved, ntriv := 0, 0, 0
	bk := map[string]int{}
	solver := 0.0
	var lemmas []map[string]interface{}
	var loops []string
	cross := map[string]int{}
	kn := []string{}
	for _, r := range res {
		ntriv += r.trivial
		p := 0
		for _, t := range r.tasks {
			if t.ob.Cover {
				continue
			}
			if t.known {
				kn = append(kn, t.ob.Name)
				continue
			}
			nobl++
			solver += t.ms
			if t.status == "proved" {
				p++
				bk[t.backend]++
			}
			if t.cross != "" {
				cross[t.cross]++
			}
		}
		nproved += p
		for k := range r.ex.Inlined {
			inl[k] = true
		}
		for k := range r.ex.Modelled {
			mod[k] = true
		}
		for k := range r.ex.Contracts {
			con[k] = true
		}
		loops = append(loops, r.ex.LoopNotes...)
		lemmas = append(lemmas, map[string]interface{}{"lemma": r.l.name, "package": r.l.pkg, "obligations": len(r.tasks), "discharged": p, "simplifier": r.trivial, "generation_ms": r.genMS})
	}
	for _, b := range smt.Backends {
		_ = b
	}
	trusted := []string{}
	for _, k := range keys(mod) {
		trusted = append(trusted, "model of "+k)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"obligations": nobl + ntriv, "discharged": nproved + ntriv, "closed_by_simplifier": ntriv, "back_ends": bk,
		"solver_ms": solver, "checker_cmd": "govc -property " + *flagProp + " -tier " + *flagTier + " (z3-new, cvc5, z3 over QF_UFBV)",
		"trusted_base": trusted, "functions_under_contract": keys(inl), "callee_contracts_used": keys(con), "lemmas": lemmas, "loops": loops,
		"second_opinions": cross, "known_findings": kn,
	}
	if trusted == nil {
		cov["trusted_base"] = []string{}
	}
	as := append(append([]string{}, baseAssumptions...), notes...)
	for _, d := range dropped {
		as = append(as, "NOT DECIDED on this tree: "+d+" no longer fits the code it was written against")
	}
	if world != nil {
		used := map[string]bool{}
		for fn, c := range world.Contracts {
			if c.Assumed && con[c.Name] {
				used["assumed, not proved: "+fn.String()+" returns, and what it returns is a function of its arguments"] = true
			}
		}
		for k := range elsewhere {
			used["contract of "+k+" (it returns, a value when it returns no error): its proof is part of the check of C01"] = true
		}
		as = append(as, keys(used)...)
	}
	ev := map[string]interface{}{"property": *flagProp, "tier": *flagTier, "seed": seed, "level": "proof", "wall_s": time.Since(t0).Seconds(), "coverage": cov, "assumptions": as, "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(*flagVerif, "evidence")
	os.MkdirAll(d, 0o755)
	os.WriteFile(filepath.Join(d, *flagProp+".json"), b, 0o644)
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
