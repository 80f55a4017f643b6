package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"gmverif/checks"
)

type agg struct {
	nruns, ops, sw, points, chunks, plainRuns int
	steps, ns                                 int64
	nt                                        map[uint64]bool
	sched                                     map[uint64]bool
	logs                                      map[int][2]uint64
	repeats, mismatches                       int
	counts                                    map[string]int
	known                                     map[string]int
	sites                                     map[int]bool
	samples                                   []interface{}
}

func newAgg() *agg {
	return &agg{nt: map[uint64]bool{}, sched: map[uint64]bool{}, logs: map[int][2]uint64{}, counts: map[string]int{}, known: map[string]int{}, sites: map[int]bool{}}
}

func (a *agg) add(r *chunkRes) {
	a.chunks++
	for _, o := range r.runs {
		k := [2]uint64{o.Log, o.Sched}
		if r.c.again {
			a.repeats++
		}
		if old, ok := a.logs[o.Index]; ok {
			if old != k {
				a.mismatches++
			}
			continue
		}
		a.logs[o.Index] = k
		a.nruns++
		if r.c.plain {
			a.plainRuns++
		}
		a.ops += o.Ops
		a.sw += o.Switch
		a.points += o.Points
		a.steps += o.Steps
		a.ns += o.SimNS
		if o.NT {
			a.nt[o.Log] = true
		}
		if o.Points > 0 || o.Switch > 0 {
			a.sched[o.Sched] = true
		}
		for c, n := range o.Counts {
			a.counts[c] += n
		}
		for _, c := range o.Known {
			a.known[c]++
		}
		if len(o.Trace) > 0 && len(a.samples) < 3 {
			t := o.Trace
			if len(t) > 40 {
				t = append(append([]string(nil), t[:40]...), fmt.Sprintf("... %d more events", len(o.Trace)-40))
			}
			for i := range t {
				if len(t[i]) > 300 {
					t[i] = t[i][:300] + "..."
				}
			}
			a.samples = append(a.samples, map[string]interface{}{"run": o.Index, "events": t})
		}
	}
	for _, s := range r.sites {
		a.sites[s] = true
	}
}

func (a *agg) write(p *checks.Prop, tier string, seed int64, start time.Time, nv, planned int) {
	wall := time.Since(start).Seconds()
	faults, probes := map[string]int{}, map[string]int{}
	for k, n := range a.counts {
		if s := strings.TrimPrefix(k, "fault:"); s != k {
			faults[s] = n
		} else if s := strings.TrimPrefix(k, "probe:"); s != k {
			probes[s] = n
		}
	}
	var st struct {
		Coarse string `json:"coarse"`
		Sites  []struct {
			Pos string `json:"pos"`
		} `json:"sites"`
	}
	if b, err := os.ReadFile(filepath.Join(filepath.Dir(selfPath(false)), "ov", "sites.json")); err == nil {
		json.Unmarshal(b, &st)
	}
	perFile := map[string][2]int{}
	for i, s := range st.Sites {
		f, _, _ := strings.Cut(s.Pos, ":")
		v := perFile[f]
		v[1]++
		if a.sites[i] {
			v[0]++
		}
		perFile[f] = v
	}
	var cov []string
	for f, v := range perFile {
		cov = append(cov, fmt.Sprintf("%s %d/%d", f, v[0], v[1]))
	}
	sort.Strings(cov)
	samples := a.samples
	if samples == nil {
		samples = []interface{}{}
	}
	stubs := p.Stub
	if fastCurve != "" && strings.Contains(strings.Join(stubs, " "), "randomness") {
		stubs = append(append([]string(nil), stubs...), fastCurve)
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nv,
		"assumptions": p.Assume,
		"coverage": map[string]interface{}{
			"evaluations":                a.nruns,
			"distinct_nontrivial":        len(a.nt),
			"rule":                       p.Rule,
			"samples":                    samples,
			"runs_planned":               planned + p.Special,
			"runs_uninstrumented_build":  a.plainRuns,
			"operations":                 a.ops,
			"simulated_runs_per_hour":    int(float64(a.nruns) / wall * 3600),
			"seeds_per_hour":             int(float64(a.nruns) / wall * 3600),
			"simulated_time_s":           float64(a.ns) / 1e9,
			"statements_scheduled":       a.steps,
			"preemptions_inside_calls":   a.sw,
			"scheduling_decisions":       a.points,
			"distinct_interleavings":     len(a.sched),
			"interleaving_measure":       "distinct hashes of the sequence of (thread, operation start, preempting statement, thread chosen) over runs with more than one runnable thread",
			"faults_injected":            faults,
			"rare_conditions_reached":    probes,
			"gm_statements_reached":      cov,
			"coarse_scheduling":          st.Coarse,
			"worker_processes":           a.chunks,
			"determinism_repeated_runs":  a.repeats,
			"determinism_mismatches":     a.mismatches,
			"components_real":            p.Real,
			"components_simulated":       stubs,
			"known_findings_encountered": a.known,
		},
	}
	if p.Assume == nil {
		delete(ev, "assumptions")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	f := filepath.Join(root(), "evidence", p.ID+".json")
	os.MkdirAll(filepath.Dir(f), 0o755)
	if err := os.WriteFile(f, append(b, '\n'), 0o644); err != nil {
		die(err.Error())
	}
	if a.mismatches > 0 {
		fmt.Fprintf(os.Stderr, "gmsim: WARNING: %d repeated runs gave different event logs\n", a.mismatches)
	}
}
