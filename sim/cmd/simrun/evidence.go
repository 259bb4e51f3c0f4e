package main

import (
	"encoding/json"
	"os"
	"regexp"
	"sort"
	"strings"
)

// agg sums what the workers report.
type agg struct {
	runs, trivial, raceRuns     int
	steps, simTime, sw, preempt int64
	counts                      map[string]int64
	keys, scheds                map[string]bool
	seen, switched              map[int]bool
	samples                     []*json.RawMessage
	cut                         bool
}

func newAgg() *agg {
	return &agg{counts: map[string]int64{}, keys: map[string]bool{}, scheds: map[string]bool{}, seen: map[int]bool{}, switched: map[int]bool{}}
}

func (a *agg) add(o *WorkOut, race bool) {
	a.runs += o.Runs
	a.trivial += o.Trivial
	if race {
		a.raceRuns += o.Runs
	}
	a.steps += o.Steps
	a.simTime += o.SimTime
	a.sw += o.Switches
	a.preempt += o.Preempts
	for k, v := range o.Counts {
		a.counts[k] += v
	}
	for _, k := range o.Keys {
		a.keys[k] = true
	}
	for _, k := range o.Scheds {
		a.scheds[k] = true
	}
	for _, s := range o.Seen {
		a.seen[s] = true
	}
	for _, s := range o.Switched {
		a.switched[s] = true
	}
	a.samples = append(a.samples, o.Samples...)
	a.cut = a.cut || o.Cut
}

// siteCoverage names how much of each source file the runs reached.
func (a *agg) siteCoverage(path string) map[string]interface{} {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	total := 0
	files := map[string][2]int{}
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		f := strings.Fields(l)
		if len(f) != 2 {
			continue
		}
		total++
		id := 0
		for _, c := range f[0] {
			id = id*10 + int(c-'0')
		}
		name := f[1]
		if i := strings.Index(name, ".go:"); i >= 0 {
			name = name[:i+3]
		}
		x := files[name]
		x[1]++
		if a.seen[id] {
			x[0]++
		}
		files[name] = x
	}
	var names []string
	for n, x := range files {
		if x[0] > 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	per := map[string]interface{}{}
	for _, n := range names {
		per[n] = []int{files[n][0], files[n][1]}
	}
	return map[string]interface{}{"yield_points_total": total, "yield_points_reached": len(a.seen), "preempted_at": len(a.switched), "reached_per_file": per}
}

func (a *agg) evidence(k *checker, planned, workers int, searchS float64, sites string, plain bool) map[string]interface{} {
	perHour := 0.0
	if searchS > 0 {
		perHour = float64(a.runs) / searchS * 3600
	}
	sort.SliceStable(a.samples, func(i, j int) bool { return len(*a.samples[i]) < len(*a.samples[j]) })
	s := a.samples
	if len(s) > 6 {
		s = []*json.RawMessage{s[len(s)/2], s[len(s)-1]}
	} else if len(s) > 2 {
		s = s[len(s)-2:]
	}
	samples := []interface{}{}
	for _, x := range s {
		samples = append(samples, x)
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]interface{}{"seed": k.seed, "run": 0})
	}
	stubs := k.p.Stubs
	if stubs == nil {
		stubs = []string{}
	}
	stubs = append(append([]string{}, stubs...), "thread scheduling (one caller runs at a time, chosen by the seeded scheduler), the clock, and the sync package (simulated locks)")
	cov := map[string]interface{}{
		"evaluations":         a.runs,
		"distinct_nontrivial": len(a.keys),
		"rule":                k.p.Rule,
		"samples":             samples,
		"runs_planned":        planned,
		"stopped_by_time":     a.cut || a.runs < planned && k.secs <= searchS,
		"race_detector_runs":  a.raceRuns,
		"runs_per_hour":       int64(perHour),
		"seeds_per_hour":      int64(perHour),
		"workers":             workers,
		"simulated_seconds":   float64(a.simTime) / 1e3,
		"yield_points_run":    a.steps,
		"task_switches":       a.sw,
		"preemptions":         a.preempt,
		"distinct_schedules":  len(a.scheds),
		"events_fired":        a.counts,
		"real_components":     []string{"the whole of github.com/Wieku/gosu-pp from /repo's working tree, compiled with a yield point before every statement (go build -overlay)", "golang.org/x/text and the Go standard library"},
		"stub_components":     stubs,
	}
	if plain {
		cov["instrumentation"] = "off: the tree could not be instrumented, so callers interleave only at reads and API calls"
	}
	if sc := a.siteCoverage(sites); sc != nil {
		cov["code_reached"] = sc
	}
	return map[string]interface{}{
		"property": k.p.ID, "tier": k.tier, "seed": k.seed, "level": k.p.Level, "coverage": cov,
		"assumptions": []string{
			"sampling, not enumeration: a clean batch is evidence, not proof",
			"interleavings are of statements under sequentially consistent memory; weaker memory effects are covered only through the race detector (C07, C08, C19, C21, C22)",
			"callers respect the documented contract: a difficulty setting is not changed by one caller while another uses it",
		},
	}
}

// Known findings.
type knownFinding struct {
	class string
	match *regexp.Regexp
	text  string
}

type knownList []knownFinding

// readKnown reads lines of the form "known: property=C04 class=panic match=/regexp/ what fails".
func readKnown(path, prop string) knownList {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var l knownList
	re := regexp.MustCompile(`^known: property=(\S+) class=(\S+) match=/(.*)/ (.*)$`)
	for _, s := range strings.Split(string(b), "\n") {
		m := re.FindStringSubmatch(s)
		if m == nil || m[1] != prop {
			continue
		}
		l = append(l, knownFinding{m[2], regexp.MustCompile(m[3]), m[4]})
	}
	return l
}

func (l knownList) find(v *Violation) *knownFinding {
	for i := range l {
		if l[i].class == v.Class && l[i].match.MatchString(v.Detail) {
			return &l[i]
		}
	}
	return nil
}

func (l knownList) matches(v *Violation) bool { return l.find(v) != nil }
