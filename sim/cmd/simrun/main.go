// Command simrun runs the code under test inside the simulator.
//
//	simrun check  -prop C01 ...   the orchestrator: many seeded runs in worker processes, confirmation, minimisation
//	simrun work   -prop C01 ...   a chunk of runs in this process
//	simrun replay FILE            one recorded execution
//	simrun shrink -in F -out G    minimise a recorded execution
//	simrun audit  -prop C01 ...   run seeds repeatedly, in different processes and worker counts, and compare event hashes
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"gosusim/simrt"
)

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simrun check|work|replay|shrink|audit")
		os.Exit(2)
	}
	simrt.Snapshot()
	args := os.Args[2:]
	switch os.Args[1] {
	case "check":
		cmdCheck(args)
	case "work":
		cmdWork(args)
	case "replay":
		cmdReplay(args)
	case "shrink":
		cmdShrink(args)
	case "audit":
		cmdAudit(args)
	case "show":
		cmdShow(args)
	default:
		fmt.Fprintln(os.Stderr, "simrun: unknown command", os.Args[1])
		os.Exit(2)
	}
}

// makeScenario draws run number n.
func makeScenario(p *Prop, seed uint64, n int, tier string) *Scenario {
	r := NewRng(seed+uint64(n)*0x9e3779b97f4a7c15, p.ID)
	sc := p.Gen(r, n, tier)
	sc.Prop, sc.Seed, sc.Run = p.ID, seed, n
	return sc
}

// execute runs one scenario from pristine process state. A panic of the code under test in code the harness calls directly
// is a violation; any other panic is trouble of the harness.
func execute(p *Prop, sc *Scenario) (c *Ctx, v *Violation, trouble string) {
	c = newCtx()
	simrt.Reset()
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if s := panicSite(st); s != "" {
				v = viol("panic", "%v%s", r, s)
				return
			}
			trouble = fmt.Sprintf("harness panic in run %d: %v\n%s", sc.Run, r, st)
		}
	}()
	v = p.Run(sc, c)
	if v != nil {
		v.Detail = clip(v.Detail, 600)
	}
	return
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return strings.ToValidUTF8(s[:n], "") + "..."
}

// Record is a replay file.
type Record struct {
	Property string    `json:"property"`
	Class    string    `json:"class"`
	Detail   string    `json:"detail"`
	Race     bool      `json:"race_build,omitempty"`
	Tier     string    `json:"tier"`
	History  *History  `json:"history,omitempty"`
	Scenario *Scenario `json:"scenario,omitempty"`
	Original string    `json:"original,omitempty"`
	How      string    `json:"how_to_replay"`
}

// History names a sequence of runs in one process, for a violation that needs its predecessors.
type History struct {
	Seed uint64 `json:"seed"`
	From int    `json:"from"`
	Run  int    `json:"run"`
}

func readRecord(path string) *Record {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var r Record
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%s: %v", path, err)
	}
	return &r
}

func (r *Record) write(path string) {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		fatal("cannot write replay file: %v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simrun: "+f+"\n", a...)
	os.Exit(2)
}

func roundTrip(sc *Scenario) *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		fatal("scenario of run %d cannot be written: %v", sc.Run, err)
	}
	var n Scenario
	if err := json.Unmarshal(b, &n); err != nil {
		fatal("scenario of run %d cannot be read back: %v", sc.Run, err)
	}
	return &n
}
