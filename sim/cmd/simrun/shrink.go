package main

import (
	"flag"
	"fmt"
	"math"
	"os"
	"time"

	"gosusim/simrt"
)

// shrinker minimises a scenario while it keeps failing with the same class.
type shrinker struct {
	best     *Scenario
	fails    func(*Scenario) bool
	deadline time.Time
	tried    int
	kept     int
	onKeep   func(*Scenario)
}

func (s *shrinker) over() bool { return time.Now().After(s.deadline) }

// try takes over the candidate if it still fails.
func (s *shrinker) try(edit func(*Scenario) bool) bool {
	if s.over() {
		return false
	}
	n := roundTrip(s.best)
	if !edit(n) {
		return false
	}
	s.tried++
	if s.fails(n) {
		s.best = n
		s.kept++
		if s.onKeep != nil {
			s.onKeep(n)
		}
		return true
	}
	return false
}

// list removes chunks of a list, halving the chunk size.
func (s *shrinker) list(min int, length func(*Scenario) int, cut func(sc *Scenario, a, b int)) bool {
	any := false
	n := length(s.best)
	for size := n; size >= 1; size /= 2 {
		for at := 0; at < length(s.best) && !s.over(); {
			a, b := at, at+size
			if l := length(s.best); b > l {
				b = l
			}
			if length(s.best)-(b-a) < min {
				at += size
				continue
			}
			if s.try(func(sc *Scenario) bool { cut(sc, a, b); return true }) {
				any = true
			} else {
				at += size
			}
		}
	}
	return any
}

func (s *shrinker) pass() bool {
	any := false
	did := func(b bool) { any = any || b }
	did(s.list(0, func(sc *Scenario) int { return len(sc.Clients) }, func(sc *Scenario, a, b int) {
		sc.Clients = append(sc.Clients[:a:a], sc.Clients[b:]...)
	}))
	for i := range s.best.Clients {
		if i >= len(s.best.Clients) {
			break
		}
		did(s.list(0, func(sc *Scenario) int { return len(sc.Clients[i].Ops) }, func(sc *Scenario, a, b int) {
			c := &sc.Clients[i]
			c.Ops = append(c.Ops[:a:a], c.Ops[b:]...)
		}))
		for j := range s.best.Clients[i].Ops {
			did(s.list(0, func(sc *Scenario) int { return len(sc.Clients[i].Ops[j].Text) }, func(sc *Scenario, a, b int) {
				t := &sc.Clients[i].Ops[j].Text
				*t = (*t)[:a] + (*t)[b:]
			}))
		}
	}
	did(s.list(1, func(sc *Scenario) int { return len(sc.Cuts) }, func(sc *Scenario, a, b int) {
		sc.Cuts = append(sc.Cuts[:a:a], sc.Cuts[b:]...)
	}))
	did(s.list(0, func(sc *Scenario) int { return len(sc.Subs) }, func(sc *Scenario, a, b int) {
		sc.Subs = append(sc.Subs[:a:a], sc.Subs[b:]...)
	}))
	did(s.list(0, func(sc *Scenario) int { return len(sc.Adds) }, func(sc *Scenario, a, b int) {
		sc.Adds = append(sc.Adds[:a:a], sc.Adds[b:]...)
	}))
	for i := range s.best.Adds {
		a := func(sc *Scenario) *Add { return &sc.Adds[i] }
		min := 0
		if a(s.best).K == "fields" {
			min = 1
		}
		did(s.list(min, func(sc *Scenario) int { return len(a(sc).Lines) }, func(sc *Scenario, x, y int) {
			a(sc).Lines = append(a(sc).Lines[:x:x], a(sc).Lines[y:]...)
		}))
		did(s.try(func(sc *Scenario) bool { x := a(sc); r := x.Rep > 0; x.Rep = 0; return r }))
		did(s.try(func(sc *Scenario) bool { x := a(sc); r := x.Long > 0; x.Long = 0; return r }))
		did(s.try(func(sc *Scenario) bool { x := a(sc); r := x.CRLF; x.CRLF = false; return r }))
		did(s.try(func(sc *Scenario) bool { x := a(sc); r := x.P > 0; x.P = 0; return r }))
	}
	for i := range s.best.Faults {
		did(s.list(0, func(sc *Scenario) int { return len(sc.Faults[i]) }, func(sc *Scenario, a, b int) {
			sc.Faults[i] = append(sc.Faults[i][:a:a], sc.Faults[i][b:]...)
		}))
	}
	did(s.list(0, func(sc *Scenario) int { return len(sc.Del) }, func(sc *Scenario, a, b int) {
		sc.Del = append(sc.Del[:a:a], sc.Del[b:]...)
	}))
	did(s.list(0, func(sc *Scenario) int { return len(sc.Diffs) }, func(sc *Scenario, a, b int) {
		sc.Diffs = append(sc.Diffs[:a:a], sc.Diffs[b:]...)
	}))
	did(s.list(1, func(sc *Scenario) int { return len(sc.Maps) }, func(sc *Scenario, a, b int) {
		sc.Maps = append(sc.Maps[:a:a], sc.Maps[b:]...)
		if len(sc.Faults) >= b {
			sc.Faults = append(sc.Faults[:a:a], sc.Faults[b:]...)
		}
	}))
	for i := range s.best.Maps {
		if s.best.Maps[i].Corpus != "" {
			continue
		}
		m := func(sc *Scenario) *MapSpec { return &sc.Maps[i] }
		did(s.list(0, func(sc *Scenario) int { return len(m(sc).Objs) }, func(sc *Scenario, a, b int) {
			x := m(sc)
			// damaged lines after the removed ones keep naming the same records
			x.Objs = append(x.Objs[:a:a], x.Objs[b:]...)
		}))
		did(s.list(1, func(sc *Scenario) int { return len(m(sc).TPs) }, func(sc *Scenario, a, b int) {
			x := m(sc)
			x.TPs = append(x.TPs[:a:a], x.TPs[b:]...)
		}))
		did(s.list(0, func(sc *Scenario) int { return len(m(sc).Events) }, func(sc *Scenario, a, b int) {
			x := m(sc)
			x.Events = append(x.Events[:a:a], x.Events[b:]...)
		}))
		for k := 0; k < 3; k++ {
			get := func(sc *Scenario) *[]KV {
				return [...]*[]KV{&m(sc).Gen, &m(sc).Meta, &m(sc).Diff}[k]
			}
			did(s.list(0, func(sc *Scenario) int { return len(*get(sc)) }, func(sc *Scenario, a, b int) {
				x := get(sc)
				*x = append((*x)[:a:a], (*x)[b:]...)
			}))
			for j := range *get(s.best) {
				did(s.try(func(sc *Scenario) bool {
					v := &(*get(sc))[j]
					if len(v.V) < 12 {
						return false
					}
					v.V = "x"
					return true
				}))
			}
		}
		did(s.try(func(sc *Scenario) bool { x := m(sc); r := x.Noise != 0; x.Noise = 0; return r }))
		did(s.try(func(sc *Scenario) bool { x := m(sc); r := x.Enc != "" && x.Enc != "utf8"; x.Enc = "utf8"; return r }))
		did(s.try(func(sc *Scenario) bool { x := m(sc); r := x.CRLF || x.NoEOL; x.CRLF, x.NoEOL = false, false; return r }))
		did(s.try(func(sc *Scenario) bool { x := m(sc); r := x.Order != nil; x.Order = nil; return r }))
		for j := range s.best.Maps[i].Objs {
			o := func(sc *Scenario) *Obj { return &sc.Maps[i].Objs[j] }
			did(s.try(func(sc *Scenario) bool { x := o(sc); r := x.Tail != ""; x.Tail = ""; return r }))
			did(s.try(func(sc *Scenario) bool { x := o(sc); r := len(x.Edges) > 0; x.Edges, x.Tail = nil, ""; return r }))
			did(s.try(func(sc *Scenario) bool { x := o(sc); r := x.Reps > 1; x.Reps = 1; return r }))
			did(s.try(func(sc *Scenario) bool {
				x := o(sc)
				r := len(x.Pts) > 1
				if r {
					x.Pts = x.Pts[:1+(len(x.Pts)-1)/2]
				}
				return r
			}))
			did(s.try(func(sc *Scenario) bool {
				x := o(sc)
				r := x.X != math.Trunc(x.X) || x.Y != math.Trunc(x.Y) || x.T != math.Trunc(x.T)
				x.X, x.Y, x.T = math.Trunc(x.X), math.Trunc(x.Y), math.Trunc(x.T)
				return r
			}))
		}
	}
	for i := range s.best.Del {
		d := func(sc *Scenario) *Delivery { return &sc.Del[i] }
		did(s.try(func(sc *Scenario) bool { x := d(sc); r := x.Mode != "whole"; x.Mode = "whole"; return r }))
		did(s.try(func(sc *Scenario) bool { x := d(sc); r := x.Empty != 0; x.Empty = 0; return r }))
		did(s.try(func(sc *Scenario) bool { x := d(sc); r := x.Lat != 0; x.Lat = 0; return r }))
		did(s.try(func(sc *Scenario) bool { x := d(sc); r := x.Scribble; x.Scribble = false; return r }))
		did(s.try(func(sc *Scenario) bool { x := d(sc); r := x.EOFWith; x.EOFWith = false; return r }))
		did(s.try(func(sc *Scenario) bool { x := d(sc); r := x.Wrap != ""; x.Wrap = ""; return r }))
		did(s.try(func(sc *Scenario) bool { x := d(sc); r := x.FailWith; x.FailWith = false; return r }))
		did(s.try(func(sc *Scenario) bool { x := d(sc); r := x.After != ""; x.After = ""; return r }))
		did(s.try(func(sc *Scenario) bool { x := d(sc); r := x.Fail > 0 && x.Err != "disk"; x.Err = "disk"; return r }))
	}
	for i := range s.best.Diffs {
		did(s.try(func(sc *Scenario) bool { x := &sc.Diffs[i]; r := x.Mods != 0; x.Mods = 0; return r }))
		did(s.try(func(sc *Scenario) bool { x := &sc.Diffs[i]; r := x.Speed != 1; x.Speed = 1; return r }))
	}
	// the schedule
	if s.best.Sched.Fixed {
		did(s.list(0, func(sc *Scenario) int { return len(sc.Sched.Decisions) }, func(sc *Scenario, a, b int) {
			sc.Sched.Decisions = append(sc.Sched.Decisions[:a:a], sc.Sched.Decisions[b:]...)
		}))
		for i := range s.best.Sched.Decisions {
			if len(s.best.Sched.Decisions) > 200 {
				break
			}
			did(s.try(func(sc *Scenario) bool {
				d := &sc.Sched.Decisions[i]
				r := d.N < 1<<30
				d.N = 1<<31 - 1
				return r
			}))
		}
	}
	return any
}

func (s *shrinker) run() {
	// the simplest schedule: callers one after another
	if len(s.best.Clients) > 0 && !s.best.Sched.Fixed {
		s.try(func(sc *Scenario) bool {
			sc.Sched.Fixed, sc.Sched.Decisions = true, []simrt.Decision{}
			return true
		})
	}
	for s.pass() && !s.over() {
	}
}

func cmdShrink(args []string) {
	fs := flag.NewFlagSet("shrink", flag.ExitOnError)
	in := fs.String("in", "", "")
	outp := fs.String("out", "", "")
	secs := fs.Float64("secs", 40, "")
	fs.Parse(args)
	r := readRecord(*in)
	p := props[r.Property]
	limits()
	watchdog()
	var lastDetail string
	var decs []simrt.Decision
	fails := func(sc *Scenario) bool {
		c, v, trouble := execute(p, sc)
		if trouble != "" || v == nil || v.Class != r.Class {
			return false
		}
		lastDetail, decs = v.Detail, c.Decs
		return true
	}
	if r.Class == "hang" {
		// the result is confirmed with the full budget afterwards
		stepOverride = 100e6
	}
	if !fails(r.Scenario) {
		fatal("shrink: does not fail")
	}
	start := time.Now()
	s := &shrinker{best: r.Scenario, fails: fails, deadline: start.Add(time.Duration(*secs * float64(time.Second)))}
	var lastWrite time.Time
	s.onKeep = func(sc *Scenario) {
		if time.Since(lastWrite) < time.Second {
			return
		}
		lastWrite = time.Now()
		n := *r
		n.Scenario, n.Detail = sc, lastDetail
		n.write(*outp + ".tmp")
		os.Rename(*outp+".tmp", *outp)
	}
	if len(decs) > 0 && !r.Scenario.Sched.Fixed && len(decs) < 16000 {
		d := append([]simrt.Decision(nil), decs...)
		s.try(func(sc *Scenario) bool {
			sc.Sched.Fixed, sc.Sched.Decisions = true, d
			return true
		})
	}
	s.run()
	r.Scenario, r.Detail = s.best, lastDetail
	r.write(*outp)
	fmt.Fprintf(os.Stderr, "shrink: %d candidates, %d kept\n", s.tried, s.kept)
}
