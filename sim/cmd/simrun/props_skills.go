package main

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"
	"gosusim/simrt"
)

// ---- C22: skills driven by hand

var skillKinds = []string{"aim", "aim without sliders", "speed", "flashlight"}

// handSkill is one skill, driven object by object.
type handSkill struct {
	kind    int
	process func(*preprocessing.DifficultyObject)
	value   func() float64
	base    *skills.Skill
	done    int
}

func newSkill(kind int, d *difficulty.Difficulty) *handSkill {
	h := &handSkill{kind: kind}
	switch kind {
	case 0, 1:
		s := skills.NewAimSkill(d, kind == 0)
		h.process, h.value, h.base = s.Process, s.DifficultyValue, s.Skill
	case 2:
		s := skills.NewSpeedSkill(d)
		h.process, h.value, h.base = s.Process, s.DifficultyValue, s.Skill
	default:
		s := skills.NewFlashlightSkill(d)
		h.process, h.value, h.base = s.Process, s.DifficultyValue, s.Skill
	}
	return h
}

func genC22(r *Rng, run int, tier string) *Scenario {
	cfg := calcCfg(r)
	if cfg.MinObjs == 1 && r.P(0.7) {
		cfg.MinObjs, cfg.MaxObjs = 5, 40
	}
	if run%200 == 7 {
		cfg.MinObjs, cfg.MaxObjs = 200, 700
	}
	sc := &Scenario{Maps: []MapSpec{GenMap(r, cfg)}, Diffs: []DiffSpec{genDiff(r), genDiff(r)}, Sched: genSched(r)}
	if run%200 == 11 {
		sc.Maps = []MapSpec{{Corpus: pickCorpus(r)}}
		sc.Sched.Mean = 60000
	}
	for n := r.PickI(1, 1, 2, 3); n > 0; n-- {
		var cl Client
		var open []int
		for k := r.Range(3, 30); k > 0; k-- {
			if len(open) == 0 || len(open) < 6 && r.P(0.1) {
				cl.Ops = append(cl.Ops, Op{K: "skill", N: r.N(4), D: r.N(2)})
				open = append(open, len(open))
				continue
			}
			op := Op{K: r.Pick([]string{"process", "process", "process", "value", "peaks", "peaks", "previous", "previous", "scribble"}), M: open[r.N(len(open))]}
			op.N = r.PickI(1, 1, 2, 5, r.N(20), r.N(700))
			if op.K == "previous" {
				op.N = r.PickI(0, 1, 2, 3, 9, 10, 11, 31, 32, 33, r.N(50))
			}
			cl.Ops = append(cl.Ops, op)
		}
		sc.Clients = append(sc.Clients, cl)
	}
	return sc
}

// handUser is one caller that drives skills.
type handUser struct {
	objs   [2][]*preprocessing.DifficultyObject
	diff   [2]*difficulty.Difficulty
	which  []int
	skills []*handSkill
	lists  [][]float64 // as handed out
	given  [][]float64 // what was in them
	seen   []handSeen
}

// handSeen is what a caller was told.
type handSeen struct {
	op, diff, kind, done int
	value                float64
	peaks                []float64
}

// unchanged tells whether the lists handed out still say what they said.
func (u *handUser) unchanged() *Violation {
	for i, l := range u.lists {
		for j := range l {
			if l[j] != u.given[i][j] {
				return viol("list", "strain peak %d of a list handed out changed from %v to %v", j, u.given[i][j], l[j])
			}
		}
	}
	return nil
}

func (u *handUser) do(i int, op *Op) *Violation {
	if op.K == "skill" {
		d := op.D & 1
		u.skills = append(u.skills, newSkill(op.N&3, u.diff[d]))
		u.which = append(u.which, d)
		return nil
	}
	if op.K == "scribble" {
		if v := u.unchanged(); v != nil {
			return v
		}
		defer func() { u.lists, u.given = nil, nil }()
		for _, l := range u.lists {
			for j := range l {
				l[j] = 1e9 + float64(j)
			}
		}
		return nil
	}
	if op.M >= len(u.skills) {
		return nil
	}
	h, objs := u.skills[op.M], u.objs[u.which[op.M]]
	see := handSeen{op: i, diff: u.which[op.M], kind: h.kind, done: h.done}
	switch op.K {
	case "process":
		for n := 0; n < op.N && h.done < len(objs); n++ {
			h.process(objs[h.done])
			h.done++
		}
	case "value":
		see.value = h.value()
		u.seen = append(u.seen, see)
	case "peaks":
		l := h.base.GetCurrentStrainPeaks()
		see.peaks = append([]float64{}, l...)
		u.lists, u.given = append(u.lists, l), append(u.given, see.peaks)
		u.seen = append(u.seen, see)
	case "previous":
		p := h.base.GetPrevious(op.N)
		if p == nil {
			if op.N == 0 && h.done > 0 {
				return viol("previous", "after %d objects there is no previous one", h.done)
			}
			return nil
		}
		if at := h.done - 1 - op.N; at < 0 || objs[at] != p {
			return viol("previous", "after %d objects, the %d. previous is the one at %v", h.done, op.N, p.StartTime)
		}
	}
	return nil
}

func runC22(sc *Scenario, c *Ctx) *Violation {
	simrt.Reset()
	m := &sc.Maps[0]
	b, v := c.mustParse(m)
	if v != nil {
		return v
	}
	limit := func(b *beatmap.BeatMap) {
		if len(b.HitObjects) > 700 {
			b.HitObjects = b.HitObjects[:700]
		}
	}
	limit(b)
	users := make([]handUser, len(sc.Clients))
	bad := make([]*Violation, len(sc.Clients))
	var fns []func()
	for i := range sc.Clients {
		cl := &sc.Clients[i]
		i := i
		u := &users[i]
		fns = append(fns, func() {
			for k := range u.objs {
				k := k
				if k < len(sc.Diffs) {
					u.diff[k] = diffFor(&sc.Diffs[k], b)
				} else {
					u.diff[k] = difficulty.NewDifficulty(5, 4, 8, 9)
				}
				u.objs[k] = preprocessing.CreateDifficultyObjects(b.HitObjects, u.diff[k])
			}
			for j := range cl.Ops {
				if v := u.do(j, &cl.Ops[j]); v != nil {
					v.Detail = fmt.Sprintf("client %d, step %d: %s", i, j, v.Detail)
					bad[i] = v
					return
				}
			}
			bad[i] = u.unchanged()
		})
	}
	r := c.main(sc, 20e9, fns...)
	c.count("preemptions", int64(r.Preempts))
	asked := 0
	for i := range sc.Clients {
		for j := range sc.Clients[i].Ops {
			c.count("op_"+sc.Clients[i].Ops[j].K, 1)
		}
		asked += len(users[i].seen)
	}
	c.Trivial = asked == 0
	if v := runBad(r); v != nil {
		return v
	}
	for _, v := range bad {
		if v != nil {
			return v
		}
	}
	// what every skill gives when it is asked only once, at that object, on a fresh copy
	simrt.Reset()
	fresh, v := c.mustParse(m)
	if v != nil {
		return v
	}
	limit(fresh)
	type key struct{ diff, kind, done int }
	type answer struct {
		value float64
		peaks []float64
		calc  []float64
	}
	known := map[key]*answer{}
	ask := func(k key) (*answer, *Violation) {
		if a := known[k]; a != nil {
			return a, nil
		}
		a := &answer{}
		o := c.solo(20e9, func() {
			d := difficulty.NewDifficulty(5, 4, 8, 9)
			if k.diff < len(sc.Diffs) {
				d = diffFor(&sc.Diffs[k.diff], fresh)
			}
			run := func() *handSkill {
				objs := preprocessing.CreateDifficultyObjects(fresh.HitObjects, d)
				h := newSkill(k.kind, d)
				for _, x := range objs[:k.done] {
					h.process(x)
				}
				return h
			}
			a.value = run().value()
			a.peaks = run().base.GetCurrentStrainPeaks()
			if k.done < len(fresh.HitObjects) && k.kind != 1 {
				p := osu.CalculateStrainPeaks(fresh.HitObjects[:k.done+1], d)
				switch {
				case k.kind == 0:
					a.calc = p.Aim
				case k.kind == 2:
					a.calc = p.Speed
				case d.CheckModActive(difficulty.Flashlight):
					a.calc = p.Flashlight
				}
			}
		})
		known[k] = a
		return a, o.bad()
	}
	for i := range users {
		for _, s := range users[i].seen {
			a, v := ask(key{s.diff, s.kind, s.done})
			if v != nil {
				return v
			}
			if s.peaks == nil {
				c.mix(math.Float64bits(s.value))
				if !near(s.value, a.value) {
					return viol("value", "client %d, step %d: the value of %s after %d objects is %v, asked only then it is %v", i, s.op, skillKinds[s.kind], s.done, s.value, a.value)
				}
				continue
			}
			if !nearList(s.peaks, a.peaks) {
				return viol("peaks", "client %d, step %d: the peaks of %s after %d objects are %v, asked only then they are %v", i, s.op, skillKinds[s.kind], s.done, s.peaks, a.peaks)
			}
			if a.calc != nil && !nearList(s.peaks, a.calc) {
				return viol("peaks", "client %d, step %d: the peaks of %s after %d objects are %v, the calculation gives %v", i, s.op, skillKinds[s.kind], s.done, s.peaks, a.calc)
			}
			for _, x := range s.peaks {
				c.mix(math.Float64bits(x))
			}
		}
	}
	c.Key = c.Hash ^ r.SchedHash
	return nil
}
