package main

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu"
)

func (d *DiffSpec) make() *difficulty.Difficulty {
	x := difficulty.NewDifficulty(d.HP, d.CS, d.OD, d.AR)
	x.SetMods(difficulty.Modifier(d.Mods))
	if d.Speed != 0 && d.Speed != 1 {
		x.SetCustomSpeed(d.Speed)
	}
	return x
}

// change makes the settings change op, if it is one, on d and on its description.
func (s *DiffSpec) change(op *Op, d *difficulty.Difficulty) bool {
	switch op.K {
	case "hp":
		d.SetHP(op.V)
		s.HP = op.V
	case "cs":
		d.SetCS(op.V)
		s.CS = op.V
	case "od":
		d.SetOD(op.V)
		s.OD = op.V
	case "ar":
		d.SetAR(op.V)
		s.AR = op.V
	case "mods":
		d.SetMods(difficulty.Modifier(op.Mods))
		s.Mods = op.Mods
	case "speed":
		d.SetCustomSpeed(op.V)
		s.Speed = op.V
	default:
		return false
	}
	return true
}

// diffFor gives the setting d for a map.
func diffFor(d *DiffSpec, b *beatmap.BeatMap) *difficulty.Difficulty {
	if d.Own {
		x := difficulty.NewDifficulty(b.Difficulty.GetHP(), b.Difficulty.GetCS(), b.Difficulty.GetOD(), b.Difficulty.GetAR())
		x.SetMods(difficulty.Modifier(d.Mods))
		if d.Speed != 0 && d.Speed != 1 {
			x.SetCustomSpeed(d.Speed)
		}
		return x
	}
	return d.make()
}

var modPool = []difficulty.Modifier{
	0, 0, difficulty.HardRock, difficulty.Easy, difficulty.DoubleTime, difficulty.HalfTime, difficulty.Hidden, difficulty.Flashlight,
	difficulty.HardRock | difficulty.DoubleTime, difficulty.Easy | difficulty.HalfTime, difficulty.Hidden | difficulty.Flashlight, difficulty.DoubleTime | difficulty.Nightcore,
	difficulty.HardRock | difficulty.Flashlight, difficulty.Relax, difficulty.Relax2, difficulty.NoFail, difficulty.SpunOut | difficulty.NoFail, difficulty.TouchDevice, difficulty.ScoreV2,
	difficulty.HalfTime | difficulty.Daycore, difficulty.Hidden | difficulty.HardRock | difficulty.DoubleTime | difficulty.Flashlight, difficulty.Easy | difficulty.HardRock,
	difficulty.TouchDevice | difficulty.Flashlight | difficulty.Hidden,
}

func genMods(r *Rng) int64 {
	if r.P(0.85) {
		return int64(modPool[r.N(len(modPool))])
	}
	var m int64
	for i := 0; i < 32; i++ {
		if r.P(0.15) {
			m |= 1 << uint(i)
		}
	}
	return m
}

func genDiff(r *Rng) DiffSpec {
	d := DiffSpec{Own: r.P(0.6), Mods: genMods(r), Speed: 1}
	v := func() float64 { return r.PickF(round(r.FR(0, 10), 1), float64(r.N(11)), 5) }
	d.HP, d.CS, d.OD, d.AR = v(), v(), v(), v()
	if r.P(0.2) {
		d.Speed = r.PickF(0.5, 0.75, 1.1, 1.33, 2, round(r.FR(0.3, 3), 2))
	}
	return d
}

// calcKinds are the difficulty calculations.
var calcKinds = []string{"single", "single+peaks", "step", "step+peaks", "peaks"}

func prefix(objs []objects.IHitObject, n int) []objects.IHitObject {
	if n <= 0 || n > len(objs) {
		return objs
	}
	return objs[:n]
}

// calc runs one calculation and shows its result.
func calc(kind string, objs []objects.IHitObject, d *difficulty.Difficulty) []string {
	switch kind {
	case "single":
		return []string{digAttr(osu.CalculateSingle(objs, d))}
	case "single+peaks":
		a, p := osu.CalculateSingleWithPeaks(objs, d)
		return append([]string{digAttr(a)}, digPeaks(p)...)
	case "step":
		return digSteps(osu.CalculateStep(objs, d))
	case "step+peaks":
		a, p := osu.CalculateStepWithPeaks(objs, d)
		return append(digSteps(a), digPeaks(p)...)
	case "peaks":
		return digPeaks(osu.CalculateStrainPeaks(objs, d))
	}
	panic("simrun: unknown calculation " + kind)
}

func digSteps(a []osu.Attributes) []string {
	out := []string{fmt.Sprintf("steps %d", len(a))}
	for _, x := range a {
		out = append(out, digAttr(x))
	}
	return out
}

// genScore draws combo and hit counts; -1 stands for "all".
func genScore(r *Rng) []int {
	switch r.N(5) {
	case 0:
		return []int{-1, -1, 0, 0, 0}
	case 1:
		return []int{-1, -1, r.N(20), r.N(5), r.N(3)}
	case 2:
		return []int{r.N(500), -1, r.N(20), r.N(10), r.N(30)}
	case 3:
		return []int{r.N(50), r.N(300), r.N(50), r.N(50), r.N(50)}
	}
	return []int{r.N(3), r.N(3), r.N(3), r.N(3), r.N(3)}
}

func ppRun(pp *osu.PPv2, a osu.Attributes, s []int, d *difficulty.Difficulty) osu.PPv2 {
	return pp.PPv2x(a, s[0], s[1], s[2], s[3], s[4], d)
}

// doCalc runs a calculation op on a map and shows its result.
func doCalc(op *Op, b *beatmap.BeatMap, d *difficulty.Difficulty) []string {
	objs := b.HitObjects
	switch op.K {
	case "pp":
		pp := &osu.PPv2{}
		a := osu.CalculateSingle(prefix(objs, op.N), d)
		ret := ppRun(pp, a, op.S, d)
		return []string{digAttr(a), digPP(ret.Results), digPP(pp.Results)}
	case "query":
		var out []string
		if len(objs) == 0 {
			return nil
		}
		o := objs[mod(op.N, len(objs))]
		m := difficulty.Modifier(op.Mods)
		for _, q := range op.Q {
			t := o.GetStartTime() + q*(o.GetDuration()+100)
			p := b.Timings.GetPointAt(t)
			out = append(out, vb(o.GetPositionAt(t))+vb(o.GetStackedPositionAt(t))+vb(o.GetStackedPositionAtMod(t, m))+fmt.Sprint(o.GetStackIndex(m))+realTP(p).String()+realTP(b.Timings.GetOriginalPointAt(t)).String())
		}
		return out
	}
	return calc(op.K, prefix(objs, op.N), d)
}

func genCalcOp(r *Rng, nmaps, ndiffs int) Op {
	op := Op{M: r.N(nmaps), D: r.N(ndiffs)}
	switch k := r.N(12); {
	case k < 5:
		op.K = calcKinds[k]
	case k < 7:
		op.K = "step"
	case k < 9:
		op.K = "query"
		op.N = r.N(1000)
		op.Mods = int64(stackMods[r.N(3)])
		for i := r.Range(1, 6); i > 0; i-- {
			op.Q = append(op.Q, round(r.FR(-0.3, 1.3), 3))
		}
		return op
	default:
		op.K = "pp"
		op.S = genScore(r)
	}
	if r.P(0.3) {
		op.N = r.Range(1, 40)
	}
	return op
}

func near(a, b float64) bool {
	if a == b || a != a && b != b {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func nearAttr(a, b osu.Attributes) bool {
	return near(a.Total, b.Total) && near(a.Aim, b.Aim) && near(a.SliderFactor, b.SliderFactor) && near(a.Speed, b.Speed) && near(a.Flashlight, b.Flashlight) &&
		a.ObjectCount == b.ObjectCount && a.Circles == b.Circles && a.Sliders == b.Sliders && a.Spinners == b.Spinners && a.MaxCombo == b.MaxCombo
}

func nearList(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !near(a[i], b[i]) {
			return false
		}
	}
	return true
}

func nearPeaks(a, b osu.StrainPeaks) bool {
	return nearList(a.Aim, b.Aim) && nearList(a.Speed, b.Speed) && nearList(a.Flashlight, b.Flashlight) && nearList(a.Total, b.Total)
}
