package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/performance/osu"
)

// Digests: everything the exported API shows of a value, with floats compared by bits (all NaNs alike, and -0 as 0).

type dig struct{ l []string }

func fb(f float64) string {
	if f != f {
		return "NaN"
	}
	if f == 0 {
		return "0"
	}
	return fmt.Sprintf("%x", math.Float64bits(f))
}

func vb(v vector.Vector2f) string {
	return fb(float64(v.X)) + "/" + fb(float64(v.Y))
}

func (d *dig) add(f string, a ...interface{}) { d.l = append(d.l, fmt.Sprintf(f, a...)) }

var stackMods = []difficulty.Modifier{difficulty.None, difficulty.Easy, difficulty.HardRock}

const (
	digStack = 1 << iota // stacking, combos and numbering
	digPath              // positions, durations, scoring points
	digAll   = digStack | digPath
)

// digObj shows one object.
func digObj(o objects.IHitObject, what int) string {
	if o == nil {
		return "nil"
	}
	r := realRaw(o)
	if what&digStack == 0 {
		r.New = false
	}
	s := r.key()
	if what&digStack != 0 { // before any query, which could change them
		for _, n := range []string{"StackOffset", "StackOffsetEZ", "StackOffsetHR"} {
			if v, ok := fieldOf(o, n).(vector.Vector2f); ok {
				s += " " + vb(v)
			}
		}
	}
	if what&digPath != 0 {
		s += fmt.Sprintf(" end=%s dur=%s s=%s e=%s", fb(o.GetEndTime()), fb(o.GetDuration()), vb(o.GetStartPosition()), vb(o.GetEndPosition()))
		a, e := o.GetStartTime(), o.GetEndTime()
		if !(math.IsInf(a, 0) || math.IsInf(e, 0)) {
			n := 9
			if o.GetType() != objects.SLIDER {
				n = 2
			}
			for i := -1; i <= n+1; i++ {
				s += " " + vb(o.GetPositionAt(a+(e-a)*float64(i)/float64(n)))
			}
		}
		if x, ok := o.(*objects.Slider); ok {
			s += fmt.Sprintf(" pts=%d:", len(x.ScorePoints))
			for i, p := range x.ScorePoints {
				if i > 4000 {
					break
				}
				s += fb(p.Time)
				if p.IsReverse {
					s += "r"
				}
				s += ","
			}
			if x.Timings != nil {
				s += fmt.Sprintf(" tp={%v}", realTP(x.TPoint))
			}
		}
	}
	if what&digStack != 0 {
		cn, _ := comboOf(o)
		s += fmt.Sprintf(" id=%d new=%v cn=%d cs=%d/%d", o.GetID(), o.IsNewCombo(), cn, o.GetComboSet(), o.GetComboSetHax())
		for _, m := range stackMods {
			s += fmt.Sprintf(" st=%d %s %s %s", o.GetStackIndex(m), vb(o.GetStackedStartPositionMod(m)), vb(o.GetStackedEndPositionMod(m)), vb(o.GetStackedPositionAtMod(o.GetStartTime()+1, m)))
		}
		s += " " + vb(o.GetStackedStartPosition()) + vb(o.GetStackedEndPosition()) + vb(o.GetStackedPositionAt(o.GetStartTime()+0.5))
	}
	return s
}

// fieldOf is the value of an exported field of an object, nil if it has no such field.
func fieldOf(o objects.IHitObject, name string) interface{} {
	v := reflect.Indirect(reflect.ValueOf(o))
	if v.Kind() != reflect.Struct {
		return nil
	}
	if f := v.FieldByName(name); f.IsValid() && f.CanInterface() {
		return f.Interface()
	}
	return nil
}

func digDiff(d *difficulty.Difficulty) string {
	if d == nil {
		return "nil"
	}
	s := fmt.Sprintf("hp=%s cs=%s od=%s ar=%s mods=%d pre=%s rad=%s h50=%s h100=%s h300=%s hpm=%s spin=%s speed=%s arr=%s odr=%s cust=%s",
		fb(d.GetHP()), fb(d.GetCS()), fb(d.GetOD()), fb(d.GetAR()), int64(d.Mods), fb(d.Preempt), fb(d.CircleRadius), fb(d.Hit50), fb(d.Hit100), fb(d.Hit300),
		fb(d.HPMod), fb(d.SpinnerRatio), fb(d.Speed), fb(d.ARReal), fb(d.ODReal), fb(d.CustomSpeed))
	for _, t := range []float64{1, 450, 1234.5} {
		s += " " + fb(d.GetModifiedTime(t))
	}
	return s
}

// digMap shows a beatmap; ask are times to ask the timings about, diff whether the difficulty settings belong to it.
func digMap(b *beatmap.BeatMap, ask []float64, diff bool) []string {
	if b == nil {
		return []string{"nil"}
	}
	var d dig
	d.add("v%d %q %q %q %q %q %q %q %q", b.FileVersion, b.Artist, b.ArtistUnicode, b.Title, b.TitleUnicode, b.Version, b.Creator, b.Source, b.Tags)
	d.add("mode=%d sm=%s sl=%s audio=%q bg=%q set=%d map=%d prev=%d", b.Mode, fb(b.SliderMultiplier), fb(b.StackLeniency), b.Audio, b.Bg, b.SetID, b.MapID, b.PreviewTime)
	d.add("len=%d c=%d s=%d p=%d bpm=%s-%s", b.Length, b.Circles, b.Sliders, b.Spinners, fb(b.MinBPM), fb(b.MaxBPM))
	if diff {
		d.add("%s", digDiff(b.Difficulty))
	}
	for _, p := range b.Pauses {
		d.add("pause %s-%s %s", fb(p.GetStartTime()), fb(p.GetEndTime()), fb(p.Length()))
	}
	if b.Timings != nil {
		d.add("tim sm=%s tr=%s sd=%s has=%v def={%v}", fb(b.Timings.SliderMult), fb(b.Timings.TickRate), fb(b.Timings.GetScoringDistance()), b.Timings.HasPoints(), realTP(b.Timings.GetDefault()))
		if b.Timings.HasPoints() {
			for _, q := range ask {
				p := b.Timings.GetPointAt(q)
				d.add("tp@%v {%v} %s %s %s", q, realTP(p), fb(p.GetBeatLength()), fb(b.Timings.GetVelocity(p)), fb(b.Timings.GetTickDistance(p)))
			}
		}
	}
	d.add("n=%d", len(b.HitObjects))
	for i, o := range b.HitObjects {
		d.add("#%d %s", i, digObj(o, digAll))
	}
	return d.l
}

func diffLines(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(none)", "(none)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return "got " + around(x, y) + " instead of " + around(y, x)
		}
	}
	return ""
}

// around shows a near its first difference from b.
func around(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := i-60, i+60
	if lo < 0 {
		lo = 0
	}
	if hi > len(a) {
		hi = len(a)
	}
	s := a[lo:hi]
	if len(a) > 160 && lo > 0 {
		s = a[:20] + "…" + s
	}
	return "{" + s + "}"
}

func hashLines(l []string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, s := range l {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 0x100000001b3
		}
		h = (h ^ 10) * 0x100000001b3
	}
	return h
}

func digAttr(a osu.Attributes) string {
	return fmt.Sprintf("tot=%s aim=%s sf=%s spd=%s fl=%s n=%d c=%d s=%d p=%d mc=%d", fb(a.Total), fb(a.Aim), fb(a.SliderFactor), fb(a.Speed), fb(a.Flashlight), a.ObjectCount, a.Circles, a.Sliders, a.Spinners, a.MaxCombo)
}

func digFloats(n string, f []float64) string {
	s := fmt.Sprintf("%s[%d]:", n, len(f))
	for _, x := range f {
		s += " " + fb(x)
	}
	return s
}

func digPeaks(p osu.StrainPeaks) []string {
	return []string{digFloats("aim", p.Aim), digFloats("speed", p.Speed), digFloats("fl", p.Flashlight), digFloats("total", p.Total)}
}

func digPP(r osu.PPv2Results) string {
	return fmt.Sprintf("aim=%s spd=%s acc=%s fl=%s tot=%s", fb(r.Aim), fb(r.Speed), fb(r.Acc), fb(r.Flashlight), fb(r.Total))
}

// askTimes are the query times for a map: around its timing points and its objects.
func askTimes(tps []float64, b *beatmap.BeatMap) []float64 {
	q := append([]float64(nil), tps...)
	if b != nil {
		step := len(b.HitObjects)/20 + 1
		for i := 0; i < len(b.HitObjects); i += step {
			q = append(q, b.HitObjects[i].GetStartTime())
		}
	}
	q = append(q, -1e9, 0, 1e9)
	sort.Float64s(q)
	return q
}
