package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/beatmap/timing"
)

// The reference model: what parsing a generated map must yield, written from the meaning of the records and without
// using any code of the parser.

// Mask says which records of a map are in force (all of them for an intact file).
type Mask struct {
	Gen, Meta, Diff, Ev, TP, Obj []bool

	lostAt []float64 // times that damaged timing points may have
	lostBg bool      // a damaged event may be a background
}

// lostEvent notes what a damaged event line says.
func (k *Mask) lostEvent(line string) {
	f, _, _ := strings.Cut(line, ",")
	f = strings.TrimSpace(f)
	k.lostBg = k.lostBg || f == "0" || f == "Background"
}

// lostTP notes what a damaged timing point line says.
func (k *Mask) lostTP(line string, prefixes bool) {
	f, _, _ := strings.Cut(line, ",")
	for n := len(f); n >= 0; n-- {
		t, _ := strconv.ParseFloat(strings.TrimSpace(f[:n]), 64)
		k.lostAt = append(k.lostAt, t)
		if !prefixes {
			return
		}
	}
}

func (m *MapSpec) fullMask() *Mask {
	t := func(n int) []bool {
		b := make([]bool, n)
		for i := range b {
			b[i] = true
		}
		return b
	}
	return &Mask{Gen: t(len(m.Gen)), Meta: t(len(m.Meta)), Diff: t(len(m.Diff)), Ev: t(len(m.Events)), TP: t(len(m.TPs)), Obj: t(len(m.Objs))}
}

func (k *Mask) of(sec string) []bool {
	switch sec {
	case "General":
		return k.Gen
	case "Metadata":
		return k.Meta
	case "Difficulty":
		return k.Diff
	case "Events":
		return k.Ev
	case "TimingPoints":
		return k.TP
	case "HitObjects":
		return k.Obj
	}
	return nil
}

func feq(a, b float64) bool { return a == b || a != a && b != b }

func clamp(x, lo, hi float64) float64 {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

// ModelTP is a timing point as the model has it.
type ModelTP struct {
	Time, Raw, Base float64
	Inherited       bool
	Set, Idx, Sig   int
	Vol             float64
	Kiai, Omit      bool
	Ratio, Beat     float64 // slider velocity ratio and the beat length with it, 0 if not worked out
}

func (t *TP) model() ModelTP {
	m := ModelTP{Time: t.T, Raw: t.Beat, Sig: 4, Idx: 1, Vol: 1}
	if t.NaN {
		m.Raw = math.NaN()
	}
	if t.Cols > 2 && t.Sig != 0 {
		m.Sig = t.Sig
	}
	if t.Cols > 3 {
		m.Set = t.Set
	}
	if t.Cols > 4 {
		m.Idx = t.Idx
	}
	if t.Cols > 5 {
		m.Vol = float64(t.Vol) / 100
	}
	if t.Cols > 6 {
		m.Inherited = t.Uninh == 0
	}
	if t.Cols > 7 {
		m.Kiai = t.Fx&1 != 0
		m.Omit = t.Fx&8 != 0
	}
	return m
}

// ModelTimings is the list of points in force order.
type ModelTimings struct {
	All, Orig []ModelTP
}

func (m *MapSpec) timings(k *Mask) ModelTimings {
	var out ModelTimings
	for i := range m.TPs {
		if k == nil || k.TP[i] {
			out.All = append(out.All, m.TPs[i].model())
		}
	}
	// insertion sort: stable, and not the library's
	for i := 1; i < len(out.All); i++ {
		for j := i; j > 0 && out.All[j].Time < out.All[j-1].Time; j-- {
			out.All[j], out.All[j-1] = out.All[j-1], out.All[j]
		}
	}
	for i := range out.All {
		p := &out.All[i]
		p.Base = p.Raw
		if p.Inherited && i > 0 {
			p.Base = out.All[i-1].Base
		}
		p.Ratio = p.ratio()
		p.Beat = p.Base * p.Ratio
		if !(p.Inherited && i > 0) {
			out.Orig = append(out.Orig, *p)
		}
	}
	return out
}

func lastAt(l []ModelTP, t float64) ModelTP {
	r := l[0]
	for _, p := range l {
		if p.Time <= t {
			r = p
		}
	}
	return r
}

func (t ModelTimings) at(x float64) ModelTP     { return lastAt(t.All, x) }
func (t ModelTimings) origAt(x float64) ModelTP { return lastAt(t.Orig, x) }

func (p ModelTP) ratio() float64 {
	if p.Raw >= 0 || p.Raw != p.Raw {
		return 1
	}
	return float64(float32(clamp(-p.Raw, 10, 1000)) / 100)
}

func (p ModelTP) String() string {
	return fmt.Sprintf("t=%v raw=%v base=%v inh=%v set=%d idx=%d sig=%d vol=%v kiai=%v omit=%v ratio=%v beat=%v", p.Time, p.Raw, p.Base, p.Inherited, p.Set, p.Idx, p.Sig, p.Vol, p.Kiai, p.Omit, p.Ratio, p.Beat)
}

func realTP(c timing.ControlPoint) ModelTP {
	return ModelTP{Time: c.Time, Raw: c.GetRawBeatLength(), Base: c.GetBaseBeatLength(), Inherited: c.Inherited, Set: c.SampleSet, Idx: c.SampleIndex, Sig: c.Signature, Vol: c.SampleVolume, Kiai: c.Kiai, Omit: c.OmitFirstBarLine, Ratio: c.GetRatio(), Beat: c.GetBeatLength()}
}

func sameTP(a, b ModelTP, base bool) bool {
	return a.Time == b.Time && feq(a.Raw, b.Raw) && (!base || feq(a.Base, b.Base)) && (!base || a.Ratio == 0 || b.Ratio == 0 || feq(a.Ratio, b.Ratio) && feq(a.Beat, b.Beat)) && a.Inherited == b.Inherited && a.Set == b.Set && a.Idx == b.Idx && a.Sig == b.Sig && feq(a.Vol, b.Vol) && a.Kiai == b.Kiai && a.Omit == b.Omit
}

// velocity in osu!pixels per second.
func (p ModelTP) velocity(mult float64) float64 {
	b := p.Base * p.ratio()
	v := 100 * mult
	if b >= 0 {
		v *= 1000 / b
	}
	return v
}

func lookup(kv []KV, mask []bool, key string) (string, bool, bool) {
	val, have, lost := "", false, false
	for i, x := range kv {
		if x.K == key {
			if mask == nil || mask[i] {
				val, have = strings.TrimSpace(x.V), true
			} else {
				lost = true
			}
		}
	}
	return val, have, lost
}

func num(s string) float64 { f, _ := strconv.ParseFloat(s, 64); return f }

var defaults = map[string]float64{"HPDrainRate": 5, "CircleSize": 5, "OverallDifficulty": 5, "SliderMultiplier": 1.4, "SliderTickRate": 1, "StackLeniency": 0.7, "Mode": 0}

// checkMeta compares metadata and settings of records in force. Keys that occur in a record not in force are not judged.
func (m *MapSpec) checkMeta(b *beatmap.BeatMap, k *Mask) string {
	if k == nil {
		k = m.fullMask()
	}
	str := func(kv []KV, mask []bool, key, got string) string {
		want, have, lost := lookup(kv, mask, key)
		if lost || !have {
			return ""
		}
		if got != want {
			return fmt.Sprintf("%s is %q, the file says %q", key, trunc(got), trunc(want))
		}
		return ""
	}
	fl := func(kv []KV, mask []bool, key string, got, lo, hi float64) string {
		want, have, lost := lookup(kv, mask, key)
		if lost {
			return ""
		}
		if !have {
			// a setting the file does not have is at its default
			w, ok := defaults[key]
			if ok && !feq(got, w) {
				return fmt.Sprintf("%s is %v, the file does not set it and its default is %v", key, got, w)
			}
			return ""
		}
		w := clamp(num(want), lo, hi)
		if !feq(got, w) {
			return fmt.Sprintf("%s is %v, the file says %v", key, got, want)
		}
		return ""
	}
	in := math.Inf(1)
	res := []string{
		str(m.Meta, k.Meta, "Title", b.Title),
		str(m.Meta, k.Meta, "TitleUnicode", b.TitleUnicode),
		str(m.Meta, k.Meta, "Artist", b.Artist),
		str(m.Meta, k.Meta, "ArtistUnicode", b.ArtistUnicode),
		str(m.Meta, k.Meta, "Creator", b.Creator),
		str(m.Meta, k.Meta, "Version", b.Version),
		str(m.Meta, k.Meta, "Source", b.Source),
		str(m.Meta, k.Meta, "Tags", b.Tags),
		fl(m.Meta, k.Meta, "BeatmapID", float64(b.MapID), -in, in),
		fl(m.Meta, k.Meta, "BeatmapSetID", float64(b.SetID), -in, in),
		str(m.Gen, k.Gen, "AudioFilename", b.Audio),
		fl(m.Gen, k.Gen, "PreviewTime", float64(b.PreviewTime), -in, in),
		fl(m.Gen, k.Gen, "Mode", float64(b.Mode), -in, in),
		fl(m.Gen, k.Gen, "StackLeniency", b.StackLeniency, -in, in),
		fl(m.Diff, k.Diff, "HPDrainRate", b.Difficulty.GetHP(), 0, 10),
		fl(m.Diff, k.Diff, "CircleSize", b.Difficulty.GetCS(), 0, 10),
		fl(m.Diff, k.Diff, "OverallDifficulty", b.Difficulty.GetOD(), 0, 10),
		fl(m.Diff, k.Diff, "SliderMultiplier", b.SliderMultiplier, -in, in),
		fl(m.Diff, k.Diff, "SliderMultiplier", b.Timings.SliderMult, -in, in),
		fl(m.Diff, k.Diff, "SliderTickRate", b.Timings.TickRate, -in, in),
		fl(m.Diff, k.Diff, "ApproachRate", b.Difficulty.GetAR(), 0, 10),
	}
	_, haveAR, lostAR := lookup(m.Diff, k.Diff, "ApproachRate")
	_, _, lostOD := lookup(m.Diff, k.Diff, "OverallDifficulty")
	if !haveAR && !lostAR && !lostOD {
		// without an approach rate the overall difficulty stands in
		res = append(res, fl(m.Diff, k.Diff, "OverallDifficulty", b.Difficulty.GetAR(), 0, 10)) // or its default
	}
	for _, r := range res {
		if r != "" {
			return r
		}
	}
	return ""
}

// breaks and background of the events in force
func (m *MapSpec) events(k *Mask) (bg string, haveBg bool, pauses [][2]float64) {
	for i, e := range m.Events {
		if k != nil && !k.Ev[i] {
			continue
		}
		f := strings.Split(e, ",")
		switch f[0] {
		case "0", "Background":
			bg, haveBg = strings.Trim(f[2], "\""), true
		case "2", "Break":
			pauses = append(pauses, [2]float64{num(f[1]), num(f[2])})
		}
	}
	return
}

func (m *MapSpec) checkEvents(b *beatmap.BeatMap, k *Mask, lost int) string {
	bg, have, p := m.events(k)
	if (lost == 0 || k != nil && !k.lostBg) && have && b.Bg != bg {
		return fmt.Sprintf("background is %q, the file says %q", b.Bg, bg)
	}
	j := 0
	for i := range b.Pauses {
		if j < len(p) && feq(b.Pauses[i].GetStartTime(), p[j][0]) && feq(b.Pauses[i].GetEndTime(), p[j][1]) && feq(b.Pauses[i].Length(), p[j][1]-p[j][0]) {
			j++
		}
	}
	if j < len(p) {
		return fmt.Sprintf("break %v is missing or changed (%d of %d found)", p[j], j, len(p))
	}
	if len(b.Pauses)-len(p) > lost {
		return fmt.Sprintf("%d breaks, the file has %d", len(b.Pauses), len(p))
	}
	return ""
}

// checkTimings compares the timing points in force at and around every point's time.
func (m *MapSpec) checkTimings(b *beatmap.BeatMap, k *Mask, lost int) string {
	mt := m.timings(k)
	if len(mt.All) == 0 {
		return ""
	}
	lo, hi := math.Inf(1), 0.0
	for _, p := range mt.All {
		if p.Raw >= 0 {
			lo, hi = math.Min(lo, 60000/p.Raw), math.Max(hi, 60000/p.Raw)
		}
	}
	if lost > 0 {
		if !(b.MinBPM <= lo && b.MaxBPM >= hi) {
			return fmt.Sprintf("BPM range is %v to %v, that of the intact points is %v to %v", b.MinBPM, b.MaxBPM, lo, hi)
		}
	} else {
		if b.MinBPM != lo || b.MaxBPM != hi {
			return fmt.Sprintf("BPM range is %v to %v, the file's is %v to %v", b.MinBPM, b.MaxBPM, lo, hi)
		}
	}
	for _, p := range mt.All {
		for _, q := range []float64{p.Time, p.Time - 0.25, p.Time + 0.25} {
			want := mt.at(q)
			got := realTP(b.Timings.GetPointAt(q))
			if lost == 0 {
				if !sameTP(got, want, true) {
					return fmt.Sprintf("timing point in force at %v is {%v}, the file says {%v}", q, got, want)
				}
				if len(mt.Orig) > 0 {
					want = mt.origAt(q)
					got = realTP(b.Timings.GetOriginalPointAt(q))
					if !sameTP(got, want, true) {
						return fmt.Sprintf("uninherited timing point in force at %v is {%v}, the file says {%v}", q, got, want)
					}
				}
				continue
			}
			// a damaged point may have moved anywhere, but the intact ones are still found where no damaged one lies
			hidden, before := false, false
			for _, t := range k.lostAt {
				hidden = hidden || t <= math.Max(q, want.Time) && (t >= want.Time || q < want.Time)
				before = before || !(t > want.Time)
			}
			if !hidden && !sameTP(got, want, !before) {
				return fmt.Sprintf("timing point in force at %v is {%v}, the intact records say {%v}", q, got, want)
			}
		}
	}
	return ""
}

// RawObj is the part of a hit object that depends on its own line only.
type RawObj struct {
	Kind    objects.Type
	Start   float64
	End     float64 // spinners
	X, Y    float32
	New     bool
	Color   int
	Reps    int64
	Sounds  string
	Spec    int
	Special bool // spinner
}

func (o *Obj) raw(i int) (RawObj, bool) {
	r := RawObj{Start: o.T, X: float32(o.X), Y: float32(o.Y), New: o.Flags&4 != 0, Color: o.Flags >> 4 & 7, Spec: i}
	switch o.Kind {
	case "c":
		r.Kind = objects.CIRCLE
		r.Sounds = fmt.Sprint([]int{o.Sound})
	case "p":
		r.Kind, r.End, r.Special = objects.SPINNER, float64(o.End), true
		r.Sounds = fmt.Sprint([]int{o.Sound})
	case "s":
		r.Kind, r.Reps = objects.SLIDER, int64(o.Reps)
		s := make([]int, o.Reps+1)
		for j := range s {
			s[j] = o.Sound
			if j < len(o.Edges) {
				s[j] = o.Edges[j]
			}
		}
		r.Sounds = fmt.Sprint(s)
	default:
		return r, false
	}
	return r, true
}

// rawObjs is the expected object list, in stable time order.
func (m *MapSpec) rawObjs(k *Mask) []RawObj {
	var out []RawObj
	for i := range m.Objs {
		if k != nil && !k.Obj[i] {
			continue
		}
		if r, ok := m.Objs[i].raw(i); ok {
			out = append(out, r)
		}
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].Start < out[j-1].Start; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func realRaw(o objects.IHitObject) RawObj {
	p := o.GetStartPosition()
	r := RawObj{Kind: o.GetType(), Start: o.GetStartTime(), X: p.X, Y: p.Y, Color: o.GetColorOffset(), New: o.IsNewCombo()}
	var s []int
	for _, x := range o.GetSounds() {
		s = append(s, int(x))
	}
	r.Sounds = fmt.Sprint(s)
	switch x := o.(type) {
	case *objects.Slider:
		r.Reps = x.RepeatCount
	case *objects.Spinner:
		r.End = o.GetEndTime()
	}
	return r
}

func (r RawObj) key() string {
	return fmt.Sprintf("%d@%v(%v,%v) end=%v reps=%d col=%d snd=%s", r.Kind, r.Start, r.X, r.Y, r.End, r.Reps, r.Color, r.Sounds)
}

// checkObjs compares the parsed objects with those in force; up to extra unexpected ones are allowed. It returns the spec
// index for each parsed object (-1 for unexpected ones).
func (m *MapSpec) checkObjs(b *beatmap.BeatMap, k *Mask, extra int) ([]int, string) {
	want := m.rawObjs(k)
	idx := make([]int, len(b.HitObjects))
	j := 0
	for i, o := range b.HitObjects {
		idx[i] = -1
		if o == nil {
			return nil, fmt.Sprintf("hit object %d is nil", i)
		}
		if j < len(want) && realRaw(o).key() == want[j].key() {
			idx[i] = want[j].Spec
			j++
		}
	}
	if j < len(want) {
		return nil, fmt.Sprintf("hit object {%s} (record %d) is missing or changed: %d of %d found in order, %d parsed", trunc(want[j].key()), want[j].Spec, j, len(want), len(b.HitObjects))
	}
	if len(b.HitObjects)-len(want) > extra {
		return nil, fmt.Sprintf("%d hit objects parsed, the file has %d", len(b.HitObjects), len(want))
	}
	if extra == 0 {
		if s := comboRules(b, func(i int) bool { return m.Objs[idx[i]].Flags&4 != 0 }); s != "" {
			return nil, s
		}
		ci, sl, sp := 0, 0, 0
		last := 0.0
		for i := range m.Objs {
			if k != nil && !k.Obj[i] {
				continue
			}
			t := m.Objs[i].T
			if o := &m.Objs[i]; o.Kind == "p" || o.Kind == "m" {
				t = float64(o.End)
			}
			last = math.Max(last, t)
			switch m.Objs[i].Kind {
			case "c":
				ci++
			case "p":
				sp++
			default:
				sl++
			}
		}
		if b.Circles != ci || b.Sliders != sl || b.Spinners != sp {
			return nil, fmt.Sprintf("counts are %d/%d/%d, the file has %d circles, %d sliders and hold notes, %d spinners", b.Circles, b.Sliders, b.Spinners, ci, sl, sp)
		}
		if float64(b.Length) != math.Floor(last) {
			return nil, fmt.Sprintf("length is %d, the last object of the file is at %v", b.Length, last)
		}
	}
	return idx, ""
}

func comboOf(o objects.IHitObject) (num int, ok bool) {
	switch x := o.(type) {
	case *objects.Circle:
		return x.ComboNumber, true
	case *objects.Slider:
		return x.ComboNumber, true
	case *objects.Spinner:
		return x.ComboNumber, true
	}
	return 0, false
}

// comboRules recomputes combo numbers and sets; marked, if given, is the new-combo mark of the object's own record.
func comboRules(b *beatmap.BeatMap, marked func(i int) bool) string {
	number, set, hax := 1, 0, 0
	force := false
	for i, o := range b.HitObjects {
		if o.GetID() != i {
			return fmt.Sprintf("hit object %d is numbered %d", i, o.GetID())
		}
		if o.GetType() == objects.SPINNER {
			force = true
		} else {
			nc := o.IsNewCombo()
			if marked != nil {
				nc = marked(i) || force
				if o.IsNewCombo() != nc {
					return fmt.Sprintf("hit object %d: new combo is %v, the rules say %v", i, o.IsNewCombo(), nc)
				}
			}
			if force && !nc {
				return fmt.Sprintf("hit object %d follows a spinner but does not start a new combo", i)
			}
			if nc {
				number = 1
				set++
				hax += o.GetColorOffset() + 1
				force = false
			}
		}
		cn, ok := comboOf(o)
		if ok && cn != number || o.GetComboSet() != set || o.GetComboSetHax() != hax {
			return fmt.Sprintf("hit object %d: combo number %d set %d (%d with colour skips), the rules say %d, %d (%d)", i, cn, o.GetComboSet(), o.GetComboSetHax(), number, set, hax)
		}
		number++
	}
	return ""
}

// checkAll compares a parsed beatmap with an intact spec.
func (m *MapSpec) checkAll(b *beatmap.BeatMap) string {
	if b.FileVersion != m.Version {
		return fmt.Sprintf("file version is %d, the file says %d", b.FileVersion, m.Version)
	}
	if s := m.checkMeta(b, nil); s != "" {
		return s
	}
	if s := m.checkEvents(b, nil, 0); s != "" {
		return s
	}
	if s := m.checkTimings(b, nil, 0); s != "" {
		return s
	}
	_, s := m.checkObjs(b, nil, 0)
	return s
}

// tpTimes are the times worth asking the timings about.
func (m *MapSpec) tpTimes() []float64 {
	var q []float64
	for i := range m.TPs {
		q = append(q, m.TPs[i].T)
	}
	sort.Float64s(q)
	return q
}

func trunc(s string) string {
	if len(s) > 120 {
		return s[:60] + "…" + s[len(s)-40:]
	}
	return s
}
