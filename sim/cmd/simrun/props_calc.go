package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/performance/osu"
	"gosusim/simrt"
)

func sanePeaks(p osu.StrainPeaks) string {
	for i, l := range [][]float64{p.Aim, p.Speed, p.Flashlight, p.Total} {
		for j, x := range l {
			if !fin(x) {
				return fmt.Sprintf("%s peak %d is %v", []string{"aim", "speed", "flashlight", "total"}[i], j, x)
			}
		}
	}
	return ""
}

func saneAttr(a osu.Attributes) string {
	for i, x := range []float64{a.Total, a.Aim, a.SliderFactor, a.Speed, a.Flashlight} {
		if !fin(x) {
			return fmt.Sprintf("%s is %v", []string{"total", "aim", "slider factor", "speed", "flashlight"}[i], x)
		}
	}
	return ""
}

func ratingsSane(b *beatmap.BeatMap, d *difficulty.Difficulty, step bool) string {
	a, p := osu.CalculateSingleWithPeaks(b.HitObjects, d)
	if s := saneAttr(a); s != "" {
		return s
	}
	if s := sanePeaks(p); s != "" {
		return s
	}
	var want osu.Attributes
	for _, o := range b.HitObjects {
		want.ObjectCount++
		want.MaxCombo++
		switch x := o.(type) {
		case *objects.Circle:
			want.Circles++
		case *objects.Slider:
			want.Sliders++
			want.MaxCombo += len(x.ScorePoints)
		case *objects.Spinner:
			want.Spinners++
		}
	}
	if a.ObjectCount != want.ObjectCount || a.MaxCombo != want.MaxCombo || a.Circles != want.Circles || a.Sliders != want.Sliders || a.Spinners != want.Spinners {
		return fmt.Sprintf("counts %d (%d/%d/%d) combo %d, the map has %d (%d/%d/%d) combo %d", a.ObjectCount, a.Circles, a.Sliders, a.Spinners, a.MaxCombo, want.ObjectCount, want.Circles, want.Sliders, want.Spinners, want.MaxCombo)
	}
	if step {
		for i, x := range osu.CalculateStep(b.HitObjects, d) {
			if s := saneAttr(x); s != "" {
				return fmt.Sprintf("after object %d: %s", i, s)
			}
		}
	}
	return ""
}

// mustParse parses a map for use by a calculation scenario.
func (c *Ctx) mustParse(m *MapSpec) (*beatmap.BeatMap, *Violation) {
	p := c.parseBytes(m.Bytes(), 0)
	if v := p.out.bad(); v != nil {
		return nil, v
	}
	if p.err != nil {
		return nil, viol("rejected", "a valid map is rejected: %v", p.err)
	}
	return p.bm, nil
}

func calcCfg(r *Rng) GenCfg {
	c := GenCfg{MinObjs: 1, MaxObjs: 25, Wild: r.P(0.3)}
	switch r.N(10) {
	case 0:
		c.MinObjs, c.MaxObjs = 40, 90
	case 1:
		c.MinObjs, c.MaxObjs = 1, 3
	case 2, 3:
		c.MinObjs, c.MaxObjs = 10, 40
	}
	return c
}

func genSched(r *Rng) Sched {
	return Sched{Seed: r.U64(), Mean: int32(r.PickI(3, 20, 100, 400, 2000, 10000, 60000))}
}

// ---- C07

func genC07(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{Maps: []MapSpec{GenMap(r, calcCfg(r))}, Sched: genSched(r)}
	if run%400 == 13 {
		sc.Maps = []MapSpec{{Corpus: pickCorpus(r)}}
		sc.Sched.Mean = 60000
	}
	for i := r.Range(1, 3); i > 0; i-- {
		sc.Diffs = append(sc.Diffs, genDiff(r))
	}
	if r.P(0.3) {
		sc.Kind = "shared"
	}
	n := r.PickI(2, 2, 3, 3, 4, 6)
	mix := r.N(3)
	first := genCalcOp(r, 1, len(sc.Diffs))
	for i := 0; i < n; i++ {
		var cl Client
		for k := r.PickI(1, 1, 2, 3); k > 0; k-- {
			op := genCalcOp(r, 1, len(sc.Diffs))
			if mix == 0 {
				// the same kind of calculation everywhere
				op.K, op.S, op.Q = first.K, first.S, first.Q
			}
			if sc.Maps[0].Corpus != "" {
				op.K = r.Pick([]string{"single", "peaks", "query"})
				op.N = r.Range(20, 200)
				if op.K == "query" {
					op.Q = []float64{0.1, 0.5}
				}
			}
			cl.Ops = append(cl.Ops, op)
		}
		sc.Clients = append(sc.Clients, cl)
	}
	return sc
}

func runC07(sc *Scenario, c *Ctx) *Violation {
	m := &sc.Maps[0]
	simrt.Reset()
	b, v := c.mustParse(m)
	if v != nil {
		return v
	}
	shared := make([]*difficulty.Difficulty, len(sc.Diffs))
	for i := range sc.Diffs {
		shared[i] = diffFor(&sc.Diffs[i], b)
	}
	if sc.Kind == "shared" && len(sc.Diffs) > 0 {
		// one caller-owned setting is the map's own object
		b.Difficulty.SetMods(difficulty.Modifier(sc.Diffs[0].Mods))
		shared[0] = b.Difficulty
	}
	var fns []func()
	res := make([][][]string, len(sc.Clients))
	for i := range sc.Clients {
		cl := &sc.Clients[i]
		res[i] = make([][]string, len(cl.Ops))
		out := res[i]
		own := i%2 == 1
		fns = append(fns, func() {
			for j := range cl.Ops {
				op := &cl.Ops[j]
				d := shared[op.D%len(shared)]
				if own && sc.Kind != "shared" {
					d = diffFor(&sc.Diffs[op.D%len(sc.Diffs)], b)
				}
				out[j] = doCalc(op, b, d)
			}
		})
	}
	r := c.main(sc, 0, fns...)
	c.count("clients", int64(len(fns)))
	c.count("preemptions", int64(r.Preempts))
	if v := runBad(r); v != nil {
		return v
	}
	for i := range sc.Clients {
		for j := range sc.Clients[i].Ops {
			op := &sc.Clients[i].Ops[j]
			simrt.Reset()
			fb, v := c.mustParse(m)
			if v != nil {
				return v
			}
			var d *difficulty.Difficulty
			ds := &sc.Diffs[op.D%len(sc.Diffs)]
			if sc.Kind == "shared" && op.D%len(sc.Diffs) == 0 {
				fb.Difficulty.SetMods(difficulty.Modifier(ds.Mods))
				d = fb.Difficulty
			} else {
				d = diffFor(ds, fb)
			}
			var want []string
			o := c.solo(0, func() { want = doCalc(op, fb, d) })
			if v := o.bad(); v != nil {
				return v
			}
			if s := diffLines(res[i][j], want); s != "" {
				return viol("interference", "client %d, call %d (%s) among %d clients: %s", i, j, op.K, len(sc.Clients), s)
			}
			c.mix(hashLines(want))
		}
	}
	c.Trivial = r.Preempts == 0
	c.Key = r.SchedHash
	return nil
}

// ---- C08

func genC08(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{Sched: genSched(r)}
	nm := r.Range(1, 3)
	for i := 0; i < nm; i++ {
		c := swarm(r)
		if c.MaxObjs > 30 {
			c.MinObjs, c.MaxObjs = 1, 30
		}
		c.LongLines = r.P(0.05)
		m := GenMap(r, c)
		m.Enc = r.Pick([]string{"utf8", "utf8", "utf8bom", "utf16le", "utf16be"})
		sc.Maps = append(sc.Maps, m)
		var fs []Fault
		if r.P(0.3) {
			fs = genFaults(r, &m)
		}
		sc.Faults = append(sc.Faults, fs)
	}
	n := r.PickI(1, 2, 2, 3, 3, 4)
	for i := 0; i < n; i++ {
		var cl Client
		for k := r.PickI(1, 1, 2, 3); k > 0; k-- {
			op := Op{K: "parse", M: r.N(nm), Del: len(sc.Del)}
			size := len(sc.Maps[op.M].Bytes())
			d := genDelivery(r, size)
			if d.Mode == "one" && r.P(0.8) {
				d.Mode = "mixed"
			}
			switch r.N(7) {
			case 0:
				d.Fail, d.Err, d.FailWith = r.N(size+1)+1, r.Pick(errKinds), r.P(0.5)
			case 1:
				d.Panic = r.N(size+1) + 1
			case 2:
				op.K = "parsebytes"
			}
			sc.Del = append(sc.Del, d)
			cl.Ops = append(cl.Ops, op)
		}
		sc.Clients = append(sc.Clients, cl)
	}
	return sc
}

func runC08(sc *Scenario, c *Ctx) *Violation {
	files := make([][]byte, len(sc.Maps))
	for i := range sc.Maps {
		var fs []Fault
		if i < len(sc.Faults) {
			fs = sc.Faults[i]
		}
		files[i] = damage(&sc.Maps[i], fs, c.Counts)
		if workEstimate(files[i]) > 2e5 {
			c.count("skipped_enormous_but_finite", 1)
			c.Trivial = true
			return nil
		}
	}
	type result struct {
		bm  *beatmap.BeatMap
		err string
		pan string
		st  readerStats
	}
	do := func(op *Op) (res result) {
		var d Delivery
		if op.Del < len(sc.Del) {
			d = sc.Del[op.Del]
		}
		data := files[op.M%len(files)]
		defer func() {
			if r := recover(); r != nil {
				res.pan = fmt.Sprint(r)
			}
		}()
		var err error
		if op.K == "parsebytes" {
			res.bm, err = beatmap.ParseFromByte(data)
		} else {
			rd := newReader(data, d)
			defer func() { res.st = rd.st }()
			res.bm, err = beatmap.ParseFromReader(wrapReader(rd, d))
		}
		if err != nil {
			res.err = err.Error()
		}
		return
	}
	show := func(r *result, ask []float64) []string {
		return append([]string{"err=" + r.err, "panic=" + r.pan}, digMap(r.bm, ask, true)...)
	}
	simrt.Reset()
	res := make([][]result, len(sc.Clients))
	var fns []func()
	for i := range sc.Clients {
		cl := &sc.Clients[i]
		res[i] = make([]result, len(cl.Ops))
		out := res[i]
		fns = append(fns, func() {
			for j := range cl.Ops {
				out[j] = do(&cl.Ops[j])
			}
		})
	}
	r := c.main(sc, 0, fns...)
	c.count("clients", int64(len(fns)))
	c.count("preemptions", int64(r.Preempts))
	if v := runBad(r); v != nil {
		return v
	}
	var maps []*beatmap.BeatMap
	var digs [][]string
	var asks [][]float64
	total := 0
	for i := range sc.Clients {
		for j := range sc.Clients[i].Ops {
			op := &sc.Clients[i].Ops[j]
			total++
			c.readerCounts(res[i][j].st)
			simrt.Reset()
			var ref result
			o := c.solo(0, func() { ref = do(op) })
			if v := o.bad(); v != nil {
				return v
			}
			ask := askTimes(sc.Maps[op.M%len(sc.Maps)].tpTimes(), ref.bm)
			want := show(&ref, ask)
			if s := diffLines(show(&res[i][j], ask), want); s != "" {
				return viol("interference", "client %d, parse %d among %d clients: %s", i, j, len(sc.Clients), s)
			}
			c.mix(hashLines(want))
			if res[i][j].bm != nil {
				maps, digs, asks = append(maps, res[i][j].bm), append(digs, digMap(res[i][j].bm, ask, true)), append(asks, ask)
			}
		}
	}
	// independence: change each map through its API, the others stay
	for i := range maps {
		scrambleMap(maps[i], i)
		for j := i + 1; j < len(maps); j++ {
			if s := diffLines(digMap(maps[j], asks[j], true), digs[j]); s != "" {
				return viol("shared state", "changing one beatmap changed another: %s", s)
			}
		}
	}
	c.Trivial = total < 2
	c.Key = r.SchedHash ^ uint64(total)
	return nil
}

// scrambleMap changes everything the exported API lets one change.
func scrambleMap(b *beatmap.BeatMap, salt int) {
	b.Title, b.Artist, b.Mode, b.StackLeniency = "changed", "changed", 3, 9
	b.Difficulty.SetAR(0.5)
	b.Difficulty.SetCS(9.5)
	b.Difficulty.SetMods(difficulty.HardRock | difficulty.DoubleTime)
	b.Timings.SliderMult *= 3
	b.Timings.TickRate += 7
	b.Timings.AddPoint(-1e6, 123, 1, 1, 1, 4, false, false, false)
	b.Timings.AddPoint(1e5, 321, 1, 1, 1, 4, false, false, false)
	b.Timings.FinalizePoints()
	for _, p := range b.Pauses {
		p.StartTime, p.EndTime = 1, 2
	}
	b.Pauses = append(b.Pauses[:0], &beatmap.Pause{})
	for i, o := range b.HitObjects {
		o.SetID(-1)
		o.SetComboNumber(1000)
		o.SetComboSet(1000)
		o.SetComboSetHax(1000)
		o.SetNewCombo(!o.IsNewCombo())
		for _, m := range stackMods {
			o.SetStackIndex(77, m)
			o.SetStackOffset(77, m)
		}
		for k := range o.GetSounds() {
			o.GetSounds()[k] = 99
		}
		if s, ok := o.(*objects.Slider); ok {
			for k := range s.ScorePoints {
				s.ScorePoints[k].Time = -1
			}
			_ = append(s.ScorePoints, objects.TickPoint{Time: 5})
			s.StartTime += 17
			s.RepeatCount = 1
		}
		if ci, ok := o.(*objects.Circle); ok {
			ci.StartPosRaw.X = float32(i)
			ci.StartTime = 3
		}
		o.SetDifficulty(b.Difficulty)
	}
	for i := range b.HitObjects {
		b.HitObjects[i] = nil
	}
	b.HitObjects = append(b.HitObjects[:0], nil, nil)
}

// ---- C09

var histKinds = []string{"calc", "calc", "calc", "own", "setdiff", "update", "playquery", "reparse"}

func genC09(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{Sched: genSched(r)}
	nm := r.PickI(1, 1, 2, 3)
	for i := 0; i < nm; i++ {
		c := calcCfg(r)
		if c.MaxObjs > 40 {
			c.MaxObjs = 40
		}
		sc.Maps = append(sc.Maps, GenMap(r, c))
	}
	if run%600 == 17 {
		sc.Maps = []MapSpec{{Corpus: pickCorpus(r)}}
		nm = 1
	}
	for i := r.Range(1, 3); i > 0; i-- {
		sc.Diffs = append(sc.Diffs, genDiff(r))
	}
	n := r.Range(3, 14)
	if sc.Maps[0].Corpus != "" {
		n = 4
	}
	long := run%50 == 21 && sc.Maps[0].Corpus == ""
	if long {
		n = r.Range(100, 400) // long histories, for state that fills up
	}
	var cl Client
	for i := 0; i < n; i++ {
		op := genCalcOp(r, nm, len(sc.Diffs))
		if k := r.Pick(histKinds); k != "calc" {
			op = Op{K: k, M: r.N(nm), D: r.N(len(sc.Diffs)), N: r.N(1000), Mods: genMods(r), V: round(r.FR(0, 10), 1), T: r.FR(-1, 2)}
			if k == "own" {
				op.S = []int{r.N(6)}
			}
		}
		if sc.Maps[0].Corpus != "" && (op.K == "step" || op.K == "step+peaks") {
			op.K, op.N = "step", r.Range(30, 120)
		}
		if long {
			op.N = r.Range(1, 12)
		}
		cl.Ops = append(cl.Ops, op)
	}
	// end with something that was done before
	if r.P(0.5) {
		cl.Ops = append(cl.Ops, cl.Ops[r.N(len(cl.Ops))])
	}
	sc.Clients = []Client{cl}
	return sc
}

func ownChange(b *beatmap.BeatMap, op *Op) {
	switch op.S[0] {
	case 0:
		b.Difficulty.SetHP(op.V)
	case 1:
		b.Difficulty.SetCS(op.V)
	case 2:
		b.Difficulty.SetOD(op.V)
	case 3:
		b.Difficulty.SetAR(op.V)
	case 4:
		b.Difficulty.SetMods(difficulty.Modifier(op.Mods))
	case 5:
		b.Difficulty.SetCustomSpeed(0.5 + op.V/5)
	}
}

func runC09(sc *Scenario, c *Ctx) *Violation {
	simrt.Reset()
	maps := make([]*beatmap.BeatMap, len(sc.Maps))
	digs := make([][]string, len(sc.Maps))
	asks := make([][]float64, len(sc.Maps))
	own := make([][]Op, len(sc.Maps)) // settings changes made so far on each map's own settings
	for i := range sc.Maps {
		b, v := c.mustParse(&sc.Maps[i])
		if v != nil {
			return v
		}
		maps[i] = b
		asks[i] = askTimes(sc.Maps[i].tpTimes(), b)
		digs[i] = digMap(b, asks[i], false)
	}
	if len(sc.Clients) == 0 {
		return nil
	}
	ops := sc.Clients[0].Ops
	calcs := 0
	type done struct {
		op   *Op
		own  []Op
		got  []string
		i    int
		ownD bool
	}
	var hist []done
	for i := range ops {
		op := &ops[i]
		mi := op.M % len(maps)
		b := maps[mi]
		ds := &sc.Diffs[op.D%len(sc.Diffs)]
		var got []string
		isCalc := false
		ownD := false
		o := c.solo(0, func() {
			switch op.K {
			case "own":
				ownChange(b, op)
				own[mi] = append(own[mi], *op)
			case "setdiff":
				d := diffFor(ds, b)
				for _, x := range b.HitObjects {
					x.SetDifficulty(d)
				}
			case "update":
				for k, x := range b.HitObjects {
					x.Update(x.GetStartTime() + float64(k%5)*100*op.T)
				}
			case "playquery":
				for _, x := range b.HitObjects {
					t := x.GetStartTime() + op.T*(x.GetDuration()+50)
					x.GetPositionAt(t)
					x.GetStackedPositionAtMod(t, difficulty.Modifier(op.Mods))
					b.Timings.GetPointAt(t)
				}
				_, _, _ = b.Difficulty.GetModifiedTime(op.T), b.Difficulty.CheckModActive(difficulty.Easy), difficulty.Modifier(op.Mods).String()
			case "reparse":
				beatmap.ParseFromByte(sc.Maps[mi].Bytes())
			default:
				isCalc = true
				d := diffFor(ds, b)
				if op.D%3 == 2 {
					d, ownD = b.Difficulty, true
				}
				before := digDiff(d)
				got = doCalc(op, b, d)
				if after := digDiff(d); after != before {
					got = append(got, "the calculation changed the settings: "+around(after, before))
				}
			}
		})
		if v := o.bad(); v != nil {
			return v
		}
		c.count("op_"+op.K, 1)
		if i%8 == 7 || i == len(ops)-1 || len(ops) < 20 {
			for k := range maps {
				if s := diffLines(digMap(maps[k], asks[k], false), digs[k]); s != "" {
					return viol("changed", "after call %d (%s on map %d), map %d: %s", i, op.K, mi, k, s)
				}
			}
		}
		if isCalc {
			calcs++
			hist = append(hist, done{op, append([]Op(nil), own[mi]...), got, i, ownD})
		}
	}
	if len(hist) > 24 {
		// judge a sample, always including the last ones
		keep := hist[len(hist)-12:]
		step := (len(hist) - 12) / 12
		for k := 0; k < 12; k++ {
			keep = append(keep, hist[k*step])
		}
		hist = keep
	}
	for k := range hist {
		h := &hist[k]
		mi := h.op.M % len(maps)
		simrt.Reset()
		fb, v := c.mustParse(&sc.Maps[mi])
		if v != nil {
			return v
		}
		var want []string
		o := c.solo(0, func() {
			for q := range h.own {
				ownChange(fb, &h.own[q])
			}
			d := fb.Difficulty
			if !h.ownD {
				d = diffFor(&sc.Diffs[h.op.D%len(sc.Diffs)], fb)
			}
			want = doCalc(h.op, fb, d)
		})
		if v := o.bad(); v != nil {
			return v
		}
		if s := diffLines(h.got, want); s != "" {
			return viol("history", "call %d (%s on map %d) after %d earlier calls: %s", h.i, h.op.K, mi, h.i, s)
		}
		c.mix(hashLines(want))
	}
	c.Trivial = calcs < 2
	c.Key = c.Hash
	return nil
}

// ---- C10

// c10Kinds are the calculations made with a setting that keeps changing.
var c10Kinds = []string{"single", "step", "peaks", "pp", "single+peaks", "step+peaks"}

func c10Calc(n int, objs []objects.IHitObject, d *difficulty.Difficulty) []string {
	k := c10Kinds[mod(n, len(c10Kinds))]
	if k != "pp" {
		return calc(k, objs, d)
	}
	pp := &osu.PPv2{}
	a := osu.CalculateSingle(objs, d)
	ret := ppRun(pp, a, []int{-1, -1, 1, 0, 1}, d)
	return []string{digAttr(a), digPP(ret.Results), digPP(pp.Results)}
}

func genC10(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{Sched: genSched(r)}
	if run%8 == 3 {
		c := calcCfg(r)
		c.MaxObjs = 12
		if c.MinObjs > 5 {
			c.MinObjs = 5
		}
		sc.Maps = []MapSpec{GenMap(r, c)}
	}
	n := r.PickI(1, 2, 2, 3)
	for i := 0; i < n; i++ {
		sc.Diffs = append(sc.Diffs, DiffSpec{HP: round(r.FR(0, 10), 1), CS: round(r.FR(0, 10), 1), OD: round(r.FR(0, 10), 1), AR: round(r.FR(0, 10), 1)})
		var cl Client
		last := r.U64()
		for k := r.PickI(r.Range(1, 6), r.Range(5, 30), r.Range(30, 120)); k > 0; k-- {
			op := Op{K: r.Pick([]string{"hp", "cs", "od", "ar", "mods", "mods", "speed", "query", "check"})}
			if r.P(0.2) && len(sc.Maps) > 0 {
				op.K = "calc"
				op.N = r.N(len(c10Kinds))
			}
			op.V = r.PickF(round(r.FR(0, 10), 1), float64(r.N(11)), 5, 5.0000001, round(r.FR(-3, 13), 2))
			op.Mods = genMods(r)
			if op.K == "mods" && r.P(0.2) {
				op.Mods = int64(last)
			}
			if op.K == "speed" {
				op.V = r.PickF(1, 1, 1.5, 0.75, 0.5, 2, round(r.FR(0.1, 4), 3))
			}
			last = uint64(op.Mods)
			cl.Ops = append(cl.Ops, op)
		}
		sc.Clients = append(sc.Clients, cl)
	}
	return sc
}

// baseSettings are the values a difficulty was last set to.
type baseSettings struct {
	hp, cs, od, ar, speed float64
	mods                  int64
}

// unmodded gives a difficulty with the changes that the mods stand for made to the settings instead.
func (s baseSettings) unmodded() *difficulty.Difficulty {
	m := difficulty.Modifier(s.mods)
	if m&difficulty.HardRock != 0 {
		s.hp, s.cs, s.od, s.ar = math.Min(s.hp*1.4, 10), math.Min(s.cs*1.3, 10), math.Min(s.od*1.4, 10), math.Min(s.ar*1.4, 10)
	}
	if m&difficulty.Easy != 0 {
		s.hp, s.cs, s.od, s.ar = s.hp/2, s.cs/2, s.od/2, s.ar/2
	}
	switch {
	case m&difficulty.DoubleTime != 0:
		s.speed *= 1.5
	case m&difficulty.HalfTime != 0:
		s.speed *= 0.75
	}
	d := difficulty.NewDifficulty(s.hp, s.cs, s.od, s.ar)
	d.SetMods(m &^ (difficulty.HardRock | difficulty.Easy | difficulty.DoubleTime | difficulty.HalfTime))
	d.SetCustomSpeed(s.speed)
	return d
}

func sameDerived(a, b *difficulty.Difficulty) string {
	for _, x := range []struct {
		what string
		a, b float64
	}{
		{"approach time", a.Preempt, b.Preempt}, {"circle radius", a.CircleRadius, b.CircleRadius}, {"50 window", a.Hit50, b.Hit50},
		{"100 window", a.Hit100, b.Hit100}, {"300 window", a.Hit300, b.Hit300}, {"drain", a.HPMod, b.HPMod}, {"spinner ratio", a.SpinnerRatio, b.SpinnerRatio},
		{"speed", a.Speed, b.Speed}, {"effective approach rate", a.ARReal, b.ARReal}, {"effective overall difficulty", a.ODReal, b.ODReal},
		{"modified time", a.GetModifiedTime(1000), b.GetModifiedTime(1000)},
	} {
		if !near(x.a, x.b) {
			return fmt.Sprintf("%s %v, and %v when the settings are changed in place of the mods", x.what, x.a, x.b)
		}
	}
	return ""
}

func runC10(sc *Scenario, c *Ctx) *Violation {
	simrt.Reset()
	var b *beatmap.BeatMap
	if len(sc.Maps) > 0 {
		var v *Violation
		if b, v = c.mustParse(&sc.Maps[0]); v != nil {
			return v
		}
	}
	// copies that no calculation has touched, one for each caller's last comparison
	var clean []*beatmap.BeatMap
	for range sc.Clients {
		if len(sc.Maps) > 0 {
			cb, v := c.mustParse(&sc.Maps[0])
			if v != nil {
				return v
			}
			clean = append(clean, cb)
		}
	}
	bad := make([]*Violation, len(sc.Clients))
	var fns []func()
	var keys = make([]uint64, len(sc.Clients))
	for i := range sc.Clients {
		cl := &sc.Clients[i]
		ds := sc.Diffs[i%len(sc.Diffs)]
		i := i
		fns = append(fns, func() {
			d := difficulty.NewDifficulty(ds.HP, ds.CS, ds.OD, ds.AR)
			s := baseSettings{ds.HP, ds.CS, ds.OD, ds.AR, 1, 0}
			for j := range cl.Ops {
				op := &cl.Ops[j]
				switch op.K {
				case "hp":
					d.SetHP(op.V)
					s.hp = op.V
				case "cs":
					d.SetCS(op.V)
					s.cs = op.V
				case "od":
					d.SetOD(op.V)
					s.od = op.V
				case "ar":
					d.SetAR(op.V)
					s.ar = op.V
				case "mods":
					d.SetMods(difficulty.Modifier(op.Mods))
					s.mods = op.Mods
				case "speed":
					d.SetCustomSpeed(op.V)
					s.speed = op.V
				case "query":
					d.GetModifiedTime(op.V * 100)
				case "check":
					d.CheckModActive(difficulty.Modifier(op.Mods))
				case "calc":
					if b != nil {
						c10Calc(op.N, b.HitObjects, d)
					}
				}
				if d.GetHP() != s.hp || d.GetCS() != s.cs || d.GetOD() != s.od || d.GetAR() != s.ar || int64(d.Mods) != s.mods || d.CustomSpeed != s.speed {
					bad[i] = viol("settings", "after change %d (%s) the settings read back as HP %v CS %v OD %v AR %v mods %d speed %v instead of %+v", j, op.K, d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR(), int64(d.Mods), d.CustomSpeed, s)
					return
				}
				f := difficulty.NewDifficulty(s.hp, s.cs, s.od, s.ar)
				if s.speed != 1 && j%2 == 0 {
					f.SetCustomSpeed(s.speed)
				}
				if s.mods != 0 {
					f.SetMods(difficulty.Modifier(s.mods))
				}
				if s.speed != 1 && j%2 == 1 {
					f.SetCustomSpeed(s.speed)
				}
				got, want := digDiff(d), digDiff(f)
				if got != want {
					bad[i] = viol("derived", "after change %d (%s) the settings %+v derive %s", j, op.K, s, diffLines([]string{got}, []string{want}))
					return
				}
				keys[i] = hashLines([]string{got})
				plain := s.unmodded()
				if what := sameDerived(d, plain); what != "" {
					bad[i] = viol("mods", "after change %d (%s) the settings %+v derive %s", j, op.K, s, what)
					return
				}
				if b != nil && j == len(cl.Ops)-1 && s.mods&int64(difficulty.HardRock|difficulty.Easy) == 0 && s.mods&int64(difficulty.DoubleTime|difficulty.HalfTime) != 0 {
					if x, y := osu.CalculateSingle(b.HitObjects, d), osu.CalculateSingle(clean[i].HitObjects, plain); !nearAttr(x, y) {
						bad[i] = viol("mods", "with the settings %+v the rating is %+v, with mods %d at speed %v it is %+v", s, x, int64(plain.Mods), plain.CustomSpeed, y)
						return
					}
				}
				if b != nil && j == len(cl.Ops)-1 {
					for k := 1; k < len(c10Kinds); k++ {
						if s := diffLines(c10Calc(k, b.HitObjects, d), c10Calc(k, clean[i].HitObjects, f)); s != "" {
							bad[i] = viol("calculation", "a calculation (%s) with changed settings differs from one with new settings: %s", c10Kinds[k], s)
							return
						}
					}
				}
			}
		})
	}
	r := c.main(sc, 0, fns...)
	c.count("preemptions", int64(r.Preempts))
	if v := runBad(r); v != nil {
		return v
	}
	for _, v := range bad {
		if v != nil {
			return v
		}
	}
	for _, k := range keys {
		c.mix(k)
	}
	c.Key = c.Hash
	return nil
}

// ---- C11

func genC11(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{Sched: genSched(r)}
	nm := r.Range(1, 3)
	for i := 0; i < nm; i++ {
		c := calcCfg(r)
		if c.MaxObjs > 30 {
			c.MinObjs, c.MaxObjs = 5, 30
		}
		sc.Maps = append(sc.Maps, GenMap(r, c))
	}
	if r.P(0.1) {
		sc.Maps[0] = GenMap(r, GenCfg{MinObjs: 2, MaxObjs: 3})
	}
	for i := r.Range(1, 4); i > 0; i-- {
		sc.Diffs = append(sc.Diffs, genDiff(r))
	}
	n := r.PickI(1, 1, 2, 3)
	for i := 0; i < n; i++ {
		var cl Client
		for k := r.PickI(r.Range(2, 6), r.Range(5, 20)); k > 0; k-- {
			op := Op{K: "pp", M: r.N(nm), D: r.N(len(sc.Diffs)), S: genScore(r), N: r.N(20)}
			if r.P(0.35) {
				// the caller's own setting, which it keeps changing
				op.D = -1
				if r.P(0.5) {
					cl.Ops = append(cl.Ops, Op{K: r.Pick([]string{"mods", "mods", "od", "ar", "cs", "hp", "speed"}), Mods: genMods(r), V: r.PickF(round(r.FR(0, 10), 1), float64(r.N(11)))})
					if o := &cl.Ops[len(cl.Ops)-1]; o.K == "speed" {
						o.V = r.PickF(1, 1.5, 0.75, 0.5, 2)
					}
				}
			}
			if r.P(0.15) {
				op.V = 1 // go on with the returned copy
			}
			if r.P(0.3) {
				op.K = "synthetic"
				op.Q = []float64{r.FR(0, 8), r.FR(0, 8), r.F(), r.FR(0, 8), r.FR(0, 5)}
				op.S = append(op.S, r.N(3000), r.N(2000), r.N(1000), r.N(5), r.N(4000)) // objects, circles, sliders, spinners, max combo
			}
			cl.Ops = append(cl.Ops, op)
		}
		sc.Clients = append(sc.Clients, cl)
	}
	return sc
}

func runC11(sc *Scenario, c *Ctx) *Violation {
	simrt.Reset()
	maps := make([]*beatmap.BeatMap, len(sc.Maps))
	for i := range sc.Maps {
		b, v := c.mustParse(&sc.Maps[i])
		if v != nil {
			return v
		}
		maps[i] = b
	}
	diffs := make([]*difficulty.Difficulty, len(sc.Diffs))
	for i := range diffs {
		diffs[i] = diffFor(&sc.Diffs[i], maps[i%len(maps)])
	}
	digs := make([]string, len(diffs))
	for i := range diffs {
		digs[i] = digDiff(diffs[i])
	}
	type ev struct {
		attr osu.Attributes
		ds   *DiffSpec
		mi   int
		s    []int
		ret  osu.PPv2
		got  []string
	}
	hist := make([][]ev, len(sc.Clients))
	bad := make([]*Violation, len(sc.Clients))
	var fns []func()
	for i := range sc.Clients {
		cl := &sc.Clients[i]
		i := i
		fns = append(fns, func() {
			calcu := &osu.PPv2{}
			own := DiffSpec{HP: 5, CS: 4, OD: 8, AR: 9, Speed: 1}
			ownD := own.make()
			for j := range cl.Ops {
				op := &cl.Ops[j]
				if own.change(op, ownD) {
					continue
				}
				di := mod(op.D, len(diffs))
				ds, d := &sc.Diffs[di], diffs[di]
				if op.D < 0 {
					o := own
					ds, d = &o, ownD
				}
				dig := digDiff(d)
				var a osu.Attributes
				if op.K == "synthetic" && len(op.Q) == 5 && len(op.S) == 10 {
					a = osu.Attributes{Total: op.Q[0], Aim: op.Q[1], SliderFactor: op.Q[2], Speed: op.Q[3], Flashlight: op.Q[4], ObjectCount: op.S[5], Circles: op.S[6], Sliders: op.S[7], Spinners: op.S[8], MaxCombo: op.S[9]}
				} else {
					b := maps[op.M%len(maps)]
					a = osu.CalculateSingle(prefix(b.HitObjects, op.N), d)
					st := osu.CalculateStep(prefix(b.HitObjects, op.N), d)
					x, y := (&osu.PPv2{}), (&osu.PPv2{})
					rx, ry := ppRun(x, a, op.S, d), ppRun(y, st[len(st)-1], op.S, d)
					if !nearPP(rx.Results, ry.Results) {
						bad[i] = viol("source", "evaluation %d with the final rating gives %+v, with the last step-by-step rating %+v", j, rx.Results, ry.Results)
						return
					}
				}
				keep := a
				ret := ppRun(calcu, a, op.S, d)
				if a != keep {
					bad[i] = viol("attributes", "evaluation %d changed the attributes passed in", j)
					return
				}
				if g := digDiff(d); g != dig {
					bad[i] = viol("difficulty", "evaluation %d changed the difficulty passed in: %s", j, diffLines([]string{g}, []string{dig}))
					return
				}
				hist[i] = append(hist[i], ev{a, ds, di, op.S, ret, []string{digPP(ret.Results), digPP(calcu.Results)}})
				if op.V == 1 {
					next := ret
					calcu = &next
				}
			}
		})
	}
	r := c.main(sc, 0, fns...)
	c.count("preemptions", int64(r.Preempts))
	if v := runBad(r); v != nil {
		return v
	}
	for _, v := range bad {
		if v != nil {
			return v
		}
	}
	for i := range diffs {
		if g := digDiff(diffs[i]); g != digs[i] {
			return viol("difficulty", "evaluating changed the difficulty passed in: %s", diffLines([]string{g}, []string{digs[i]}))
		}
	}
	total := 0
	for i := range hist {
		for j := range hist[i] {
			h := &hist[i][j]
			total++
			if g := digPP(h.ret.Results); g != h.got[0] {
				return viol("earlier value", "the value returned by evaluation %d changed later: %s", j, diffLines([]string{g}, []string{h.got[0]}))
			}
			simrt.Reset()
			var want []string
			o := c.solo(0, func() {
				n := &osu.PPv2{}
				ret := ppRun(n, h.attr, h.s, diffFor(h.ds, maps[h.mi%len(maps)]))
				want = []string{digPP(ret.Results), digPP(n.Results)}
			})
			if v := o.bad(); v != nil {
				return v
			}
			if s := diffLines(h.got, want); s != "" {
				return viol("carried over", "evaluation %d of a reused calculator: %s", j, s)
			}
			c.mix(hashLines(want))
		}
	}
	c.Trivial = total < 2
	c.Key = c.Hash
	return nil
}

func nearPP(a, b osu.PPv2Results) bool {
	return near(a.Aim, b.Aim) && near(a.Speed, b.Speed) && near(a.Acc, b.Acc) && near(a.Flashlight, b.Flashlight) && near(a.Total, b.Total)
}

// ---- C12

func genC12(r *Rng, run int, tier string) *Scenario {
	cfg := calcCfg(r)
	if run%120 == 5 {
		// longer than any practice map
		cfg.MinObjs, cfg.MaxObjs = 500, r.PickI(700, 1100, 1800)
	}
	sc := &Scenario{Maps: []MapSpec{GenMap(r, cfg)}}
	if run%150 == 3 {
		sc.Maps = []MapSpec{{Corpus: pickCorpus(r)}}
		for i := 0; i < 3; i++ {
			sc.Cuts = append(sc.Cuts, r.N(700))
		}
		sc.Diffs = []DiffSpec{genDiff(r)}
		return sc
	}
	sc.Diffs = []DiffSpec{genDiff(r)}
	if r.P(0.3) {
		sc.Diffs[0].Mods |= int64(difficulty.Flashlight)
	}
	if n := len(sc.Maps[0].Objs); n > 40 {
		if n > 400 {
			sc.Cuts = []int{n - 1, n - 2, n - 2 - r.N(50)}
		}
		for i := 0; i < 8; i++ {
			sc.Cuts = append(sc.Cuts, r.N(len(sc.Maps[0].Objs)))
		}
	}
	return sc
}

func runC12(sc *Scenario, c *Ctx) *Violation {
	simrt.Reset()
	m := &sc.Maps[0]
	b, v := c.mustParse(m)
	if v != nil {
		return v
	}
	objs := b.HitObjects
	if m.Corpus != "" && len(objs) > 700 {
		objs = objs[:700]
	}
	d := diffFor(&sc.Diffs[0], b)
	var res *Violation
	o := c.solo(20e9, func() {
		steps := osu.CalculateStep(objs, d)
		if len(steps) != len(objs) {
			res = viol("length", "%d step-by-step ratings for %d objects", len(steps), len(objs))
			return
		}
		single, p1 := osu.CalculateSingleWithPeaks(objs, d)
		steps2, p2 := osu.CalculateStepWithPeaks(objs, d)
		p3 := osu.CalculateStrainPeaks(objs, d)
		if a := osu.CalculateSingle(objs, d); !nearAttr(a, single) {
			res = viol("entry points", "with peaks %+v, without %+v", single, a)
			return
		}
		if len(steps2) != len(steps) {
			res = viol("entry points", "%d step-by-step ratings with peaks, %d without", len(steps2), len(steps))
			return
		}
		for i := range steps {
			if !nearAttr(steps[i], steps2[i]) {
				res = viol("entry points", "step %d: with peaks %+v, without %+v", i, steps2[i], steps[i])
				return
			}
		}
		if !nearPeaks(p1, p2) || !nearPeaks(p1, p3) {
			res = viol("peaks", "the strain peaks of the entry points differ: lengths %d/%d/%d", len(p1.Aim), len(p2.Aim), len(p3.Aim))
			return
		}
		for _, p := range []osu.StrainPeaks{p1, p2, p3} {
			n := len(p.Aim)
			if len(p.Speed) != n || len(p.Total) != n || len(p.Flashlight) != n && (len(p.Flashlight) != 0 || d.CheckModActive(difficulty.Flashlight)) {
				res = viol("peaks", "peak series of lengths %d, %d, %d, %d", len(p.Aim), len(p.Speed), len(p.Flashlight), len(p.Total))
				return
			}
		}
		if len(objs) == 0 {
			return
		}
		if last := steps[len(steps)-1]; !nearAttr(last, single) {
			res = viol("last", "the last step-by-step rating is %+v, the map's rating %+v", last, single)
			return
		}
		at := sc.Cuts
		if at == nil {
			for i := range objs {
				at = append(at, i)
			}
		}
		for _, i := range at {
			i = mod(i, len(objs))
			c.count("abandoned_at", 1)
			if want := osu.CalculateSingle(objs[:i+1:i+1], d); !nearAttr(steps[i], want) {
				res = viol("prefix", "after object %d of %d the step-by-step rating is %+v, that of the map ended there %+v", i, len(objs), steps[i], want)
				return
			}
			if i%5 == 0 {
				// a shorter step-by-step run is a prefix of the longer one
				ps := osu.CalculateStep(objs[:i+1], d)
				if len(ps) != i+1 || !nearAttr(ps[i], steps[i]) {
					res = viol("prefix", "step-by-step over the first %d objects disagrees with the whole run", i+1)
					return
				}
			}
		}
		c.mix(hashLines([]string{digAttr(single)}))
	})
	if v := o.bad(); v != nil {
		return v
	}
	c.Trivial = len(objs) < 2
	c.Key = c.Hash
	return res
}

// ---- C13

func genC13(r *Rng, run int, tier string) *Scenario {
	c := calcCfg(r)
	c.Wild, c.ManyPts = r.P(0.3), true
	sc := &Scenario{Maps: []MapSpec{GenMap(r, c)}, Sched: genSched(r)}
	m := &sc.Maps[0]
	n := r.PickI(1, 2, 2, 3, 4)
	end := 1000.0
	if len(m.Objs) > 0 {
		end = m.Objs[len(m.Objs)-1].T + 1000
	}
	for i := 0; i < n; i++ {
		var cl Client
		t := r.FR(-2000, end)
		rate := r.PickF(1, 16, 100, 0.3, -10, 500)
		for k := r.PickI(r.Range(5, 20), r.Range(20, 80)); k > 0; k-- {
			op := Op{K: "tick"}
			switch r.N(12) {
			case 0:
				t = r.FR(-2000, end+2000)
				op.K = "seek"
			case 1:
				op.K = "stall"
			case 2:
				t -= r.FR(0, 3000)
				op.K = "rewind"
			case 3:
				if len(m.TPs) > 0 {
					t = m.TPs[r.N(len(m.TPs))].T + r.PickF(0, 0, -0.001, 0.001, 1)
				}
				op.K = "seek"
			case 4:
				if len(m.Objs) > 0 {
					o := &m.Objs[r.N(len(m.Objs))]
					t = o.T + r.PickF(0, 0, -1, 1, 100)
					if o.Reps > 20 && r.P(0.7) {
						t = o.T + r.F()*o.Len*float64(o.Reps)*3 // somewhere among the repeats
					}
				}
				op.K = "seek"
			case 5:
				rate = r.PickF(1, 16, 100, 0.3, -10, 500)
				t += rate
			default:
				t += rate * r.FR(0.5, 1.5)
			}
			if r.P(0.01) {
				t = r.PickF(-1e12, 1e12, math.MaxInt32, -0.0)
			}
			op.T = t
			op.N = r.N(1000)
			op.Mods = int64(stackMods[r.N(3)])
			cl.Ops = append(cl.Ops, op)
		}
		sc.Clients = append(sc.Clients, cl)
	}
	return sc
}

// steady tells whether the slider's arc is well enough conditioned in single precision to be judged.
func steady(o *Obj) bool {
	if o.Curve != "P" || len(o.Pts) != 2 {
		return true
	}
	ax, ay, bx, by, cx, cy := o.X, o.Y, o.Pts[0][0], o.Pts[0][1], o.Pts[1][0], o.Pts[1][1]
	cross := math.Abs((bx-ax)*(cy-ay) - (by-ay)*(cx-ax))
	if cross < 0.01 {
		return true // straight line, or close enough to be one
	}
	r := math.Hypot(bx-ax, by-ay) * math.Hypot(cx-bx, cy-by) * math.Hypot(cx-ax, cy-ay) / (2 * cross)
	return r < 3000
}

func runC13(sc *Scenario, c *Ctx) *Violation {
	simrt.Reset()
	m := &sc.Maps[0]
	b, v := c.mustParse(m)
	if v != nil {
		return v
	}
	idx, s := m.checkObjs(b, nil, 0)
	if s != "" {
		return viol("records", "%s", s)
	}
	mt := m.timings(nil)
	mult := 1.4
	if v, ok, _ := lookup(m.Diff, nil, "SliderMultiplier"); ok {
		mult = num(v)
	}
	radius := stackRadius(b)
	for k, o := range b.HitObjects {
		if s := stackShift(o, o.GetStartTime()+o.GetDuration()/3, &radius); s != "" {
			return viol("stacking", "hit object %d: %s", k, s)
		}
	}
	if v := c.tickPlaces(m, b, idx); v != nil {
		return v
	}
	if v := c.stackHeights(m, b); v != nil {
		return v
	}
	bad := make([]*Violation, len(sc.Clients))
	seen := make([][]string, len(sc.Clients))
	var fns []func()
	for i := range sc.Clients {
		cl := &sc.Clients[i]
		i := i
		fns = append(fns, func() {
			for j := range cl.Ops {
				op := &cl.Ops[j]
				got, want := realTP(b.Timings.GetPointAt(op.T)), mt.at(op.T)
				if !sameTP(got, want, true) {
					bad[i] = viol("timing", "player %d, %s to %v (step %d): in force is {%v}, the file says {%v}", i, op.K, op.T, j, got, want)
					return
				}
				if len(mt.Orig) > 0 {
					got, want = realTP(b.Timings.GetOriginalPointAt(op.T)), mt.origAt(op.T)
					if !sameTP(got, want, true) {
						bad[i] = viol("timing", "player %d, %s to %v (step %d): uninherited point in force is {%v}, the file says {%v}", i, op.K, op.T, j, got, want)
						return
					}
				}
				line := ""
				if n := len(b.HitObjects); n > 0 {
					// the objects around the clock, and one anywhere
					near := 0
					for near < n-1 && b.HitObjects[near+1].GetStartTime() <= op.T {
						near++
					}
					for _, k := range []int{near, near + 1, op.N} {
						k = mod(k, n)
						o := b.HitObjects[k]
						o.Update(op.T)
						mm := difficulty.Modifier(op.Mods)
						line += fmt.Sprintf("%d:%s%s%s;", k, vb(o.GetPositionAt(op.T)), vb(o.GetStackedPositionAt(op.T)), vb(o.GetStackedPositionAtMod(op.T, mm)))
						if s := stackShift(o, op.T, &radius); s != "" {
							bad[i] = viol("stacking", "player %d at %v: hit object %d: %s", i, op.T, k, s)
							return
						}
						if s := kinematics(o, &m.Objs[idx[k]], mt, mult, op.T); s != "" {
							bad[i] = viol("motion", "player %d at %v: hit object %d: %s", i, op.T, k, s)
							return
						}
					}
				}
				seen[i] = append(seen[i], line)
			}
		})
	}
	r := c.main(sc, 0, fns...)
	c.count("preemptions", int64(r.Preempts))
	for i := range sc.Clients {
		for j := range sc.Clients[i].Ops {
			c.count("clock_"+sc.Clients[i].Ops[j].K, 1)
		}
	}
	if v := runBad(r); v != nil {
		return v
	}
	for _, v := range bad {
		if v != nil {
			return v
		}
	}
	// position is a function of time alone: a fresh copy asked once, in another order, shows the same
	simrt.Reset()
	fb, v := c.mustParse(m)
	if v != nil {
		return v
	}
	for i := len(sc.Clients) - 1; i >= 0; i-- {
		for j := len(sc.Clients[i].Ops) - 1; j >= 0; j-- {
			op := &sc.Clients[i].Ops[j]
			n := len(fb.HitObjects)
			if n == 0 || j >= len(seen[i]) {
				continue
			}
			near := 0
			for near < n-1 && fb.HitObjects[near+1].GetStartTime() <= op.T {
				near++
			}
			line := ""
			o := c.solo(0, func() {
				for _, k := range []int{near, near + 1, op.N} {
					k = mod(k, n)
					x := fb.HitObjects[k]
					mm := difficulty.Modifier(op.Mods)
					line += fmt.Sprintf("%d:%s%s%s;", k, vb(x.GetPositionAt(op.T)), vb(x.GetStackedPositionAt(op.T)), vb(x.GetStackedPositionAtMod(op.T, mm)))
				}
			})
			if v := o.bad(); v != nil {
				return v
			}
			if line != seen[i][j] {
				return viol("position", "player %d at %v (step %d): %s", i, op.T, j, diffLines([]string{seen[i][j]}, []string{line}))
			}
		}
	}
	c.Trivial = len(b.HitObjects) == 0
	c.Key = c.Hash ^ r.SchedHash
	return nil
}

func dist(a, b interface {
	X64() float64
	Y64() float64
}) float64 {
	return math.Hypot(a.X64()-b.X64(), a.Y64()-b.Y64())
}

// tickPlaces checks that the scoring points of every span of a slider lie at the same places of its path.
func (c *Ctx) tickPlaces(m *MapSpec, b *beatmap.BeatMap, idx []int) *Violation {
	for k, o := range b.HitObjects {
		s, ok := o.(*objects.Slider)
		if !ok || s.RepeatCount < 2 || !steady(&m.Objs[idx[k]]) {
			continue
		}
		start, end := o.GetStartTime(), o.GetEndTime()
		span := (end - start) / float64(s.RepeatCount)
		if !(span > 1) || math.IsInf(span, 0) || math.Abs(end) > 1e8 {
			continue
		}
		tol := 1e-6 + 1e-12*math.Abs(end)
		lenient := math.Max(start+(end-start)/2, end-36)
		var places []float64 // of the first span, in time of that span
		turns := 0
		at := map[int][]float64{}
		for _, p := range s.ScorePoints {
			n := math.Floor((p.Time - start) / span)
			switch {
			case p.IsReverse:
				turns++
				if d := math.Abs(p.Time - start - float64(turns)*span); d > tol {
					return viol("ticks", "hit object %d turns for time %d at %v, %v ms from the end of the span", k, turns, p.Time, d)
				}
				if d := dist(o.GetPositionAt(p.Time), o.GetPositionAt(start+span*float64(turns%2))); d > 0.05 {
					return viol("ticks", "hit object %d turns for time %d %v pixels from the end of its path", k, turns, d)
				}
			case math.Abs(p.Time-lenient) <= tol:
				lenient = math.Inf(1) // the end, which counts a little early
			default:
				f := p.Time - start - n*span
				if mod(int(n), 2) == 1 {
					f = span - f
				}
				if n == 0 {
					places = append(places, f)
				} else {
					at[int(n)] = append(at[int(n)], f)
				}
			}
		}
		if turns != int(s.RepeatCount)-1 {
			return viol("ticks", "hit object %d with %d spans turns %d times", k, s.RepeatCount, turns)
		}
		for n := 1; n < int(s.RepeatCount); n++ {
			l := at[n]
			sort.Float64s(l)
			if len(l) != len(places) {
				return viol("ticks", "hit object %d has %d ticks in span %d and %d in the first", k, len(l), n, len(places))
			}
			for i := range l {
				if math.Abs(l[i]-places[i]) > 2*tol {
					return viol("ticks", "hit object %d: tick %d of span %d is at %v ms of the path, in the first span at %v ms", k, i, n, l[i], places[i])
				}
			}
		}
	}
	return nil
}

// stackHeights checks that the stack heights for Easy and Hard Rock are those of the map with the approach rate these mods
// give it.
func (c *Ctx) stackHeights(m *MapSpec, b *beatmap.BeatMap) *Violation {
	ar := b.Difficulty.GetAR()
	for _, x := range []struct {
		mod difficulty.Modifier
		ar  float64
	}{{difficulty.Easy, ar / 2}, {difficulty.HardRock, math.Min(ar*1.4, 10)}} {
		mm := *m
		mm.Diff = nil
		for _, kv := range m.Diff {
			if strings.TrimSpace(kv.K) != "ApproachRate" {
				mm.Diff = append(mm.Diff, kv)
			}
		}
		mm.Diff = append(mm.Diff, KV{"ApproachRate", strconv.FormatFloat(x.ar, 'g', -1, 64)})
		bb, v := c.mustParse(&mm)
		if v != nil {
			return v
		}
		if bb.Difficulty.GetAR() != x.ar || len(bb.HitObjects) != len(b.HitObjects) {
			return viol("records", "with an approach rate of %v the map has %v and %d hit objects instead of %d", x.ar, bb.Difficulty.GetAR(), len(bb.HitObjects), len(b.HitObjects))
		}
		for k, o := range b.HitObjects {
			if g, w := o.GetStackIndex(x.mod), bb.HitObjects[k].GetStackIndex(difficulty.None); g != w {
				return viol("stacking", "hit object %d: the stack height for mods %d is %d, with an approach rate of %v it is %d", k, x.mod, g, x.ar, w)
			}
		}
	}
	return nil
}

// stackShift checks that stacking moves an object by one and the same amount wherever it is (and mirrors it under
// Hard Rock).
// stackRadius gives the circle radius for each of the mods that stacking is made for.
func stackRadius(b *beatmap.BeatMap) (r [3]float64) {
	for i, m := range stackMods {
		d := difficulty.NewDifficulty(b.Difficulty.GetHP(), b.Difficulty.GetCS(), b.Difficulty.GetOD(), b.Difficulty.GetAR())
		d.SetMods(m)
		r[i] = d.CircleRadius
	}
	return
}

func stackShift(o objects.IHitObject, t float64, radius *[3]float64) string {
	for i, m := range stackMods {
		mir := func(p vector.Vector2f) vector.Vector2f {
			if m&difficulty.HardRock != 0 {
				p.Y = 384 - p.Y
			}
			return p
		}
		off := o.GetStackedStartPositionMod(m).Sub(mir(o.GetStartPosition()))
		place := o.GetStartPosition()
		by := -float64(o.GetStackIndex(m)) * radius[i] / 10
		tol := 1e-3 + 1e-5*(math.Abs(float64(place.X))+math.Abs(float64(place.Y))+math.Abs(by))
		if d := math.Hypot(float64(off.X)-by, float64(off.Y)-by); !(d <= tol) {
			return fmt.Sprintf("stacked for mods %d it is offset by %v, for a stack height of %d and a circle radius of %v", m, off, o.GetStackIndex(m), radius[i])
		}
		for _, q := range []struct {
			what        string
			plain, seen vector.Vector2f
		}{
			{"then", o.GetPositionAt(t), o.GetStackedPositionAtMod(t, m)},
			{"at its end", o.GetEndPosition(), o.GetStackedEndPositionMod(m)},
		} {
			want := mir(q.plain).Add(off)
			tol := 1e-3 + 1e-5*(math.Abs(float64(want.X))+math.Abs(float64(want.Y)))
			if d := dist(want, q.seen); d > tol {
				return fmt.Sprintf("stacked for mods %d it is at %v %s, its own place %v and its stack offset %v give %v", m, q.seen, q.what, q.plain, off, want)
			}
		}
		more := m | difficulty.Hidden | difficulty.DoubleTime | difficulty.Flashlight
		if d := dist(o.GetStackedPositionAtMod(t, more), o.GetStackedPositionAtMod(t, m)); d != 0 || o.GetStackIndex(more) != o.GetStackIndex(m) {
			return fmt.Sprintf("stacked for mods %d it is %v away from its place for mods %d", more, d, m)
		}
		if m == 0 {
			if d := dist(o.GetStackedPositionAt(t), o.GetStackedPositionAtMod(t, 0)); d != 0 {
				return fmt.Sprintf("its stacked position is %v away from the one without mods", d)
			}
			if d := dist(o.GetStackedStartPosition(), o.GetStackedStartPositionMod(0)) + dist(o.GetStackedEndPosition(), o.GetStackedEndPositionMod(0)); d != 0 {
				return fmt.Sprintf("its stacked start and end are %v away from those without mods", d)
			}
		}
	}
	return ""
}

// kinematics judges an object's position around time t.
func kinematics(o objects.IHitObject, spec *Obj, mt ModelTimings, mult, t float64) string {
	start, end := o.GetStartTime(), o.GetEndTime()
	s, ok := o.(*objects.Slider)
	if !ok {
		if d := dist(o.GetPositionAt(t), o.GetStartPosition()); d != 0 {
			return fmt.Sprintf("a %s that does not move is %v away from its place", spec.Kind, d)
		}
		return ""
	}
	if !steady(spec) {
		return ""
	}
	const tol = 0.05
	first, last := o.GetPositionAt(start), o.GetPositionAt(end)
	if d := dist(first, o.GetStartPosition()); d > tol {
		return fmt.Sprintf("slider is %v away from its start when it starts", d)
	}
	if d := dist(last, o.GetEndPosition()); d > tol {
		return fmt.Sprintf("slider is %v away from its end position when it ends", d)
	}
	p := o.GetPositionAt(t)
	if t <= start && dist(p, first) > tol || t >= end && dist(p, last) > tol {
		return fmt.Sprintf("slider running from %v to %v moves outside its duration", start, end)
	}
	if !(end > start) {
		return ""
	}
	span := (end - start) / float64(s.RepeatCount)
	v := mt.at(start).velocity(mult) // pixels per second
	if math.IsInf(v, 0) || v*span/1000 > 1e5 {
		return ""
	}
	eps := tol + v*1e-6*math.Max(1, math.Abs(end))/1000
	for _, dt := range []float64{1, span / 7, span / 2} {
		q := o.GetPositionAt(t + dt)
		if d := dist(p, q); d > v*dt/1000*1.001+eps {
			return fmt.Sprintf("slider moves %v pixels in %v ms from %v, its speed is %v pixels per second", d, dt, t, v)
		}
	}
	// after an odd number of spans it is at the far end of its path, after an even number back at its start
	turn := first
	if s.RepeatCount%2 == 1 {
		turn = o.GetPositionAt(start + span)
	}
	if d := dist(last, turn); d > eps {
		return fmt.Sprintf("slider with %d spans ends %v pixels from where it should", s.RepeatCount, d)
	}
	if t > start && t < end {
		if k := math.Floor((t - start) / span); int64(k) < s.RepeatCount-1 {
			back := 2*start + 2*(k+1)*span - t // the mirror image in the next span
			if d := dist(p, o.GetPositionAt(back)); d > eps {
				return fmt.Sprintf("slider does not retrace its path: %v pixels between %v and %v", d, t, back)
			}
		}
	}
	return ""
}

// ---- C14

func genC14(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{Sched: genSched(r)}
	c := calcCfg(r)
	c.Unicode = r.P(0.3)
	c.LongLines = r.P(0.1)
	sc.Maps = []MapSpec{GenMap(r, c)}
	sc.Maps[0].Enc = r.Pick([]string{"utf8", "utf8", "utf8", "utf8bom", "utf16le"})
	sc.Del = []Delivery{genDelivery(r, 20000)}
	for i := r.Range(1, 3); i > 0; i-- {
		sc.Diffs = append(sc.Diffs, genDiff(r))
	}
	n := r.PickI(1, 1, 2)
	for i := 0; i < n; i++ {
		var cl Client
		for k := r.Range(2, 7); k > 0; k-- {
			op := genCalcOp(r, 1, len(sc.Diffs))
			if op.K == "query" {
				op.K = "step+peaks"
			}
			op.Del = r.N(2) // overwrite the results afterwards
			cl.Ops = append(cl.Ops, op)
		}
		sc.Clients = append(sc.Clients, cl)
	}
	return sc
}

type held struct {
	attr  osu.Attributes
	steps []osu.Attributes
	peaks osu.StrainPeaks
	pp    osu.PPv2
}

func (h *held) show() []string {
	return append(append([]string{digAttr(h.attr), digPP(h.pp.Results)}, digSteps(h.steps)...), digPeaks(h.peaks)...)
}

func (h *held) scribble() {
	full := h.steps[:cap(h.steps)]
	for i := range full {
		full[i] = osu.Attributes{Total: math.NaN(), MaxCombo: -7}
	}
	for _, l := range [][]float64{h.peaks.Aim, h.peaks.Speed, h.peaks.Flashlight, h.peaks.Total} {
		l = l[:cap(l)]
		for i := range l {
			l[i] = math.NaN()
		}
	}
}

func calcHeld(op *Op, objs []objects.IHitObject, d *difficulty.Difficulty) *held {
	h := &held{}
	o := prefix(objs, op.N)
	switch op.K {
	case "single":
		h.attr = osu.CalculateSingle(o, d)
	case "single+peaks":
		h.attr, h.peaks = osu.CalculateSingleWithPeaks(o, d)
	case "step":
		h.steps = osu.CalculateStep(o, d)
	case "step+peaks":
		h.steps, h.peaks = osu.CalculateStepWithPeaks(o, d)
	case "peaks":
		h.peaks = osu.CalculateStrainPeaks(o, d)
	case "pp":
		h.attr = osu.CalculateSingle(o, d)
		pp := &osu.PPv2{}
		h.pp = ppRun(pp, h.attr, op.S, d)
	}
	return h
}

func runC14(sc *Scenario, c *Ctx) *Violation {
	simrt.Reset()
	m := &sc.Maps[0]
	input := m.Bytes()
	buf := make([]byte, len(input), len(input)+4096)
	copy(buf, input)
	spare := buf[len(input):cap(buf)]
	for i := range spare {
		spare[i] = 0xa5
	}
	p := c.parseBytes(buf, 0)
	if v := p.out.bad(); v != nil {
		return v
	}
	if p.err != nil {
		return viol("rejected", "a valid map is rejected: %v", p.err)
	}
	if string(buf) != string(input) {
		return viol("input changed", "parsing changed the caller's bytes")
	}
	for i := range spare {
		if spare[i] != 0xa5 {
			return viol("input changed", "parsing wrote behind the end of the caller's bytes")
		}
	}
	ask := askTimes(m.tpTimes(), p.bm)
	want := digMap(p.bm, ask, true)
	for i := range buf {
		buf[i] = byte('A' + i%7)
	}
	c.count("input_overwritten", 1)
	if s := diffLines(digMap(p.bm, ask, true), want); s != "" {
		return viol("input kept", "overwriting the input after parsing changed the beatmap: %s", s)
	}
	var d Delivery
	if len(sc.Del) > 0 {
		d = sc.Del[0]
	}
	store := append([]byte(nil), input...)
	q := c.parseReader(store, d, 0)
	if v := q.out.bad(); v != nil {
		return v
	}
	for i := range store {
		store[i] = '#'
	}
	if q.err != nil {
		return viol("rejected", "through a reader a valid map is rejected: %v", q.err)
	}
	if s := diffLines(digMap(q.bm, ask, true), want); s != "" {
		return viol("input kept", "overwriting the reader's memory after parsing changed the beatmap: %s", s)
	}
	// another parse in the same process, of other content, must not reach the first one's strings
	other := append([]byte(nil), input...)
	for i := range other {
		if other[i] >= 'a' && other[i] < 'z' {
			other[i]++
		}
	}
	c.solo(0, func() {
		defer func() { recover() }()
		beatmap.ParseFromByte(other)
	})
	if s := diffLines(digMap(p.bm, ask, true), want); s != "" {
		return viol("input kept", "parsing another file changed the beatmap: %s", s)
	}

	b := p.bm
	type call struct {
		op   *Op
		h    *held
		snap []string
		gone bool
	}
	calls := make([][]*call, len(sc.Clients))
	bad := make([]*Violation, len(sc.Clients))
	var fns []func()
	for i := range sc.Clients {
		cl := &sc.Clients[i]
		i := i
		fns = append(fns, func() {
			d := make([]*difficulty.Difficulty, len(sc.Diffs))
			for k := range d {
				d[k] = diffFor(&sc.Diffs[k], b)
			}
			objs := append([]objects.IHitObject(nil), b.HitObjects...) // the caller's own slice
			for j := range cl.Ops {
				op := &cl.Ops[j]
				x := &call{op: op, h: calcHeld(op, objs, d[op.D%len(d)])}
				x.snap = x.h.show()
				for k := range objs {
					if objs[k] != b.HitObjects[k] {
						bad[i] = viol("slice changed", "call %d (%s) replaced element %d of the caller's object slice", j, op.K, k)
						return
					}
				}
				calls[i] = append(calls[i], x)
				if op.Del == 1 {
					x.h.scribble()
					x.gone = true
				}
				for _, y := range calls[i] {
					if !y.gone {
						if s := diffLines(y.h.show(), y.snap); s != "" {
							bad[i] = viol("result changed", "after call %d (%s) a result of an earlier %s call changed: %s", j, op.K, y.op.K, s)
							return
						}
					}
				}
			}
		})
	}
	r := c.main(sc, 0, fns...)
	c.count("preemptions", int64(r.Preempts))
	if v := runBad(r); v != nil {
		return v
	}
	for _, v := range bad {
		if v != nil {
			return v
		}
	}
	for i := range calls {
		for j, x := range calls[i] {
			if !x.gone {
				if s := diffLines(x.h.show(), x.snap); s != "" {
					return viol("result changed", "at the end a result of client %d, call %d (%s) has changed: %s", i, j, x.op.K, s)
				}
			} else {
				c.count("result_overwritten", 1)
			}
			simrt.Reset()
			fb, v := c.mustParse(m)
			if v != nil {
				return v
			}
			var ref []string
			o := c.solo(0, func() { ref = calcHeld(x.op, fb.HitObjects, diffFor(&sc.Diffs[x.op.D%len(sc.Diffs)], fb)).show() })
			if v := o.bad(); v != nil {
				return v
			}
			if s := diffLines(x.snap, ref); s != "" {
				return viol("later result", "client %d, call %d (%s), after results were overwritten: %s", i, j, x.op.K, s)
			}
			c.mix(hashLines(ref))
		}
	}
	c.Key = c.Hash
	return nil
}

// ---- C16

// genC16 draws editors that build up the timing of a map step by step and apply it again and again.
func genC16(r *Rng, run int, tier string) *Scenario {
	c := calcCfg(r)
	c.Wild, c.ManyPts = r.P(0.15), true
	if r.P(0.5) && c.MaxObjs > 15 {
		c.MinObjs, c.MaxObjs = 1, 15
	}
	sc := &Scenario{Maps: []MapSpec{GenMap(r, c), GenMap(r, GenCfg{MinObjs: 1, MaxObjs: 2, ManyPts: true})}, Diffs: []DiffSpec{genDiff(r)}, Sched: genSched(r)}
	m, donor := &sc.Maps[0], &sc.Maps[1]
	end := 1000.0
	if len(m.Objs) > 0 {
		end = m.Objs[len(m.Objs)-1].T + 1000
	}
	// more points to choose from: all over the map, at its points and at its objects
	for k := r.Range(1, 12); k > 0; k-- {
		p := donor.TPs[r.N(len(donor.TPs))]
		p.T = r.PickF(math.Round(r.FR(-1000, end)), round(r.FR(0, end), 3), m.TPs[r.N(len(m.TPs))].T, m.TPs[0].T-1)
		if len(m.Objs) > 0 && r.P(0.4) {
			p.T = m.Objs[r.N(len(m.Objs))].T
		}
		donor.TPs = append(donor.TPs, p)
	}
	for n := r.PickI(1, 1, 2, 3); n > 0; n-- {
		var cl Client
		if r.P(0.3) {
			cl.Ops = append(cl.Ops, Op{K: "bare"})
		}
		for k := r.PickI(r.Range(1, 6), r.Range(3, 20)); k > 0; k-- {
			switch r.N(6) {
			case 0, 1:
				for i := r.PickI(1, 1, 2, r.Range(1, 8)); i > 0; i-- {
					cl.Ops = append(cl.Ops, Op{K: "add", N: len(donor.TPs) - 1 - r.N(len(donor.TPs))})
				}
				cl.Ops = append(cl.Ops, Op{K: "finalize"})
			case 2:
				cl.Ops = append(cl.Ops, Op{K: "finalize"})
			case 3:
				cl.Ops = append(cl.Ops, Op{K: "apply"})
			case 4:
				cl.Ops = append(cl.Ops, Op{K: "play", T: r.F()})
			default:
				cl.Ops = append(cl.Ops, Op{K: "calc", N: r.N(len(c10Kinds))})
			}
		}
		cl.Ops = append(cl.Ops, Op{K: "finalize"}, Op{K: "apply"})
		sc.Clients = append(sc.Clients, cl)
	}
	return sc
}

func unstacked(objs []objects.IHitObject) bool {
	for _, o := range objs {
		for _, m := range stackMods {
			if o.GetStackIndex(m) != 0 {
				return false
			}
		}
	}
	return true
}

func runC16(sc *Scenario, c *Ctx) *Violation {
	simrt.Reset()
	m, donor := &sc.Maps[0], &sc.Maps[1]
	if len(donor.TPs) == 0 || len(sc.Diffs) == 0 {
		return nil
	}
	type snap struct {
		step  int
		extra []TP
		objs  []string
		flat  bool
		calc  []string
		kind  int
	}
	maps := make([]*beatmap.BeatMap, len(sc.Clients))
	for i := range maps {
		b, v := c.mustParse(m)
		if v != nil {
			return v
		}
		maps[i] = b
	}
	bad := make([]*Violation, len(sc.Clients))
	snaps := make([][]snap, len(sc.Clients))
	var fns []func()
	for i := range sc.Clients {
		cl := &sc.Clients[i]
		i := i
		b := maps[i]
		fns = append(fns, func() {
			tps := append([]TP(nil), m.TPs...)
			bare := len(cl.Ops) > 0 && cl.Ops[0].K == "bare"
			if bare {
				// a timing list of its own, filled through its own interface
				b = beatmap.NewBeatMap()
				tps = nil
			}
			base := len(tps)
			pending := false
			for j := range cl.Ops {
				op := &cl.Ops[j]
				switch op.K {
				case "add":
					t := donor.TPs[mod(op.N, len(donor.TPs))]
					tps = append(tps, t)
					if bare {
						x := t.model()
						b.Timings.AddPoint(x.Time, x.Raw, x.Set, x.Idx, x.Vol, x.Sig, x.Inherited, x.Kiai, x.Omit)
					} else {
						b.ParsePoint(t.line())
					}
					pending = true
				case "finalize":
					if bare {
						b.Timings.FinalizePoints()
					} else {
						b.FinalizePoints()
					}
					pending = false
					if b.Timings.HasPoints() != (len(tps) > 0) {
						bad[i] = viol("timing", "step %d: HasPoints is %v with %d points added", j, b.Timings.HasPoints(), len(tps))
						return
					}
					if len(tps) == 0 {
						continue
					}
					mt := (&MapSpec{TPs: tps}).timings(nil)
					lo, hi := math.Inf(1), 0.0
					for k := range mt.All {
						p := &mt.All[k]
						if p.Raw >= 0 {
							lo, hi = math.Min(lo, 60000/p.Raw), math.Max(hi, 60000/p.Raw)
						}
						if k > 40 && k%(len(mt.All)/40+1) != 0 {
							continue
						}
						for _, t := range []float64{p.Time, p.Time - 0.5, p.Time + 0.5} {
							got, want := realTP(b.Timings.GetPointAt(t)), mt.at(t)
							if !sameTP(got, want, true) {
								bad[i] = viol("timing", "editor %d, step %d, %d points: at %v {%v} is in force, the points added say {%v}", i, j, len(tps), t, got, want)
								return
							}
							got, want = realTP(b.Timings.GetOriginalPointAt(t)), mt.origAt(t)
							if !sameTP(got, want, true) {
								bad[i] = viol("timing", "editor %d, step %d, %d points: at %v the uninherited point {%v} is in force, the points added say {%v}", i, j, len(tps), t, got, want)
								return
							}
						}
					}
					if !bare && (b.MinBPM != lo || b.MaxBPM != hi) {
						bad[i] = viol("bpm", "editor %d, step %d: BPM from %v to %v, the points added say from %v to %v", i, j, b.MinBPM, b.MaxBPM, lo, hi)
						return
					}
				case "apply":
					if pending || bare {
						continue
					}
					var sn snap
					sn.step, sn.extra = j, append([]TP(nil), tps[base:]...)
					for _, o := range b.HitObjects {
						o.SetTiming(b.Timings)
						sn.objs = append(sn.objs, digObj(o, digPath))
					}
					if sn.flat = unstacked(b.HitObjects) || len(sn.extra) == 0; sn.flat {
						sn.kind = mod(j+i, len(c10Kinds))
						sn.calc = c10Calc(sn.kind, b.HitObjects, diffFor(&sc.Diffs[0], b))
					}
					snaps[i] = append(snaps[i], sn)
				case "play":
					if pending || !b.Timings.HasPoints() {
						continue
					}
					for _, o := range b.HitObjects {
						t := o.GetStartTime() + op.T*(o.GetDuration()+50)
						o.GetPositionAt(t)
						b.Timings.GetPointAt(t)
						b.Timings.GetOriginalPointAt(t)
					}
				case "calc":
					if len(b.HitObjects) > 0 {
						c10Calc(op.N, b.HitObjects, diffFor(&sc.Diffs[0], b))
					}
				}
			}
		})
	}
	r := c.main(sc, 0, fns...)
	c.count("preemptions", int64(r.Preempts))
	if v := runBad(r); v != nil {
		return v
	}
	for _, v := range bad {
		if v != nil {
			return v
		}
	}
	total := 0
	for i := range snaps {
		if n := len(snaps[i]); n > 5 {
			snaps[i] = append(snaps[i][:3:3], snaps[i][n-2:]...)
		}
		for _, sn := range snaps[i] {
			total++
			simrt.Reset()
			whole := *m
			whole.TPs = append(append([]TP(nil), m.TPs...), sn.extra...)
			fb, v := c.mustParse(&whole)
			if v != nil {
				return v
			}
			var want []string
			for _, o := range fb.HitObjects {
				want = append(want, digObj(o, digPath))
			}
			if s := diffLines(sn.objs, want); s != "" {
				return viol("applied", "editor %d, step %d: hit objects after applying timing with %d points added differ from those of a map with all its points from the start: %s", i, sn.step, len(sn.extra), s)
			}
			if sn.flat && (len(sn.extra) == 0 || unstacked(fb.HitObjects)) {
				var w []string
				o := c.solo(0, func() { w = c10Calc(sn.kind, fb.HitObjects, diffFor(&sc.Diffs[0], fb)) })
				if v := o.bad(); v != nil {
					return v
				}
				if s := diffLines(sn.calc, w); s != "" {
					return viol("calculation", "editor %d, step %d: %s after applying timing with %d points added: %s", i, sn.step, c10Kinds[sn.kind], len(sn.extra), s)
				}
				c.count("rated_after_applying", 1)
			}
			c.mix(hashLines(want))
		}
	}
	c.Trivial = total < 2
	c.Key = c.Hash ^ r.SchedHash
	return nil
}

// ---- C18

// What a player did on one object.
const (
	hit300 = iota
	hit100
	hit50
	hitMiss
	hitBreak   // the slider was lost on the way: hit, but the combo starts again
	hitDropEnd // the slider's end was not counted
	hitQuit    // the play was abandoned here and started again
)

func genC18(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{Sched: genSched(r)}
	nm := r.Range(1, 2)
	for i := 0; i < nm; i++ {
		c := calcCfg(r)
		if c.MaxObjs > 40 {
			c.MinObjs, c.MaxObjs = 5, 40
		}
		sc.Maps = append(sc.Maps, GenMap(r, c))
	}
	for i := r.Range(1, 3); i > 0; i-- {
		sc.Diffs = append(sc.Diffs, genDiff(r))
	}
	for i := r.PickI(1, 1, 2, 3); i > 0; i-- {
		var cl Client
		for k := r.Range(1, 3); k > 0; k-- {
			op := Op{K: "play", M: r.N(nm), D: r.N(len(sc.Diffs))}
			bad := r.PickF(0, 0.03, 0.1, 0.3, 0.6, 1)
			kind := r.N(8)
			for j := r.Range(1, 45); j > 0; j-- {
				o := hit300
				if r.F() < bad {
					o = r.PickI(hit100, hit50, hitMiss, hitMiss, hitBreak, hitDropEnd)
					if kind < hitQuit && r.P(0.7) {
						o = kind
					}
					if r.P(0.03) {
						o = hitQuit
					}
				}
				op.S = append(op.S, o)
			}
			if r.P(0.35) {
				// a long play known only by its rating and counts
				op.K = "long"
				n := r.PickI(r.Range(1, 60), r.Range(100, 700), r.Range(1500, 6000))
				ci := r.N(n + 1)
				sl := r.N(n - ci + 1)
				op.Q = []float64{r.FR(0, 8), r.PickF(1, r.F(), r.FR(0.8, 1)), r.FR(0, 8), r.FR(0, 5)}
				miss := r.N(r.PickI(1, 4, n/4+1, n+1))
				meh := r.N(r.PickI(1, 4, n/4+1, n+1))
				ok := r.N(r.PickI(1, 4, n/4+1, n+1))
				miss = mini(miss, n)
				meh = mini(meh, n-miss)
				ok = mini(ok, n-miss-meh)
				mc := n + r.N(4*sl+1)
				op.S = []int{mc - r.N(r.PickI(1, 5, mc+1)), n - ok - meh - miss, ok, meh, miss, n, ci, sl, n - ci - sl, mc}
			}
			cl.Ops = append(cl.Ops, op)
		}
		sc.Clients = append(sc.Clients, cl)
	}
	return sc
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func ppParts(r osu.PPv2Results) [5]float64 {
	return [5]float64{r.Aim, r.Speed, r.Acc, r.Flashlight, r.Total}
}

var ppNames = [5]string{"aim", "speed", "accuracy", "flashlight", "total"}

// rateNow checks the performance of a play that stands at the score s (combo, great, ok, meh, miss).
func rateNow(pp *osu.PPv2, a osu.Attributes, s [5]int, d *difficulty.Difficulty, salt int) string {
	eval := func(s [5]int) [5]float64 {
		return ppParts(pp.PPv2x(a, s[0], s[1], s[2], s[3], s[4], d).Results)
	}
	now := eval(s)
	for i, x := range now {
		if !(x >= 0) || math.IsInf(x, 0) {
			return fmt.Sprintf("not a rating: %s %v for %v of %+v", ppNames[i], x, s, a)
		}
	}
	notAbove := func(what string, t [5]int, hi, lo [5]float64) string {
		for i := range hi {
			if a.SliderFactor > 1 && (i == 0 || i == 4) {
				continue // a dropped slider end then counts in favour of the player
			}
			if lo[i] > hi[i]*(1+1e-9)+1e-12 {
				return fmt.Sprintf("%s: %s %v for %v, but %v for %v, of %+v", what, ppNames[i], lo[i], t, hi[i], s, a)
			}
		}
		return ""
	}
	total := s[1] + s[2] + s[3] + s[4]
	full := [5]int{a.MaxCombo, total, 0, 0, 0}
	best := eval(full)
	if x := notAbove("above a flawless play", s, best, now); x != "" {
		return x
	}
	if total == a.ObjectCount {
		if g := eval([5]int{-1, -1, 0, 0, 0}); g != best {
			return fmt.Sprintf("left out: a flawless play is %v when the counts are left out, %v when given", g, best)
		}
		if g := eval([5]int{s[0], -1, s[2], s[3], s[4]}); g != now {
			return fmt.Sprintf("left out: %v is %v when the 300s are left out, %v when given", s, g, now)
		}
	}
	// one more fault of the player, all else the same
	for k := 0; k < 3; k++ {
		t, what := s, ""
		switch f := (salt + k) % 7; {
		case f == 0 && s[1] > 0:
			t[1], t[2], what = t[1]-1, t[2]+1, "300 to 100"
		case f == 1 && s[1] > 0:
			t[1], t[3], what = t[1]-1, t[3]+1, "300 to 50"
		case f == 2 && s[1] > 0:
			t[1], t[4], what = t[1]-1, t[4]+1, "300 to miss"
		case f == 3 && s[2] > 0:
			t[2], t[3], what = t[2]-1, t[3]+1, "100 to 50"
		case f == 4 && s[0] > 1:
			t[0], what = t[0]-1, "combo one lower"
		case f == 5 && s[0] > 1:
			t[0], what = t[0]/2, "combo half as high"
		case f == 6 && s[0] > 0:
			t[0], what = 0, "no combo"
		default:
			continue
		}
		if x := notAbove("raised by a fault ("+what+")", t, now, eval(t)); x != "" {
			return x
		}
	}
	return ""
}

func runC18(sc *Scenario, c *Ctx) *Violation {
	simrt.Reset()
	maps := make([]*beatmap.BeatMap, len(sc.Maps))
	for i := range sc.Maps {
		b, v := c.mustParse(&sc.Maps[i])
		if v != nil {
			return v
		}
		maps[i] = b
	}
	bad := make([]*Violation, len(sc.Clients))
	rated := make([]int, len(sc.Clients))
	faults := make([][7]int64, len(sc.Clients))
	hash := make([]uint64, len(sc.Clients))
	var fns []func()
	for i := range sc.Clients {
		cl := &sc.Clients[i]
		i := i
		fns = append(fns, func() {
			pp := &osu.PPv2{}
			for j := range cl.Ops {
				op := &cl.Ops[j]
				b := maps[mod(op.M, len(maps))]
				d := diffFor(&sc.Diffs[mod(op.D, len(sc.Diffs))], b)
				check := func(a osu.Attributes, s [5]int, at, salt int) bool {
					rated[i]++
					if x := rateNow(pp, a, s, d, salt); x != "" {
						bad[i] = viol("rating", "player %d, play %d, object %d: %s", i, j, at, x)
						return false
					}
					hash[i] = hash[i]*0x100000001b3 ^ math.Float64bits(pp.Results.Total)
					return true
				}
				if op.K == "long" && len(op.Q) == 4 && len(op.S) == 10 {
					a := osu.Attributes{Total: op.Q[0], Aim: op.Q[0], SliderFactor: op.Q[1], Speed: op.Q[2], Flashlight: op.Q[3], ObjectCount: op.S[5], Circles: op.S[6], Sliders: op.S[7], Spinners: op.S[8], MaxCombo: op.S[9]}
					s := [5]int{op.S[0], op.S[1], op.S[2], op.S[3], op.S[4]}
					if !check(a, s, op.S[5]-1, 0) || !check(a, s, op.S[5]-1, 3) || !check(a, s, op.S[5]-1, 5) {
						return
					}
					continue
				}
				st := osu.CalculateStep(b.HitObjects, d)
				combo, prev := 0, 0
				var s [5]int
				o := 0
				whole := len(st) > 0 && !d.CheckModActive(difficulty.SpunOut) // the share of spinners is that of a whole play
				// nothing hit yet, of a map without objects and of this one
				if !check(osu.Attributes{}, s, -1, 0) || whole && !check(st[len(st)-1], s, -1, 0) {
					return
				}
				for k, what := range op.S {
					if what < 0 || what > hitQuit {
						continue
					}
					faults[i][what]++
					if what == hitQuit {
						combo, prev, o, s = 0, 0, 0, [5]int{}
						continue
					}
					if o >= len(st) {
						break
					}
					full := st[o].MaxCombo - prev
					prev = st[o].MaxCombo
					if what >= hitBreak && full < 2 {
						what = hit300
					}
					s[0] = maxi(s[0], combo)
					switch what {
					case hit300, hit100, hit50:
						s[1+what]++
						combo += full
					case hitMiss:
						s[4]++
						combo = 0
					case hitBreak:
						s[2]++
						s[0] = maxi(s[0], combo+full/2)
						combo = full - full/2 - 1
					case hitDropEnd:
						s[1]++
						combo += full - 1
					}
					s[0] = maxi(s[0], combo)
					if !check(st[o], s, o, k) || whole && k%4 == 0 && !check(st[len(st)-1], s, o, k+1) {
						return
					}
					o++
				}
			}
		})
	}
	r := c.main(sc, 0, fns...)
	c.count("preemptions", int64(r.Preempts))
	if v := runBad(r); v != nil {
		return v
	}
	total := 0
	names := [7]string{"", "player: 100", "player: 50", "player: miss", "player: slider break", "player: slider end dropped", "player: abandoned and retried"}
	for i := range sc.Clients {
		if bad[i] != nil {
			return bad[i]
		}
		total += rated[i]
		for k := 1; k < 7; k++ {
			c.count(names[k], faults[i][k])
		}
		c.mix(hash[i])
	}
	c.Trivial = total < 2
	c.Key = c.Hash
	return nil
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}
