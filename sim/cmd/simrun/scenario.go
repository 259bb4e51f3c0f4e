package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/Wieku/gosu-pp/beatmap"
	"gosusim/simrt"
)

// Scenario is one simulated execution, fully described: replaying it is a pure function of it and the code.
type Scenario struct {
	Prop    string     `json:"property"`
	Kind    string     `json:"kind,omitempty"`
	Seed    uint64     `json:"seed"`
	Run     int        `json:"run"`
	Maps    []MapSpec  `json:"maps"`
	Faults  [][]Fault  `json:"faults,omitempty"` // per map
	Del     []Delivery `json:"deliveries,omitempty"`
	Cuts    []int      `json:"cuts,omitempty"`
	Subs    []LineSub  `json:"damaged_lines,omitempty"`
	Adds    []Add      `json:"additions,omitempty"`
	Diffs   []DiffSpec `json:"difficulties,omitempty"`
	Clients []Client   `json:"clients,omitempty"`
	Sched   Sched      `json:"schedule"`
}

// LineSub overwrites the content of a record.
type LineSub struct {
	Line int `json:"line"`
	S    Raw `json:"s"`
}

// DiffSpec is a difficulty setting.
type DiffSpec struct {
	Own   bool    `json:"own,omitempty"` // the map's own settings
	HP    float64 `json:"hp"`
	CS    float64 `json:"cs"`
	OD    float64 `json:"od"`
	AR    float64 `json:"ar"`
	Mods  int64   `json:"mods"`
	Speed float64 `json:"speed"`
}

// Client is one simulated caller.
type Client struct {
	Ops []Op `json:"ops"`
}

// Op is one call.
type Op struct {
	K    string    `json:"op"`
	M    int       `json:"map,omitempty"`
	D    int       `json:"diff,omitempty"`
	Del  int       `json:"delivery,omitempty"`
	N    int       `json:"n,omitempty"`
	T    float64   `json:"t,omitempty"`
	V    float64   `json:"v,omitempty"`
	Mods int64     `json:"mods,omitempty"`
	S    []int     `json:"score,omitempty"`
	Q    []float64 `json:"times,omitempty"`
	Text Raw       `json:"text,omitempty"`
}

// Sched is the schedule: either drawn from the seed or, in a replay, given decision by decision.
type Sched struct {
	Seed      uint64           `json:"seed"`
	Mean      int32            `json:"mean,omitempty"`
	Fixed     bool             `json:"fixed,omitempty"`
	Decisions []simrt.Decision `json:"decisions,omitempty"`
}

// Violation is what an oracle found.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func viol(class, f string, a ...interface{}) *Violation {
	return &Violation{class, fmt.Sprintf(f, a...)}
}

// Ctx collects what one run did.
type Ctx struct {
	Counts   map[string]int64
	Steps    int64
	SimTime  int64
	Hash     uint64
	Key      uint64 // identifies the state or interleaving reached
	Trivial  bool
	Switches int
	Preempts int
	Decs     []simrt.Decision // of the main run
	SchedH   uint64
	Skipped  string
}

func newCtx() *Ctx { return &Ctx{Counts: map[string]int64{}, Hash: 0xcbf29ce484222325} }

func (c *Ctx) count(k string, n int64) {
	if n != 0 {
		c.Counts[k] += n
	}
}

func (c *Ctx) mix(v uint64) { c.Hash = (c.Hash ^ v) * 0x100000001b3 }

const (
	defSteps = int64(1e9)
	defAlloc = int64(64 << 20)
)

// outcome of a task.
type outcome struct {
	Panic string
	Stack string
	Abort string
}

func (o *outcome) bad() *Violation {
	if o.Abort != "" {
		if strings.HasPrefix(o.Abort, "deadlock") {
			return &Violation{"deadlock", o.Abort}
		}
		if strings.HasPrefix(o.Abort, "allocation") {
			return &Violation{"memory", o.Abort}
		}
		return &Violation{"hang", o.Abort}
	}
	if o.Panic != "" {
		return &Violation{"panic", o.Panic + panicSite(o.Stack)}
	}
	return nil
}

// panicSite finds the innermost frame in the code under test.
func panicSite(st string) string {
	ls := strings.Split(st, "\n")
	seen := false
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(l, "github.com/Wieku/gosu-pp/") && i+1 < len(ls) {
			fn := strings.TrimPrefix(l, "github.com/Wieku/gosu-pp/")
			if k := strings.LastIndex(fn, "("); k > 0 {
				fn = fn[:k]
			}
			return " in " + fn
		}
	}
	return ""
}

func (c *Ctx) account(r *simrt.Result) {
	c.Steps += r.Steps
	c.SimTime += r.Now
	c.mix(r.Hash)
}

// stepOverride lowers every step budget while a run that never ends is minimised.
var stepOverride int64

func capSteps(n int64) int64 {
	if n == 0 {
		n = defSteps
	}
	if stepOverride > 0 && n > stepOverride {
		n = stepOverride
	}
	return n
}

// solo runs f alone as a simulated task.
func (c *Ctx) solo(steps int64, f func()) outcome {
	steps = capSteps(steps)
	r := simrt.Run(simrt.Config{Seed: 1, StepCap: steps, AllocCap: defAlloc}, f)
	c.account(r)
	return outcomeOf(r, 0)
}

func outcomeOf(r *simrt.Result, i int) outcome {
	o := outcome{Abort: r.Abort}
	if i < len(r.Tasks) && r.Tasks[i].Panic != nil {
		o.Panic, o.Stack = r.Tasks[i].Panic.Value, r.Tasks[i].Panic.Stack
	}
	return o
}

// main runs the clients under the scenario's schedule.
func (c *Ctx) main(sc *Scenario, steps int64, fns ...func()) *simrt.Result {
	steps = capSteps(steps)
	cfg := simrt.Config{Seed: sc.Sched.Seed, Mean: sc.Sched.Mean, StepCap: steps, AllocCap: defAlloc}
	if sc.Sched.Fixed {
		cfg.Replay, cfg.Has = sc.Sched.Decisions, true
	}
	r := simrt.Run(cfg, fns...)
	c.account(r)
	c.Switches += r.Switches
	c.Preempts += r.Preempts
	c.SchedH = r.SchedHash
	c.Decs = r.Decisions
	return r
}

// runBad reports the worst thing that happened to the tasks of a run.
func runBad(r *simrt.Result) *Violation {
	for i := range r.Tasks {
		if r.Tasks[i].Panic != nil {
			o := outcomeOf(r, i)
			o.Abort = ""
			v := o.bad()
			v.Detail = fmt.Sprintf("client %d: %s", i, v.Detail)
			return v
		}
	}
	if r.Abort != "" {
		o := outcome{Abort: r.Abort}
		return o.bad()
	}
	return nil
}

// parsed is the outcome of a parse.
type parsed struct {
	bm  *beatmap.BeatMap
	err error
	out outcome
	st  readerStats
}

func (c *Ctx) parseBytes(b []byte, steps int64) parsed {
	var p parsed
	p.out = c.solo(steps, func() { p.bm, p.err = beatmap.ParseFromByte(b) })
	return p
}

func (c *Ctx) parseReader(b []byte, d Delivery, steps int64) parsed {
	var p parsed
	rd := newReader(b, d)
	p.out = c.solo(steps, func() { p.bm, p.err = beatmap.ParseFromReader(wrapReader(rd, d)) })
	p.st = rd.st
	c.readerCounts(rd.st)
	return p
}

func (c *Ctx) readerCounts(s readerStats) {
	c.count("reads", s.Reads)
	c.count("short_read", s.Short)
	c.count("empty_read", s.Empty)
	c.count("stall", s.Stalls)
	c.count("eof_with_data", s.EOFWith)
	c.count("scribble", s.Scribbles)
	c.count("read_error", s.Fails)
	c.count("reader_panic", s.Panics)
	c.count("split_in_character", s.SplitChar)
	c.count("split_in_line_end", s.SplitEOL)
	c.count("split_in_bom", s.SplitBOM)
}

func errIs(err, target error) bool { return errors.Is(err, target) }

func (p *parsed) String() string {
	if p.err != nil {
		return "error " + p.err.Error()
	}
	return "a beatmap"
}

// Raw is a byte string; JSON cannot hold arbitrary bytes, so those are written in base 64.
type Raw string

func (r Raw) MarshalJSON() ([]byte, error) {
	s := string(r)
	if !utf8.ValidString(s) || strings.HasPrefix(s, "base64:") {
		s = "base64:" + base64.StdEncoding.EncodeToString([]byte(s))
	}
	return json.Marshal(s)
}

func (r *Raw) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	if strings.HasPrefix(s, "base64:") {
		d, err := base64.StdEncoding.DecodeString(s[7:])
		if err != nil {
			return err
		}
		s = string(d)
	}
	*r = Raw(s)
	return nil
}
