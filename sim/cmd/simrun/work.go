package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"syscall"
	"time"

	"gosusim/simrt"
)

// Found is a violation as a worker found it.
type Found struct {
	Run int       `json:"run"`
	V   Violation `json:"v"`
	Sc  *Scenario `json:"sc"`
	Dec int       `json:"decisions"`
}

// WorkOut is what a worker reports for its chunk.
type WorkOut struct {
	Runs      int                `json:"runs"`
	Trivial   int                `json:"trivial"`
	Steps     int64              `json:"steps"`
	SimTime   int64              `json:"sim_time"`
	Switches  int64              `json:"switches"`
	Preempts  int64              `json:"preempts"`
	Counts    map[string]int64   `json:"counts"`
	Keys      []string           `json:"keys"`
	Scheds    []string           `json:"scheds"`
	Hashes    []string           `json:"hashes"`
	Seen      []int              `json:"seen"`
	Switched  []int              `json:"switched"`
	Samples   []*json.RawMessage `json:"samples"`
	SampleRun []int              `json:"sample_runs"`
	Found     *Found             `json:"found,omitempty"`
	Trouble   string             `json:"trouble,omitempty"`
	Cut       bool               `json:"cut,omitempty"`
}

var runCounter int64

var ballast []byte

// limits keeps a broken tree from taking the machine down: it fails here, as a crash of this process.
func limits() {
	debug.SetMaxStack(128 << 20)
	// every parse takes a 10 MiB buffer: without a floor under the heap size each of them would start a collection
	ballast = make([]byte, 100<<20)
	debug.SetGCPercent(200)
	if !simrt.RaceBuild {
		lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	} else {
		debug.SetMemoryLimit(3 << 30)
	}
	runtime.GOMAXPROCS(2)
}

func watchdog() {
	go func() {
		last, lastRun, idle := int64(-1), int64(-1), 0
		for {
			time.Sleep(5 * time.Second)
			p, r := simrt.Progress(), atomic.LoadInt64(&runCounter)
			if p == last && r == lastRun {
				idle++
			} else {
				idle = 0
			}
			last, lastRun = p, r
			if idle >= 16 {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "simrun: WATCHDOG: no simulated progress for two minutes of real time\n%s\n", buf[:n])
				os.Exit(3)
			}
		}
	}()
}

func hex(v uint64) string { return strconv.FormatUint(v, 36) }

func cmdWork(args []string) {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 1, "")
	secs := fs.Float64("secs", 1e9, "")
	sample := fs.Bool("sample", false, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	p := props[*prop]
	if p == nil {
		fatal("no property %s", *prop)
	}
	limits()
	watchdog()
	out := bufio.NewWriter(os.Stdout)
	o := &WorkOut{Counts: map[string]int64{}}
	start := time.Now()
	for n := *from; n < *to; n++ {
		if time.Since(start).Seconds() > *secs {
			o.Cut = true
			break
		}
		atomic.AddInt64(&runCounter, 1)
		// the parent must know which run was executing if this process dies
		fmt.Fprintf(out, "R %d\n", n)
		out.Flush()
		sc := makeScenario(p, *seed, n, *tier)
		t0 := time.Now()
		c, v, trouble := execute(p, sc)
		if *verbose {
			fmt.Fprintf(os.Stderr, "run %d %v steps %d trivial %v %v\n", n, time.Since(t0), c.Steps, c.Trivial, v)
		}
		o.Runs++
		o.Steps += c.Steps
		o.SimTime += c.SimTime / 1e6 // milliseconds
		o.Switches += int64(c.Switches)
		o.Preempts += int64(c.Preempts)
		for k, x := range c.Counts {
			o.Counts[k] += x
		}
		o.Hashes = append(o.Hashes, hex(c.Hash))
		if c.Trivial {
			o.Trivial++
		} else {
			o.Keys = append(o.Keys, hex(c.Key))
			if c.Switches > 0 {
				o.Scheds = append(o.Scheds, hex(c.SchedH))
			}
			if *sample && len(o.Samples) < 40 {
				b, err := json.Marshal(sc)
				if err != nil {
					fatal("run %d cannot be written out: %v", n, err)
				}
				if len(b) < 6000 {
					rm := json.RawMessage(b)
					o.Samples = append(o.Samples, &rm)
					o.SampleRun = append(o.SampleRun, n)
				}
			}
		}
		if trouble != "" {
			o.Trouble = trouble
			break
		}
		if v != nil {
			o.Found = &Found{Run: n, V: *v, Sc: sc, Dec: len(c.Decs)}
			break
		}
	}
	o.Seen, o.Switched = simrt.Coverage()
	b, err := json.Marshal(o)
	if err != nil {
		fatal("cannot report: %v", err)
	}
	fmt.Fprintf(out, "OUT %s\n", b)
	out.Flush()
}

// cmdReplay runs a recorded execution; exit 1 if it violates the property again.
func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	quiet := fs.Bool("q", false, "")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fatal("usage: simrun replay FILE")
	}
	r := readRecord(fs.Arg(0))
	p := props[r.Property]
	if p == nil {
		fatal("no property %s", r.Property)
	}
	if r.Race && !simrt.RaceBuild {
		fatal("this replay needs the race build")
	}
	limits()
	watchdog()
	var v *Violation
	var c *Ctx
	var trouble string
	if r.Scenario != nil {
		c, v, trouble = execute(p, r.Scenario)
	} else {
		for n := r.History.From; n <= r.History.Run; n++ {
			c, v, trouble = execute(p, makeScenario(p, r.History.Seed, n, r.Tier))
			if v != nil || trouble != "" {
				break
			}
		}
	}
	if trouble != "" {
		fatal("%s", trouble)
	}
	if v == nil {
		fmt.Printf("no violation (event hash %s)\n", hex(c.Hash))
		return
	}
	b, _ := json.Marshal(v)
	fmt.Printf("RESULT %s\n", b)
	if !*quiet {
		fmt.Printf("event hash %s\nVIOLATION property=%s replay=%s\n", hex(c.Hash), r.Property, fs.Arg(0))
	}
	os.Exit(1)
}

func cmdShow(args []string) {
	fs := flag.NewFlagSet("show", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	run := fs.Int("run", 0, "")
	text := fs.Bool("text", false, "")
	fs.Parse(args)
	var sc *Scenario
	if fs.NArg() == 1 {
		sc = readRecord(fs.Arg(0)).Scenario
	} else {
		sc = makeScenario(props[*prop], *seed, *run, "quick")
	}
	if *text {
		for i := range sc.Maps {
			b := sc.Maps[i].Bytes()
			if i < len(sc.Faults) {
				b = damage(&sc.Maps[i], sc.Faults[i], map[string]int64{})
			}
			os.Stdout.Write(b)
		}
		return
	}
	b, _ := json.MarshalIndent(sc, "", " ")
	os.Stdout.Write(b)
}
