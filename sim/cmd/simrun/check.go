package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const raceBase = 1 << 20 // run numbers from here on execute in the race build

type chunk struct {
	from, to int
	race     bool
}

type chunkRes struct {
	chunk
	out   *WorkOut
	found *Found // also for crashes
	crash bool
	race  bool
	fail  string // trouble
}

type checker struct {
	p       *Prop
	tier    string
	seed    uint64
	bin     string
	raceBin string
	replays string
	secs    float64
	start   time.Time
	ctx     context.Context
	cancel  context.CancelFunc
	mu      sync.Mutex
	stopAt  int // runs above this number are no longer interesting
}

func (k *checker) binary(race bool) string {
	if race {
		return k.raceBin
	}
	return k.bin
}

func childEnv() []string {
	var e []string
	for _, v := range os.Environ() {
		if strings.HasPrefix(v, "GORACE=") || strings.HasPrefix(v, "GODEBUG=") || strings.HasPrefix(v, "GOMAXPROCS=") || strings.HasPrefix(v, "GOGC=") || strings.HasPrefix(v, "GOTRACEBACK=") {
			continue
		}
		e = append(e, v)
	}
	return append(e, "GORACE=halt_on_error=1 exitcode=66 history_size=2")
}

// fatalClass turns the death of a process into a violation class; "" means the death says nothing about the code under test.
func fatalClass(code int, stderr string) (class, detail string) {
	if code == 66 && strings.Contains(stderr, "DATA RACE") {
		return "race", raceDetail(stderr)
	}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "panic: ") {
			if !strings.Contains(stderr, "github.com/Wieku/gosu-pp") {
				return "", l
			}
			if strings.HasPrefix(l, "fatal error: ") && strings.Contains(l, "out of memory") {
				return "memory", l
			}
			return "crash", l + frames(stderr)
		}
	}
	return "", ""
}

func frames(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "github.com/Wieku/gosu-pp/") {
			f := strings.TrimPrefix(l, "github.com/Wieku/gosu-pp/")
			if k := strings.LastIndex(f, "("); k > 0 {
				f = f[:k]
			}
			if len(out) == 0 || out[len(out)-1] != f {
				out = append(out, f)
			}
			if len(out) == 4 {
				break
			}
		}
	}
	if len(out) == 0 {
		return ""
	}
	return " in " + strings.Join(out, " < ")
}

var raceFrame = regexp.MustCompile(`^\s+(github\.com/Wieku/gosu-pp/\S+)\(`)

func raceDetail(s string) string {
	var parts []string
	cur := ""
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Previous write"), strings.HasPrefix(t, "Previous read"), strings.HasPrefix(t, "Atomic"), strings.HasPrefix(t, "Previous atomic"):
			cur = strings.Join(strings.Fields(t)[:2], " ")
			if k := strings.Index(cur, " at"); k > 0 {
				cur = cur[:k]
			}
		case cur != "":
			if m := raceFrame.FindStringSubmatch(l); m != nil {
				parts = append(parts, cur+" in "+strings.TrimPrefix(m[1], "github.com/Wieku/gosu-pp/"))
				cur = ""
			}
		}
		if len(parts) == 2 {
			break
		}
	}
	return "unsynchronised conflicting access: " + strings.Join(parts, "; ")
}

// raceOurs: a report without any frame of the code under test would be one about the harness itself.
func raceOurs(s string) bool {
	return raceFrame.FindString(s) != "" || strings.Contains(s, "github.com/Wieku/gosu-pp/")
}

func (k *checker) runChunk(parent context.Context, ch chunk, sample bool, secs float64) *chunkRes {
	ctx, cancel := context.WithTimeout(parent, time.Duration((secs+200)*float64(time.Second)))
	defer cancel()
	args := []string{"work", "-prop", k.p.ID, "-tier", k.tier, "-seed", fmt.Sprint(k.seed), "-from", fmt.Sprint(ch.from), "-to", fmt.Sprint(ch.to), "-secs", fmt.Sprint(secs)}
	if sample {
		args = append(args, "-sample")
	}
	cmd := exec.CommandContext(ctx, k.binary(ch.race), args...)
	cmd.Env = childEnv()
	var se bytes.Buffer
	cmd.Stderr = &se
	so, err := cmd.StdoutPipe()
	if err != nil {
		return &chunkRes{chunk: ch, fail: err.Error()}
	}
	if err := cmd.Start(); err != nil {
		return &chunkRes{chunk: ch, fail: err.Error()}
	}
	res := &chunkRes{chunk: ch}
	last := ch.from
	rd := bufio.NewReaderSize(so, 1<<20)
	for {
		l, err := rd.ReadString('\n')
		if strings.HasPrefix(l, "R ") {
			last, _ = strconv.Atoi(strings.TrimSpace(l[2:]))
			k.mu.Lock()
			stop := last > k.stopAt
			k.mu.Unlock()
			if stop {
				cancel()
			}
		} else if strings.HasPrefix(l, "OUT ") {
			var o WorkOut
			if e := json.Unmarshal([]byte(l[4:]), &o); e != nil {
				res.fail = "worker report: " + e.Error()
			} else {
				res.out = &o
			}
		}
		if err != nil {
			break
		}
	}
	werr := cmd.Wait()
	if res.out != nil {
		if res.out.Trouble != "" {
			res.fail = res.out.Trouble
		}
		res.found = res.out.Found
		return res
	}
	k.mu.Lock()
	stopped := last > k.stopAt
	k.mu.Unlock()
	if stopped || parent.Err() != nil {
		return res
	}
	code := -1
	if cmd.ProcessState != nil {
		code = cmd.ProcessState.ExitCode()
	}
	class, detail := fatalClass(code, se.String())
	if class == "race" && !raceOurs(se.String()) {
		class = ""
		detail = "race report without a frame of the code under test"
	}
	if class == "" {
		res.fail = fmt.Sprintf("worker for runs %d-%d died (%v, exit %d): %s\n%s", ch.from, ch.to, werr, code, detail, tail(se.String(), 4000))
		return res
	}
	res.crash = true
	res.found = &Found{Run: last, V: Violation{class, clip(detail, 600)}}
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func (k *checker) left() float64 { return 860 - time.Since(k.start).Seconds() }

// replayOnce runs a record in a fresh process and says what class of violation it shows, "" if none.
func (k *checker) replayOnce(path string, race bool, secs float64) (class, detail, trouble string) {
	ctx, cancel := context.WithTimeout(k.ctx, time.Duration(secs*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(ctx, k.binary(race), "replay", "-q", path)
	cmd.Env = childEnv()
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if err == nil {
		return "", "", ""
	}
	code := cmd.ProcessState.ExitCode()
	if code == 1 {
		for _, l := range strings.Split(so.String(), "\n") {
			if strings.HasPrefix(l, "RESULT ") {
				var v Violation
				if json.Unmarshal([]byte(l[7:]), &v) == nil {
					return v.Class, v.Detail, ""
				}
			}
		}
	}
	if c, d := fatalClass(code, se.String()); c != "" {
		return c, clip(d, 600), ""
	}
	return "", "", fmt.Sprintf("replay: %v (exit %d) %s", err, code, tail(se.String(), 1500))
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	raceBin := fs.String("racebin", "", "")
	root := fs.String("root", "/verif", "")
	secs := fs.Float64("secs", 0, "wall-clock limit of the search")
	nruns := fs.Int("runs", 0, "")
	workers := fs.Int("workers", 0, "")
	sites := fs.String("sites", "", "")
	plain := fs.Bool("plain", false, "the tree could not be instrumented")
	fs.Parse(args)
	p := props[*prop]
	if p == nil {
		fatal("no property %q", *prop)
	}
	if *tier != "quick" && *tier != "thorough" {
		fatal("no tier %q", *tier)
	}
	bin, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	k := &checker{p: p, tier: *tier, seed: *seed, bin: bin, raceBin: *raceBin, replays: filepath.Join(*root, "replays"), secs: *secs, start: time.Now(), stopAt: 1 << 60}
	k.ctx, k.cancel = context.WithDeadline(context.Background(), k.start.Add(860*time.Second))
	defer k.cancel()
	os.MkdirAll(k.replays, 0o755)
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	runs := p.Quick
	if k.secs == 0 {
		k.secs = 240
	}
	if *tier == "thorough" {
		runs = p.Quick * 40
		if *secs == 0 {
			k.secs = 600
		}
	}
	if *nruns > 0 {
		runs = *nruns
	}
	nw := *workers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	fmt.Printf("simrun: property=%s tier=%s seed=%d runs=%d workers=%d\n", p.ID, *tier, *seed, runs, nw)

	// the chunks, in the order in which they are handed out
	var chunks []chunk
	size := runs / 80
	if size < 10 {
		size = 10
	}
	if size > 400 {
		size = 400
	}
	for a := 0; a < runs; a += size {
		b := a + size
		if b > runs {
			b = runs
		}
		chunks = append(chunks, chunk{a, b, false})
	}
	if p.Race && *raceBin != "" {
		var rc []chunk
		n := runs / 4
		sz := size / 4
		if sz < 5 {
			sz = 5
		}
		for a := 0; a < n; a += sz {
			b := a + sz
			if b > n {
				b = n
			}
			rc = append(rc, chunk{raceBase + a, raceBase + b, true})
		}
		// mix them evenly
		var all []chunk
		i, j := 0, 0
		for i < len(chunks) || j < len(rc) {
			if j*len(chunks) <= i*len(rc) && j < len(rc) {
				all = append(all, rc[j])
				j++
			} else if i < len(chunks) {
				all = append(all, chunks[i])
				i++
			} else {
				all = append(all, rc[j])
				j++
			}
		}
		chunks = all
	}
	// known findings are replayed first
	known := readKnown(filepath.Join(*root, "known_findings.txt"), p.ID)

	results := make([]*chunkRes, len(chunks))
	next := 0
	stop := false
	sctx, stopSearch := context.WithCancel(k.ctx)
	defer stopSearch()
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				k.mu.Lock()
				left := k.secs - time.Since(k.start).Seconds()
				if stop || next >= len(chunks) || left <= 0 {
					k.mu.Unlock()
					return
				}
				i := next
				next++
				k.mu.Unlock()
				r := k.runChunk(sctx, chunks[i], i < 2, left)
				k.mu.Lock()
				results[i] = r
				if r.fail != "" {
					stop = true
				}
				if r.found != nil && !known.matches(&r.found.V) {
					if !stop {
						// earlier runs that are still executing may finish, within reason
						time.AfterFunc(60*time.Second, stopSearch)
					}
					stop = true
					if r.found.Run < k.stopAt {
						k.stopAt = r.found.Run
					}
				}
				k.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(k.start).Seconds()

	agg := newAgg()
	var founds []*chunkRes
	var trouble string
	for _, r := range results {
		if r == nil {
			continue
		}
		if r.out != nil {
			agg.add(r.out, r.chunk.race)
		}
		if r.found != nil {
			founds = append(founds, r)
		}
		if r.fail != "" && trouble == "" {
			trouble = r.fail
		}
	}
	sort.SliceStable(founds, func(i, j int) bool { return founds[i].found.Run < founds[j].found.Run })

	violations := 0
	printedKnown := map[string]bool{}
	var unconfirmed []string
	final := ""
	for _, f := range founds {
		if kf := known.find(&f.found.V); kf != nil {
			if !printedKnown[kf.text] {
				printedKnown[kf.text] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, kf.text)
			}
			continue
		}
		path, why := k.confirm(f)
		if path == "" {
			unconfirmed = append(unconfirmed, why)
			continue
		}
		violations++
		final = path
		break
	}
	var audit string
	audited, mismatched := 0, 0
	if violations == 0 && trouble == "" && len(unconfirmed) == 0 {
		audited, mismatched, audit = k.audit(results, chunks)
	}
	ev := agg.evidence(k, runs, nw, searchS, *sites, *plain)
	cov := ev["coverage"].(map[string]interface{})
	cov["determinism_audit"] = map[string]interface{}{"runs_repeated_in_another_process_and_order": audited, "differing_event_hashes": mismatched}
	ev["violations"] = violations
	ev["wall_s"] = time.Since(k.start).Seconds()
	writeJSON(filepath.Join(*root, "evidence", p.ID+".json"), ev)

	if final != "" {
		r := readRecord(final)
		fmt.Printf("%s: %s\n", r.Class, r.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, final)
		os.Exit(1)
	}
	if trouble != "" {
		fatal("trouble: %s", trouble)
	}
	if len(unconfirmed) > 0 {
		fatal("a violation did not reproduce in a fresh process, so it is not reported: %s", strings.Join(unconfirmed, "; "))
	}
	if audit != "" {
		fmt.Fprintln(os.Stderr, "simrun: warning:", audit)
	}
	fmt.Printf("ok: %d runs (%d non-trivial, %d distinct), %d yield points executed, %.0f s simulated, %.1f s\n", agg.runs, agg.runs-agg.trivial, len(agg.keys), agg.steps, float64(agg.simTime)/1e3, time.Since(k.start).Seconds())
	if agg.runs == 0 {
		fatal("no run completed")
	}
}

// confirm reproduces a finding in a fresh process, minimises it and writes its replay file.
func (k *checker) confirm(r *chunkRes) (path, why string) {
	f := r.found
	if f.Sc == nil {
		f.Sc = makeScenario(k.p, k.seed, f.Run, k.tier)
	}
	base := filepath.Join(k.replays, fmt.Sprintf("%s-seed%d-run%d", k.p.ID, k.seed, f.Run))
	build := ""
	if r.chunk.race {
		build = " (race build)"
	}
	rec := &Record{Property: k.p.ID, Class: f.V.Class, Detail: f.V.Detail, Race: r.chunk.race, Tier: k.tier, Scenario: f.Sc,
		Original: fmt.Sprintf("seed %d, run %d%s: %s: %s", k.seed, f.Run, build, f.V.Class, f.V.Detail),
		How:      "/verif/check.sh replay " + base + ".json"}
	raw := base + ".full.json"
	rec.write(raw)
	ok := false
	var got string
	for try := 0; try < 6 && !ok && (try == 0 || k.left() > 450); try++ {
		c, d, tr := k.replayOnce(raw, rec.Race, 120)
		if c == f.V.Class {
			ok = true
			rec.Detail = d
		}
		got = c + " " + tr
	}
	if !ok && !r.crash && f.Run > r.chunk.from {
		// needs what ran before it in the same process
		h := *rec
		h.Scenario, h.History = nil, &History{k.seed, r.chunk.from, f.Run}
		h.write(raw)
		for try := 0; try < 2 && k.left() > 200; try++ {
			c, d, _ := k.replayOnce(raw, rec.Race, 200)
			if c == f.V.Class {
				h.Detail = d
				h.write(base + ".json")
				os.Remove(raw)
				return base + ".json", ""
			}
		}
	}
	if !ok {
		return "", fmt.Sprintf("run %d: %s: %s (fresh process: %s)", f.Run, f.V.Class, f.V.Detail, strings.TrimSpace(got))
	}
	rec.write(base + ".json")
	budget := 40.0
	if k.left() < 400 {
		budget = 10
	}
	if rec.Race || r.crash {
		k.shrinkOutside(rec, base, budget)
	} else {
		ctx, cancel := context.WithTimeout(k.ctx, time.Duration((budget+30)*float64(time.Second)))
		cmd := exec.CommandContext(ctx, k.bin, "shrink", "-in", raw, "-out", base+".min.json", "-secs", fmt.Sprint(budget))
		cmd.Env = childEnv()
		var se bytes.Buffer
		cmd.Stderr = &se
		cmd.Run()
		// the shrinker writes every improvement, so what it got to counts even if it ran out of time
		if _, err := os.Stat(base + ".min.json"); err == nil {
			c, _, _ := k.replayOnce(base+".min.json", rec.Race, 120)
			if c == rec.Class {
				os.Rename(base+".min.json", base+".json")
			}
		}
		cancel()
		fmt.Fprint(os.Stderr, tail(se.String(), 500))
		os.Remove(base + ".min.json")
	}
	os.Remove(raw)
	return base + ".json", ""
}

// shrinkOutside minimises with a fresh process per candidate, for violations that end the process.
func (k *checker) shrinkOutside(rec *Record, base string, budget float64) {
	tmp := base + ".try.json"
	defer os.Remove(tmp)
	detail := rec.Detail
	s := &shrinker{best: rec.Scenario, deadline: time.Now().Add(time.Duration(budget * float64(time.Second)))}
	s.fails = func(sc *Scenario) bool {
		n := *rec
		n.Scenario = sc
		n.write(tmp)
		c, d, _ := k.replayOnce(tmp, rec.Race, 60)
		if c == rec.Class {
			detail = d
			return true
		}
		return false
	}
	s.run()
	n := *rec
	n.Scenario, n.Detail = s.best, detail
	n.write(tmp)
	for try := 0; try < 3 && (try == 0 || k.left() > 150); try++ {
		if c, d, _ := k.replayOnce(tmp, rec.Race, 60); c == rec.Class {
			n.Detail = d
			n.write(base + ".json")
			return
		}
	}
}

// audit repeats a sample of runs in fresh processes, each alone and in another order, and compares event hashes.
func (k *checker) audit(results []*chunkRes, chunks []chunk) (n, bad int, msg string) {
	want := map[int]string{}
	race := map[int]bool{}
	var order []int
	rg := NewRng(k.seed, "audit"+k.p.ID)
	per := 1
	for i, r := range results {
		if r == nil || r.out == nil || len(r.out.Hashes) == 0 {
			continue
		}
		if len(results) > 60 && i%(len(results)/30) != 0 {
			continue
		}
		for q := 0; q < per; q++ {
			j := rg.N(len(r.out.Hashes))
			run := chunks[i].from + j
			want[run] = r.out.Hashes[j]
			race[run] = chunks[i].race
			order = append(order, run)
		}
	}
	if len(order) > 24 {
		order = order[:24]
	}
	sem := make(chan struct{}, 5)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, run := range order {
		wg.Add(1)
		sem <- struct{}{}
		go func(run int) {
			defer wg.Done()
			defer func() { <-sem }()
			// the race build and the plain build must agree as well
			c := k.runChunk(k.ctx, chunk{run, run + 1, race[run]}, false, 60)
			mu.Lock()
			defer mu.Unlock()
			if c.out == nil || len(c.out.Hashes) != 1 {
				return
			}
			n++
			if c.out.Hashes[0] != want[run] {
				bad++
				msg = fmt.Sprintf("run %d has event hash %s, and %s in a fresh process", run, want[run], c.out.Hashes[0])
			}
		}(run)
	}
	wg.Wait()
	return
}

// cmdAudit is the large determinism test: every run of a range in two builds, in several chunkings.
func cmdAudit(args []string) {
	fs := flag.NewFlagSet("audit", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("runs", 200, "")
	raceBin := fs.String("racebin", "", "")
	fs.Parse(args)
	bin, _ := os.Executable()
	total, bad := 0, 0
	for id, p := range props {
		if *prop != "" && id != *prop {
			continue
		}
		k := &checker{p: p, tier: "quick", seed: *seed, bin: bin, raceBin: *raceBin, start: time.Now(), stopAt: 1 << 60}
		k.ctx, k.cancel = context.WithCancel(context.Background())
		var ref []string
		for pass, size := range []int{*n, 37, 7, 50} {
			race := pass == 3
			if race && *raceBin == "" {
				continue
			}
			got := make([]string, *n)
			var wg sync.WaitGroup
			sem := make(chan struct{}, []int{1, 3, 8, 8}[pass])
			for a := 0; a < *n; a += size {
				b := a + size
				if b > *n {
					b = *n
				}
				wg.Add(1)
				sem <- struct{}{}
				go func(a, b int) {
					defer wg.Done()
					defer func() { <-sem }()
					r := k.runChunk(k.ctx, chunk{a, b, race}, false, 1e6)
					if r.out == nil {
						fmt.Println(id, "no output", r.fail, r.found)
						return
					}
					copy(got[a:b], r.out.Hashes)
				}(a, b)
			}
			wg.Wait()
			if ref == nil {
				ref = got
				continue
			}
			for i := range ref {
				total++
				if ref[i] != got[i] {
					bad++
					fmt.Printf("%s run %d: %s vs %s (pass %d)\n", id, i, ref[i], got[i], pass)
				}
			}
		}
	}
	fmt.Printf("audit: %d comparisons, %d differ\n", total, bad)
	if bad > 0 {
		os.Exit(2)
	}
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}
