package main

import (
	"bytes"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"gosusim/simrt"
)

// Prop is one property's machinery: how scenarios are drawn, and how one is executed and judged.
type Prop struct {
	ID    string
	Level string
	Gen   func(r *Rng, run int, tier string) *Scenario
	Run   func(sc *Scenario, c *Ctx) *Violation
	Quick int // runs
	Rule  string
	Race  bool
	Stubs []string
}

func swarm(r *Rng) GenCfg {
	c := GenCfg{MinObjs: 0, MaxObjs: 30, Unicode: r.P(0.4), Wild: r.P(0.5), Mania: r.P(0.1)}
	switch r.N(12) {
	case 0:
		c.MaxObjs = 3
	case 1, 2:
		c.MinObjs, c.MaxObjs = 30, 120
	case 3:
		c.MinObjs, c.MaxObjs = 0, 8
	}
	return c
}

func pickCorpus(r *Rng) string { return r.Pick([]string{"saveme", "umbrella", "umbrella16"}) }

// ---- C01

func genC01(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{}
	if run%200 == 7 {
		sc.Maps = []MapSpec{{Corpus: pickCorpus(r)}}
	} else {
		c := swarm(r)
		c.LongLines = r.P(0.25)
		if run%40 == 3 {
			c.LongLines, c.MinObjs, c.MaxObjs = true, 40, 150
		}
		sc.Maps = []MapSpec{GenMap(r, c)}
		if run%500 == 11 {
			// a line of several megabytes, still below the limit
			m := &sc.Maps[0]
			for i := range m.Meta {
				if m.Meta[i].K == "Tags" {
					m.Meta[i].V = bigText(r, r.PickI(1<<20, 2<<20, 3<<20, 10<<20-100))
				}
			}
		}
	}
	n := len(sc.Maps[0].Bytes())
	for i := r.PickI(1, 1, 2, 3); i > 0; i-- {
		sc.Del = append(sc.Del, genDelivery(r, n))
	}
	return sc
}

func bigText(r *Rng, n int) string {
	var b strings.Builder
	w := r.Pick([]string{"tag ", "ab", "稲葉曇 "})
	for b.Len()+len(w)+1 < n {
		b.WriteString(w)
	}
	return b.String() + "x"
}

func runC01(sc *Scenario, c *Ctx) *Violation {
	m := &sc.Maps[0]
	data := m.Bytes()
	keep := append([]byte(nil), data...)
	p := c.parseBytes(data, 0)
	if v := p.out.bad(); v != nil {
		return v
	}
	if p.err != nil || p.bm == nil {
		return viol("rejected", "a valid file of %d bytes given as a byte slice: beatmap %v, error %v", len(data), p.bm != nil, p.err)
	}
	if m.Corpus == "" {
		if s := m.checkAll(p.bm); s != "" {
			return viol("records", "given as a byte slice: %s", s)
		}
	}
	ask := askTimes(m.tpTimes(), p.bm)
	want := digMap(p.bm, ask, true)
	c.mix(hashLines(want))
	c.Trivial = true
	for _, d := range sc.Del {
		q := c.parseReader(data, d, 0)
		if v := q.out.bad(); v != nil {
			return v
		}
		if q.err != nil || q.bm == nil {
			return viol("delivery", "the same file through a reader (%+v): beatmap %v, error %v", d, q.bm != nil, q.err)
		}
		if m.Corpus == "" {
			if s := m.checkAll(q.bm); s != "" {
				return viol("records", "through a reader (%+v): %s", d, s)
			}
		}
		got := digMap(q.bm, ask, true)
		if s := diffLines(got, want); s != "" {
			return viol("delivery", "through a reader (%+v): %s", d, s)
		}
		if q.st.Short > 1 || q.st.Empty > 0 {
			c.Trivial = false
		}
		c.mix(hashLines(got))
		c.mix(uint64(q.st.Reads)<<20 | uint64(q.st.Empty))
	}
	if !bytes.Equal(data, keep) {
		return viol("input changed", "parsing changed the caller's bytes")
	}
	c.Key = c.Hash
	return nil
}

// ---- C02

func genC02(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{}
	if run%400 == 9 {
		sc.Kind = "long line"
		sc.Maps = []MapSpec{GenMap(r, GenCfg{MaxObjs: 10})}
		m := &sc.Maps[0]
		n := 10<<20 + r.PickI(0, 1, 1000, 2<<20)
		if r.P(0.5) {
			for i := range m.Meta {
				if m.Meta[i].K == "Tags" {
					m.Meta[i].V = bigText(r, n+10)
				}
			}
		} else {
			m.Events = append(m.Events, "Sprite,Foreground,Centre,\""+bigText(r, n+10)+"\",1,1")
		}
		sc.Del = []Delivery{{Mode: r.Pick([]string{"whole", "big"}), Seed: r.U64()}}
		return sc
	}
	if run%300 == 5 {
		sc.Maps = []MapSpec{{Corpus: pickCorpus(r)}}
	} else {
		c := swarm(r)
		c.LongLines = r.P(0.1)
		sc.Maps = []MapSpec{GenMap(r, c)}
		sc.Maps[0].Enc = r.Pick([]string{"utf8", "utf8", "utf8", "utf8bom", "utf16le", "utf16be"})
	}
	m := &sc.Maps[0]
	data := m.Bytes()
	n := len(data)
	for i := r.Range(1, 4); i > 0; i-- {
		d := genDelivery(r, n)
		if d.Mode == "one" && n > 5000 {
			d.Mode = "tiny"
		}
		at := r.N(n + 1)
		switch r.N(6) {
		case 0:
			at = n
		case 1:
			at = r.PickI(0, 1, 2, 3, n-1, n-2)
		case 2:
			// at a line boundary
			if k := bytes.IndexByte(data[at:], '\n'); k >= 0 {
				at += k + r.N(2)
			}
		case 3:
			// late in the file, where a cut-off map still looks fine
			at = n - r.N(n/3+1)
		}
		if at < 0 {
			at = 0
		}
		if at > n {
			at = n
		}
		d.Fail = at + 1
		d.Err = r.Pick(errKinds)
		d.FailWith = r.P(0.5)
		d.After = r.Pick([]string{"", "", "eof"})
		sc.Del = append(sc.Del, d)
	}
	return sc
}

func runC02(sc *Scenario, c *Ctx) *Violation {
	m := &sc.Maps[0]
	data := m.Bytes()
	if sc.Kind == "long line" {
		var ref *beatmap.BeatMap
		p := c.parseReader(data, sc.Del[0], 0)
		c.count("overlong_line", 1)
		if v := p.out.bad(); v != nil {
			return v
		}
		if p.err == nil {
			// accepted only if nothing is missing
			ref = p.bm
			if ref == nil {
				return viol("partial", "a line longer than the limit: neither a beatmap nor an error")
			}
			if s := m.checkAll(ref); s != "" {
				return viol("partial", "a line of more than 10 MiB: no error, but %s", s)
			}
		} else if p.bm != nil {
			return viol("partial", "a line of more than 10 MiB: error %v together with a beatmap", p.err)
		}
		c.Key = c.Hash
		return nil
	}
	for _, d := range sc.Del {
		if d.Fail-1 > len(data) {
			d.Fail = len(data) + 1
		}
		rd := newReader(data, d)
		var p parsed
		p.out = c.solo(0, func() { p.bm, p.err = beatmap.ParseFromReader(wrapReader(rd, d)) })
		c.readerCounts(rd.st)
		c.count("err_"+d.Err, rd.st.Fails)
		if v := p.out.bad(); v != nil {
			return v
		}
		if rd.st.Fails == 0 {
			return viol("unread", "the parser returned (%s) without reading up to byte %d of %d, where the read error was", p.String(), d.Fail-1, len(data))
		}
		if p.err == nil {
			return viol("swallowed", "the reader failed with %q after %d of %d bytes, yet parsing returned no error", rd.err, d.Fail-1, len(data))
		}
		if p.bm != nil {
			return viol("partial", "the reader failed with %q after %d of %d bytes: the error came with a beatmap", rd.err, d.Fail-1, len(data))
		}
		if !errIs(p.err, rd.err) {
			return viol("masked", "the reader failed with %q after %d of %d bytes, but parsing reported %q, which does not wrap it", rd.err, d.Fail-1, len(data), p.err)
		}
		c.mix(uint64(d.Fail))
	}
	c.Key = c.Hash
	return nil
}

// ---- C03

var encs = []string{"utf8", "utf8bom", "utf16le", "utf16be"}

func genC03(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{}
	if run%250 == 5 {
		sc.Maps = []MapSpec{{Corpus: r.Pick([]string{"saveme", "umbrella"})}}
	} else {
		c := swarm(r)
		c.Unicode = r.P(0.9)
		c.LongLines = r.P(0.1)
		sc.Maps = []MapSpec{GenMap(r, c)}
	}
	for range encs {
		d := genDelivery(r, len(sc.Maps[0].Bytes())*2)
		if r.P(0.4) {
			d.Mode = r.Pick([]string{"marks", "one", "tiny"})
		}
		sc.Del = append(sc.Del, d)
	}
	// bit i: CRLF in variant i; bit 8+i: no final line end
	sc.Cuts = []int{int(r.U64() & 0xffff)}
	return sc
}

func runC03(sc *Scenario, c *Ctx) *Violation {
	m := sc.Maps[0]
	var want []string
	var ask []float64
	bits := 0
	if len(sc.Cuts) > 0 {
		bits = sc.Cuts[0]
	}
	for i, e := range encs {
		var data []byte
		if m.Corpus != "" {
			t := bytes.ReplaceAll(corpus[m.Corpus], []byte("\r\n"), []byte("\n"))
			if bits>>uint(8+i)&1 == 1 {
				t = bytes.TrimRight(t, "\n")
			}
			if bits>>uint(i)&1 == 1 {
				t = bytes.ReplaceAll(t, []byte("\n"), []byte("\r\n"))
			}
			data = encode(t, e)
		} else {
			m.Enc, m.CRLF, m.NoEOL = e, bits>>uint(i)&1 == 1, bits>>uint(8+i)&1 == 1
			data = m.Bytes()
		}
		var p parsed
		if i < len(sc.Del) {
			p = c.parseReader(data, sc.Del[i], 0)
		} else {
			p = c.parseBytes(data, 0)
		}
		if v := p.out.bad(); v != nil {
			return v
		}
		if p.err != nil || p.bm == nil {
			return viol("rejected", "stored as %s (CRLF %v, final line end %v): error %v", e, m.CRLF, !m.NoEOL, p.err)
		}
		if m.Corpus == "" {
			if s := m.checkAll(p.bm); s != "" {
				return viol("records", "stored as %s (CRLF %v, final line end %v): %s", e, m.CRLF, !m.NoEOL, s)
			}
		}
		if want == nil {
			ask = askTimes(m.tpTimes(), p.bm)
			want = digMap(p.bm, ask, true)
		} else if s := diffLines(digMap(p.bm, ask, true), want); s != "" {
			return viol("encoding", "stored as %s it differs from %s: %s", e, encs[0], s)
		}
		c.count("enc_"+e, 1)
	}
	c.mix(hashLines(want))
	c.Key = c.Hash
	return nil
}

// ---- C05

// lineEnds gives, for each line, the byte offset in the stored file at which its content is complete, and the offset at which
// its line end is complete.
func (m *MapSpec) lineEnds() (start, content, full []int) {
	text, _, rng := m.Text()
	size := func(b []byte) int {
		switch m.Enc {
		case "utf16le", "utf16be":
			n := 0
			for _, x := range string(b) {
				n += 2
				if x > 0xffff {
					n += 2
				}
			}
			return n
		}
		return len(b)
	}
	off := 0
	switch m.Enc {
	case "utf8bom":
		off = 3
	case "utf16le", "utf16be":
		off = 2
	}
	pos := 0
	for i, r := range rng {
		off += size(text[pos:r[0]])
		start = append(start, off)
		off += size(text[r[0]:r[1]])
		content = append(content, off)
		pos = r[1]
		end := len(text)
		if i+1 < len(rng) {
			end = rng[i+1][0]
		}
		full = append(full, off+size(text[r[1]:end]))
	}
	return
}

func genC05(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{}
	c := swarm(r)
	c.LongLines = false
	if c.MaxObjs > 60 {
		c.MinObjs, c.MaxObjs = 10, 60
	}
	sc.Maps = []MapSpec{GenMap(r, c)}
	m := &sc.Maps[0]
	m.Enc = r.Pick([]string{"utf8", "utf8", "utf8", "utf8bom", "utf16le", "utf16be"})
	n := len(m.Bytes())
	_, content, _ := m.lineEnds()
	k := 12
	if run%100 == 1 && n < 3000 {
		for i := 0; i <= n; i++ {
			sc.Cuts = append(sc.Cuts, i)
		}
		sc.Kind = "every cut"
	} else {
		for i := 0; i < k; i++ {
			at := r.N(n + 1)
			switch r.N(4) {
			case 0:
				// right at the end of a line
				at = content[r.N(len(content))] + r.Range(-1, 2)
			case 1:
				// somewhere inside a record
				j := r.N(len(content))
				at = content[j] - r.N(30)
			}
			if at < 0 {
				at = 0
			}
			if at > n {
				at = n
			}
			sc.Cuts = append(sc.Cuts, at)
		}
	}
	if r.P(0.5) {
		sc.Del = []Delivery{genDelivery(r, n)}
	}
	return sc
}

func runC05(sc *Scenario, c *Ctx) *Violation {
	m := &sc.Maps[0]
	data := m.Bytes()
	lines := m.Lines()
	start, content, full := m.lineEnds()
	ref := c.parseBytes(data, 0)
	if v := ref.out.bad(); v != nil {
		return v
	}
	if ref.err != nil {
		return viol("rejected", "the whole file is rejected: %v", ref.err)
	}
	refIdx, s := m.checkObjs(ref.bm, nil, 0)
	if s != "" {
		return viol("records", "the whole file: %s", s)
	}
	refDig := map[int]string{}
	for i, o := range ref.bm.HitObjects {
		refDig[refIdx[i]] = digObj(o, digPath)
	}
	utf16f := strings.HasPrefix(m.Enc, "utf16")
	for _, cut := range sc.Cuts {
		if cut > len(data) {
			cut = len(data)
		}
		c.count("cut", 1)
		k := &Mask{Gen: make([]bool, len(m.Gen)), Meta: make([]bool, len(m.Meta)), Diff: make([]bool, len(m.Diff)), Ev: make([]bool, len(m.Events)), TP: make([]bool, len(m.TPs)), Obj: make([]bool, len(m.Objs))}
		through := -1
		for i, l := range lines {
			if start[i] >= cut {
				break
			}
			done := cut >= content[i]
			if utf16f && cut > content[i] && cut < full[i] && (cut-content[i])%2 == 1 {
				done = false // cut through a character of its line end
			}
			if !done {
				through = i
				if l.Sec == "TimingPoints" {
					k.lostTP(l.Text, true)
				}
				if l.Sec == "Events" {
					k.lostEvent(l.Text)
				}
				c.count("cut_in_line_"+secName(l.Sec), 1)
				continue
			}
			if l.Rec >= 0 {
				k.of(l.Sec)[l.Rec] = true
			}
		}
		part := func(sec string) int {
			if through >= 0 && lines[through].Sec == sec {
				return 1
			}
			return 0
		}
		// a cut through a line may also turn it into something else of its section; a line that was no record is not judged
		if through >= 0 && lines[through].Rec < 0 {
			c.count("cut_in_other_line", 1)
		}
		var p parsed
		if len(sc.Del) > 0 {
			p = c.parseReader(data[:cut:cut], sc.Del[0], 0)
		} else {
			p = c.parseBytes(append([]byte(nil), data[:cut]...), 0)
		}
		if v := p.out.bad(); v != nil {
			v.Detail = "cut at byte " + itoa(cut) + ": " + v.Detail
			return v
		}
		tps := 0
		for _, x := range k.TP {
			if x {
				tps++
			}
		}
		ti, _, _ := lookup(m.Meta, k.Meta, "Title")
		ar, _, _ := lookup(m.Meta, k.Meta, "Artist")
		cr, _, _ := lookup(m.Meta, k.Meta, "Creator")
		if p.err != nil {
			if p.bm != nil {
				return viol("partial", "cut at byte %d of %d: error %v together with a beatmap", cut, len(data), p.err)
			}
			if tps > 0 && ti+ar+cr != "" {
				return viol("rejected", "cut at byte %d of %d: %v, although %d timing points and title %q, artist %q, creator %q survived", cut, len(data), p.err, tps, ti, ar, cr)
			}
			c.count("reported_corrupted", 1)
			continue
		}
		c.count("recovered", 1)
		b := p.bm
		if b == nil {
			return viol("partial", "cut at byte %d of %d: neither error nor beatmap", cut, len(data))
		}
		// records not in force but entirely cut off do not make a key doubtful; only the one cut through does
		km := *k
		if s := m.checkMeta(b, &km); s != "" {
			return viol("lost", "cut at byte %d of %d: %s", cut, len(data), s)
		}
		if s := m.checkEvents(b, k, part("Events")); s != "" {
			return viol("lost", "cut at byte %d of %d: %s", cut, len(data), s)
		}
		if s := m.checkTimings(b, k, part("TimingPoints")); s != "" {
			return viol("lost", "cut at byte %d of %d: %s", cut, len(data), s)
		}
		// the line cut through may be a hold-note turned circle and the like: at most one extra object
		idx, s := m.checkObjsCut(b, k, part("HitObjects"))
		if s != "" {
			return viol("lost", "cut at byte %d of %d: %s", cut, len(data), s)
		}
		if allTrue(k.TP) && sliderSettings(m, k) && part("TimingPoints") == 0 {
			for i, o := range b.HitObjects {
				if idx[i] < 0 {
					continue
				}
				if g, w := digObj(o, digPath), refDig[idx[i]]; g != w {
					return viol("changed", "cut at byte %d of %d: hit object record %d: %s", cut, len(data), idx[i], diffLines([]string{g}, []string{w}))
				}
			}
		}
		c.mix(uint64(cut)<<16 | uint64(len(b.HitObjects)))
	}
	c.Key = c.Hash
	return nil
}

func secName(s string) string {
	if s == "" {
		return "other"
	}
	return s
}

func (m *MapSpec) checkObjsCut(b *beatmap.BeatMap, k *Mask, extra int) ([]int, string) {
	if extra == 0 {
		return m.checkObjs(b, k, 0)
	}
	// the counts may include the altered record
	return m.checkObjs(b, k, extra)
}

func allTrue(b []bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}

func sliderSettings(m *MapSpec, k *Mask) bool {
	for i, x := range m.Diff {
		if (x.K == "SliderMultiplier" || x.K == "SliderTickRate") && !k.Diff[i] {
			return false
		}
	}
	return true
}

// ---- C06

func genC06(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{}
	c := swarm(r)
	if c.MaxObjs > 80 {
		c.MaxObjs = 80
	}
	if r.P(0.8) {
		c.MinObjs = 3
	}
	if c.MaxObjs < 5 {
		c.MaxObjs = 5
	}
	sc.Maps = []MapSpec{GenMap(r, c)}
	m := &sc.Maps[0]
	m.Enc = r.Pick([]string{"utf8", "utf8", "utf8", "utf8bom", "utf16le"})
	lines := m.Lines()
	n := r.PickI(1, 1, 1, 2, 3, 5)
	if r.P(0.1) {
		n = r.Range(6, 40) // a whole stretch of the file
	}
	focus := ""
	if r.P(0.7) {
		focus = r.Pick([]string{"HitObjects", "HitObjects", "HitObjects", "TimingPoints", "Events", "Difficulty", "Metadata", "General"})
	}
	seen := map[int]bool{}
	for try := 0; try < 200 && len(sc.Subs) < n; try++ {
		i := r.N(len(lines))
		l := lines[i]
		if l.Rec < 0 || seen[i] || focus != "" && l.Sec != focus && r.P(0.98) {
			continue
		}
		s := garble(r, l.Text)
		if o := lines[r.N(len(lines))]; o.Rec >= 0 && o.Sec == l.Sec && l.Sec != "" && r.P(0.15) {
			s = o.Text // another record of the same kind landed here
		}
		if !lineOK(m, l, s) {
			continue
		}
		seen[i] = true
		sc.Subs = append(sc.Subs, LineSub{i, Raw(s)})
	}
	if r.P(0.3) {
		sc.Del = []Delivery{genDelivery(r, 20000)}
	}
	return sc
}

// garble overwrites the content of a record.
func garble(r *Rng, l string) string {
	d := delimOf(l)
	switch r.N(13) {
	case 9, 10, 11, 12:
		// still looks like a record, but the numbers are wrong
		fs := strings.Split(l, d)
		for k := r.PickI(1, 1, 1, 2, 4); k > 0; k-- {
			i := r.N(len(fs))
			fs[i] = misnumber(r, fs[i])
		}
		return strings.Join(fs, d)
	case 0, 1, 2:
		fs := strings.Split(l, d)
		fs[r.N(len(fs))] = r.Pick(tokens)
		return strings.Join(fs, d)
	case 3:
		fs := strings.Split(l, d)
		return strings.Join(fs[:r.N(len(fs))], d)
	case 4:
		return l[:r.N(len(l)+1)]
	case 5:
		return r.Pick(lineTokens)
	case 6:
		b := []byte(l)
		for k := r.Range(1, 4); k > 0 && len(b) > 0; k-- {
			b[r.N(len(b))] = byte(r.N(256))
		}
		return string(b)
	case 7:
		b := make([]byte, r.N(40))
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return string(b)
	default:
		fs := strings.Split(l, "|")
		fs[r.N(len(fs))] = r.Pick(tokens)
		return strings.Join(fs, "|")
	}
}

// misnumber returns a plausible but wrong value of a numeric field.
func misnumber(r *Rng, f string) string {
	v, err := strconv.ParseFloat(strings.TrimSpace(f), 64)
	if err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
		v = float64(r.N(300))
	}
	switch r.N(12) {
	case 0:
		return ff(-v)
	case 1:
		return ff(v * 10)
	case 2:
		return ff(math.Trunc(v / 10))
	case 3:
		return ff(v + float64(r.PickI(-1, 1, -2, 2, 7, -40, 360, -1000, 1000)))
	case 4:
		return ff(float64(r.N(256)))
	case 5:
		return ff(v + r.FR(-1, 1)*1e7)
	case 6:
		return ff(r.FR(-1, 1) * 2e9)
	case 7:
		return ff(round(v*r.FR(0, 3), 3))
	case 8:
		return ff(float64(int64(v) ^ 1<<uint(r.N(24))))
	case 9:
		return ff(r.FR(-600, 600))
	case 10:
		return ff(r.FR(-5e6, 5e6))
	}
	// digits swapped
	b := []byte(f)
	if len(b) > 1 {
		i := r.N(len(b) - 1)
		b[i], b[i+1] = b[i+1], b[i]
	}
	return string(b)
}

// lineOK tells whether a damaged line stays one line of its section and does not pass for another key of its section.
func lineOK(m *MapSpec, l Line, s string) bool {
	if strings.ContainsAny(s, "\n\r") || strings.HasPrefix(strings.TrimSpace(s), "[") || strings.HasPrefix(s, "osu file format") {
		return false
	}
	if strings.HasPrefix(m.Enc, "utf16") && !utf8.ValidString(s) {
		return false
	}
	// invalid bytes become replacement characters, which cannot form a header
	switch l.Sec {
	case "General", "Metadata", "Difficulty":
		key := s
		if k := strings.Index(s, ":"); k >= 0 {
			key = s[:k]
		}
		key = strings.TrimSpace(key)
		own := strings.TrimSpace(l.Text[:strings.Index(l.Text, ":")])
		if key != own {
			for _, kv := range [][]KV{m.Gen, m.Meta, m.Diff} {
				for _, x := range kv {
					if x.K == key {
						return false
					}
				}
			}
			if _, ok := defaults[key]; ok || key == "ApproachRate" {
				return false
			}
		}
	case "TimingPoints", "HitObjects":
		if workEstimate([]byte(s)) > 2e5 {
			return false
		}
		if l.Sec == "HitObjects" && farCoord(s) {
			return false
		}
	}
	return true
}

// farCoord keeps curves of enormous extent (valid, but slow to compute) out of containment runs.
func farCoord(s string) bool { return workEstimate([]byte(s)) > 1e5 }

func runC06(sc *Scenario, c *Ctx) *Violation {
	m := &sc.Maps[0]
	lines := m.Lines()
	clean := c.parseBytes(m.Bytes(), 0)
	if v := clean.out.bad(); v != nil {
		return v
	}
	if clean.err != nil {
		return viol("rejected", "the undamaged file is rejected: %v", clean.err)
	}
	refIdx, s := m.checkObjs(clean.bm, nil, 0)
	if s != "" {
		return viol("records", "the undamaged file: %s", s)
	}
	refDig := map[int]string{}
	for i, o := range clean.bm.HitObjects {
		refDig[refIdx[i]] = digObj(o, digPath)
	}
	k := m.fullMask()
	lost := map[string]int{}
	slider := false
	eol := "\n"
	if m.CRLF {
		eol = "\r\n"
	}
	text := make([]string, len(lines))
	for i, l := range lines {
		text[i] = l.Text
	}
	for _, u := range sc.Subs {
		if u.Line >= len(lines) || lines[u.Line].Rec < 0 {
			continue
		}
		l := lines[u.Line]
		if !lineOK(m, l, string(u.S)) || string(u.S) == l.Text {
			continue
		}
		text[u.Line] = string(u.S)
		k.of(l.Sec)[l.Rec] = false
		lost[l.Sec]++
		if l.Sec == "TimingPoints" {
			k.lostTP(string(u.S), false)
		}
		if l.Sec == "Events" {
			k.lostEvent(string(u.S))
		}
		c.count("damaged_"+l.Sec, 1)
		if l.Sec == "TimingPoints" || l.Sec == "Difficulty" && strings.HasPrefix(strings.TrimSpace(l.Text), "Slider") {
			slider = true
		}
	}
	all := strings.Join(text, eol)
	if !m.NoEOL {
		all += eol
	}
	data := encode([]byte(all), m.Enc)
	var p parsed
	if len(sc.Del) > 0 {
		p = c.parseReader(data, sc.Del[0], 0)
	} else {
		p = c.parseBytes(data, 0)
	}
	if v := p.out.bad(); v != nil {
		return v
	}
	tps := 0
	for _, x := range k.TP {
		if x {
			tps++
		}
	}
	ti, _, _ := lookup(m.Meta, k.Meta, "Title")
	ar, _, _ := lookup(m.Meta, k.Meta, "Artist")
	cr, _, _ := lookup(m.Meta, k.Meta, "Creator")
	if p.err != nil {
		if tps > 0 && ti+ar+cr != "" {
			return viol("rejected", "with damage in %d records the file is rejected (%v), although %d timing points and title %q, artist %q, creator %q are intact", len(sc.Subs), p.err, tps, ti, ar, cr)
		}
		c.count("reported_corrupted", 1)
		c.Trivial = true
		return nil
	}
	b := p.bm
	if s := m.checkMeta(b, k); s != "" {
		return viol("spread", "%s", s)
	}
	if s := m.checkEvents(b, k, lost["Events"]); s != "" {
		return viol("spread", "%s", s)
	}
	if s := m.checkTimings(b, k, lost["TimingPoints"]); s != "" {
		return viol("spread", "%s", s)
	}
	idx, s := m.checkObjs(b, k, lost["HitObjects"])
	if s != "" {
		return viol("spread", "%s", s)
	}
	if !slider {
		for i, o := range b.HitObjects {
			if idx[i] < 0 {
				continue
			}
			if g, w := digObj(o, digPath), refDig[idx[i]]; g != w {
				return viol("spread", "hit object record %d: %s", idx[i], diffLines([]string{g}, []string{w}))
			}
		}
	}
	for _, l := range digMap(b, nil, true) {
		c.mix(hashLines([]string{l}))
	}
	c.Trivial = len(sc.Subs) == 0
	c.Key = c.Hash
	return nil
}

// ---- C04 and C15

func genDamaged(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{}
	switch {
	case run%120 == 7:
		sc.Maps = []MapSpec{{Corpus: pickCorpus(r)}}
	default:
		c := swarm(r)
		c.Mania = r.P(0.3)
		if c.MaxObjs > 40 {
			c.MinObjs, c.MaxObjs = 5, 40
		}
		if r.P(0.1) {
			c.MinObjs, c.MaxObjs = 0, 0
		}
		sc.Maps = []MapSpec{GenMap(r, c)}
		sc.Maps[0].Enc = r.Pick([]string{"utf8", "utf8", "utf8", "utf8", "utf8bom", "utf16le", "utf16be"})
	}
	sc.Faults = [][]Fault{genFaults(r, &sc.Maps[0])}
	if r.P(0.3) {
		sc.Del = []Delivery{genDelivery(r, 20000)}
	}
	sc.Diffs = []DiffSpec{genDiff(r), genDiff(r)}
	for i := range sc.Diffs {
		sc.Diffs[i].Own = true
	}
	return sc
}

const maxWork = 3e6

// spanOf is the time the map's objects cover.
func spanOf(b *beatmap.BeatMap) float64 {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, o := range b.HitObjects {
		lo, hi = math.Min(lo, o.GetStartTime()), math.Max(hi, o.GetStartTime())
	}
	if hi < lo {
		return 0
	}
	return hi - lo
}

// budget for evaluating an accepted map, in yield points.
func evalBudget(b *beatmap.BeatMap, speed float64) (single, step int64) {
	pts := 0.0
	for _, o := range b.HitObjects {
		if s, ok := o.(*objects.Slider); ok {
			pts += float64(len(s.ScorePoints))
		}
	}
	n := float64(len(b.HitObjects))
	sections := spanOf(b)/speed/400 + 10
	if !(sections < 1e7) {
		sections = 1e7
	}
	s := 2e6 + n*20000 + pts*4000 + sections*1500
	return int64(s), int64(s + n*(20000+sections*600))
}

func runDamaged(sc *Scenario, c *Ctx) (*beatmap.BeatMap, []byte, *Violation) {
	m := &sc.Maps[0]
	var fs []Fault
	if len(sc.Faults) > 0 {
		fs = sc.Faults[0]
	}
	data := damage(m, fs, c.Counts)
	w := workEstimate(data)
	if w > maxWork {
		c.count("skipped_enormous_but_finite", 1)
		c.Trivial = true
		return nil, data, nil
	}
	steps := int64(20e6) + int64(w*200) + int64(len(data))*2000
	var p parsed
	if len(sc.Del) > 0 {
		p = c.parseReader(data, sc.Del[0], steps)
	} else {
		p = c.parseBytes(data, steps)
	}
	if v := p.out.bad(); v != nil {
		v.Detail = "parsing: " + v.Detail
		return nil, data, v
	}
	if p.err == nil && p.bm == nil {
		return nil, data, viol("nothing", "parsing returned neither a beatmap nor an error")
	}
	if p.err != nil {
		c.count("rejected", 1)
		if p.bm != nil {
			return nil, data, viol("both", "parsing returned an error (%v) together with a beatmap", p.err)
		}
		return nil, data, nil
	}
	c.count("accepted", 1)
	return p.bm, data, nil
}

func runC04(sc *Scenario, c *Ctx) *Violation {
	b, data, v := runDamaged(sc, c)
	c.mix(hashLines([]string{string(data)}))
	c.Key = c.Hash
	if b == nil {
		return v
	}
	for i := range sc.Diffs {
		var d = diffFor(&sc.Diffs[i], b)
		single, step := evalBudget(b, d.Speed)
		for _, k := range calcKinds {
			lim := single
			if strings.HasPrefix(k, "step") {
				lim = step
			}
			if lim > 70e6 {
				c.count("evaluation_skipped_too_long", 1)
				continue
			}
			out := c.solo(lim, func() { calc(k, b.HitObjects, d) })
			if v := out.bad(); v != nil {
				v.Detail = "calculating (" + k + "): " + v.Detail
				return v
			}
			c.count("evaluated", 1)
		}
	}
	return nil
}

func runC15(sc *Scenario, c *Ctx) *Violation {
	b, data, v := runDamaged(sc, c)
	c.mix(hashLines([]string{string(data)}))
	c.Key = c.Hash
	if v != nil || b == nil {
		// crashes and hangs are C04's subject
		c.Trivial = c.Trivial || b == nil
		if v != nil {
			c.count("not_judged_here", 1)
		}
		return nil
	}
	if s := wellFormed(b); s != "" {
		return viol("malformed", "%s", s)
	}
	for i := range sc.Diffs {
		d := diffFor(&sc.Diffs[i], b)
		single, step := evalBudget(b, d.Speed)
		var s string
		if single < 70e6 {
			out := c.solo(single, func() { s = ratingsSane(b, d, step < 70e6) })
			if out.bad() != nil {
				c.count("not_judged_here", 1)
				continue
			}
		}
		if s != "" {
			return viol("rating", "mods %d speed %v: %s", sc.Diffs[i].Mods, d.Speed, s)
		}
		c.count("evaluated", 1)
	}
	return nil
}

func fin(f float64) bool { return f >= 0 && !math.IsInf(f, 0) }

func wellFormed(b *beatmap.BeatMap) string {
	for i, x := range []float64{b.Difficulty.GetHP(), b.Difficulty.GetCS(), b.Difficulty.GetOD(), b.Difficulty.GetAR()} {
		if !(x >= 0 && x <= 10) {
			return []string{"HP", "CS", "OD", "AR"}[i] + " is " + ff(x)
		}
	}
	if x := b.SliderMultiplier; !(x >= 0.4 && x <= 3.6) || b.Timings.SliderMult != x {
		return "slider multiplier is " + ff(x) + ", that of the timings " + ff(b.Timings.SliderMult)
	}
	if x := b.Timings.TickRate; !(x >= 0.5 && x <= 8) {
		return "slider tick rate is " + ff(x)
	}
	if b.StackLeniency != b.StackLeniency {
		return "stack leniency is NaN"
	}
	ci, sl, sp := 0, 0, 0
	for i, o := range b.HitObjects {
		if o == nil {
			return "hit object " + itoa(i) + " is nil"
		}
		if o.GetStartTime() != o.GetStartTime() {
			return "hit object " + itoa(i) + " starts at NaN"
		}
		if i > 0 && o.GetStartTime() < b.HitObjects[i-1].GetStartTime() {
			return "hit object " + itoa(i) + " starts before the one before it"
		}
		switch x := o.(type) {
		case *objects.Circle:
			ci++
		case *objects.Spinner:
			sp++
			for _, m := range stackMods {
				if x.GetStackIndex(m) != 0 || x.GetStackedStartPositionMod(m&^2) != x.GetStartPosition() && m != 16 {
					return "spinner " + itoa(i) + " is stacked"
				}
			}
		case *objects.Slider:
			sl++
			if x.RepeatCount < 1 {
				return "slider " + itoa(i) + " has " + itoa(int(x.RepeatCount)) + " spans"
			}
			if len(x.ScorePoints) == 0 {
				return "slider " + itoa(i) + " has no scoring points"
			}
			a, e := x.GetStartTime(), x.GetEndTime()
			if !(e >= a) || math.IsInf(e, 0) {
				return "slider " + itoa(i) + " runs from " + ff(a) + " to " + ff(e)
			}
			tol := 1e-6 * math.Max(1, math.Max(math.Abs(a), math.Abs(e)))
			for j, p := range x.ScorePoints {
				if !(p.Time >= a-tol && p.Time <= e+tol) {
					return "slider " + itoa(i) + " from " + ff(a) + " to " + ff(e) + " has a scoring point at " + ff(p.Time)
				}
				if j > 0 && p.Time < x.ScorePoints[j-1].Time {
					return "slider " + itoa(i) + ": scoring points out of order"
				}
			}
			rev := 0
			for _, p := range x.ScorePoints {
				if p.IsReverse {
					rev++
				}
			}
			if rev != int(x.RepeatCount)-1 {
				return "slider " + itoa(i) + " with " + itoa(int(x.RepeatCount)) + " spans has " + itoa(rev) + " repeats"
			}
		default:
			return "hit object " + itoa(i) + " is of an unknown kind"
		}
	}
	if b.Circles != ci || b.Spinners != sp || b.Sliders < sl {
		return "counts " + itoa(b.Circles) + "/" + itoa(b.Sliders) + "/" + itoa(b.Spinners) + " for " + itoa(ci) + " circles, " + itoa(sl) + " sliders, " + itoa(sp) + " spinners"
	}
	return comboRules(b, nil)
}

func itoa(i int) string { return ff(float64(i)) }

var _ = sort.Ints
var _ = utf16.IsSurrogate
var _ = simrt.Now

// ---- C17

func genC17(r *Rng, run int, tier string) *Scenario {
	cfg := GenCfg{MinObjs: 1, MaxObjs: 30, Unicode: r.P(0.2), Wild: r.P(0.3), ManyPts: r.P(0.3)}
	if r.P(0.1) {
		cfg.MaxObjs = 150
	}
	sc := &Scenario{Maps: []MapSpec{GenMap(r, cfg)}}
	m := &sc.Maps[0]
	m.Noise &^= 2 // its [Editor] lines are added below
	for n := r.Range(1, 3); n > 0; n-- {
		sc.Cuts = append(sc.Cuts, r.N(1<<30))
		d := Delivery{}
		if r.P(0.5) {
			d = genDelivery(r, len(m.Bytes()))
		}
		sc.Del = append(sc.Del, d)
	}
	return sc
}

// rearranged is the map with its sections taken apart into pieces and written in another order. Records that mean
// something by their order keep it: equal keys, events, timing points and hit objects of the same time.
func (m *MapSpec) rearranged(seed int) []byte {
	r := NewRng(uint64(seed), "rearrange")
	lines := m.Lines()
	type piece struct {
		sec   string
		lines []string
	}
	var pieces []piece
	whole := r.P(0.2) // only whole sections move
	for _, sec := range sectionNames {
		type rec struct {
			text, group string
			pos         float64
		}
		var recs []rec
		for _, l := range lines {
			if l.Sec != sec || l.Rec < 0 {
				continue
			}
			g := "" // records that must keep their order
			switch sec {
			case "TimingPoints":
				g = ff(m.TPs[l.Rec].T)
			case "HitObjects":
				g = ff(m.Objs[l.Rec].T)
			case "Events":
			default:
				g, _, _ = strings.Cut(strings.TrimSpace(l.Text), ":")
			}
			recs = append(recs, rec{l.Text, g, r.F()})
		}
		if r.P(0.15) {
			for i := range recs {
				recs[i].pos = float64(len(recs) - i) // backwards
			}
		}
		if r.P(0.2) || whole {
			for i := range recs {
				recs[i].pos = float64(i)
			}
		}
		groups := map[string][]int{}
		for i := range recs {
			groups[recs[i].group] = append(groups[recs[i].group], i)
		}
		for _, ix := range groups {
			var pos []float64
			for _, i := range ix {
				pos = append(pos, recs[i].pos)
			}
			sort.Float64s(pos)
			for k, i := range ix {
				recs[i].pos = pos[k]
			}
		}
		sort.SliceStable(recs, func(i, j int) bool { return recs[i].pos < recs[j].pos })
		var cur []string
		p := r.PickF(0, 0, 0.05, 0.3)
		if whole {
			p = 0
		}
		for i := range recs {
			cur = append(cur, recs[i].text)
			if r.P(p) {
				pieces = append(pieces, piece{sec, cur})
				cur = nil
			}
		}
		pieces = append(pieces, piece{sec, cur})
	}
	if r.P(0.5) {
		pieces = append(pieces, piece{"Editor", []string{"Bookmarks: 1,2,3", "Title:not this one", "DistanceSpacing: 1.2"}})
	}
	if r.P(0.5) {
		pieces = append(pieces, piece{"Colours", []string{"Combo1 : 255,128,0", "Combo2 : 1,2,3"}})
	}
	// a shuffle of the pieces that then hands every place out again in order among pieces of a section that depend on it
	perm := make([]int, len(pieces))
	for i := range perm {
		j := r.N(i + 1)
		perm[i] = perm[j]
		perm[j] = i
	}
	at := map[string][]int{}
	for place, i := range perm {
		at[pieces[i].sec] = append(at[pieces[i].sec], place)
	}
	next := map[string]int{}
	out := make([]piece, len(pieces))
	for i := range pieces {
		s := pieces[i].sec
		out[at[s][next[s]]] = pieces[i]
		next[s]++
	}
	eol := "\n"
	if m.CRLF {
		eol = "\r\n"
	}
	var b strings.Builder
	b.WriteString(lines[0].Text + eol)
	for _, p := range out {
		b.WriteString(eol + "[" + p.sec + "]" + eol)
		for _, l := range p.lines {
			b.WriteString(l + eol)
		}
	}
	return encode([]byte(b.String()), m.Enc)
}

func runC17(sc *Scenario, c *Ctx) *Violation {
	m := &sc.Maps[0]
	p := c.parseBytes(m.Bytes(), 0)
	if v := p.out.bad(); v != nil {
		return v
	}
	if p.err != nil || p.bm == nil {
		return viol("rejected", "a valid map is rejected: %v", p.err)
	}
	ask := askTimes(m.tpTimes(), p.bm)
	want := digMap(p.bm, ask, true)
	for i, seed := range sc.Cuts {
		data := m.rearranged(seed)
		var q parsed
		if i < len(sc.Del) {
			q = c.parseReader(data, sc.Del[i], 0)
		} else {
			q = c.parseBytes(data, 0)
		}
		if v := q.out.bad(); v != nil {
			return v
		}
		if q.err != nil || q.bm == nil {
			return viol("rejected", "rearranged by seed %d it is rejected: %v", seed, q.err)
		}
		if s := m.checkAll(q.bm); s != "" {
			return viol("records", "rearranged by seed %d: %s", seed, s)
		}
		if s := diffLines(digMap(q.bm, ask, true), want); s != "" {
			return viol("order", "rearranged by seed %d it differs from the editor's order: %s", seed, s)
		}
		c.count("rearrangements", 1)
		c.mix(hashLines([]string{string(data)}))
	}
	c.Key = c.Hash
	return nil
}
