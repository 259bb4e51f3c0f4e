package main

import (
	"strconv"
	"strings"
)

// ---- C20: what other programs write into a file

// Add is something one program adds to the file.
type Add struct {
	P     int      `json:"program"`
	K     string   `json:"kind"` // section, line, fields
	Sec   string   `json:"section,omitempty"`
	At    int      `json:"at"`
	Lines []string `json:"lines"`
	Rep   int      `json:"repeated,omitempty"`
	Long  int      `json:"padded_to,omitempty"`
	CRLF  bool     `json:"crlf,omitempty"`
}

var foreignSections = []string{"Editor", "Colours", "Fonts", "CatchTheBeat", "Mania", "Variables", "HitObjects2", "OldTimingPoints", "Hit Objects",
	"Metadata v2", "Difficulty:2", "TimingPoints/Extra", "x [y", "Editor] // [HitObjects", "1", "General Settings", "Événements", "HitObject", "Event", "MetadataBackup"}

// foreignKeys are keys no section knows; ownKeys belong to one section only.
var foreignKeys = []string{"Countdown", "SampleSet", "LetterboxInBreaks", "EpilepsyWarning", "DistanceSpacing", "TitleRomanised", "Title 2", "OldTitle", "SliderMultiplierX", "CircleSizes", "AR",
	"BeatmapIDs", "Modes", "ModeX", "StackLeniency2", "Tag", "Creators", "Versions", "0", "2", "Break", "x", "HPDrainRate%", "Sources", "ApproachRates", "Default Title", "hash", ""}
var ownKeys = map[string][]string{
	"General":    {"Mode", "StackLeniency", "AudioFilename", "PreviewTime"},
	"Metadata":   {"Title", "TitleUnicode", "Artist", "ArtistUnicode", "Creator", "Version", "Source", "Tags", "BeatmapID", "BeatmapSetID"},
	"Difficulty": {"SliderMultiplier", "ApproachRate", "CircleSize", "SliderTickRate", "HPDrainRate", "OverallDifficulty"},
}

func foreignValue(r *Rng) string {
	return r.Pick([]string{"0", "1", "-1", "3.3", "NaN", "not this one", "a,b,c", "x:y", "[HitObjects]", "//", "64,64,1000,1,0", "255,128,0", "", "title \"quoted\"", "1e400", "Title:Title"})
}

// looksKnown is a line that would mean something in a section of its own.
func looksKnown(r *Rng) string {
	n := func(a, b int) string { return strconv.Itoa(r.Range(a, b)) }
	switch r.N(8) {
	case 0:
		return n(0, 512) + "," + n(0, 384) + "," + n(-500, 90000) + "," + r.Pick([]string{"1", "5", "12", "128"}) + ",0," + r.Pick([]string{"0:0:0:0:", n(0, 99999)})
	case 1:
		return n(0, 512) + "," + n(0, 384) + "," + n(0, 90000) + ",2,0,L|" + n(0, 512) + ":" + n(0, 384) + ",1," + n(20, 200)
	case 2:
		return n(-500, 90000) + "," + r.Pick([]string{"300", "-50", "-200", "6", "0.5", "60000", "NaN"}) + ",4,2,1,50," + n(0, 1) + "," + n(0, 1)
	case 3:
		return r.Pick([]string{"2", "Break"}) + "," + n(0, 50000) + "," + n(50000, 90000)
	case 4:
		return "0,0,\"other bg.png\",0,0"
	case 5:
		for _, s := range sectionNames[r.N(3):] {
			if k := ownKeys[s]; len(k) > 0 {
				return r.Pick(k) + ":" + foreignValue(r)
			}
		}
	case 6:
		return "//[" + r.Pick(sectionNames) + "]"
	}
	return r.Pick(foreignKeys) + r.Pick([]string{":", ": ", " : "}) + foreignValue(r)
}

func genStoryboard(r *Rng) []string {
	n := func(a, b int) string { return strconv.Itoa(r.Range(a, b)) }
	out := []string{r.Pick([]string{
		"Sprite,Foreground,Centre,\"x.png\",320,240", "4,0,1,\"sb\\x.png\",320,240", "Animation,Fail,TopLeft,\"a,b.png\",0,0,12,50,LoopForever", "Sample," + n(0, 90000) + ",0,\"hit.wav\",70",
		"Video,0,\"v.avi\"", "1," + n(0, 900) + ",\"v.mp4\"", "3,100,163,162,255", "5," + n(0, 90000) + ",0,\"x.wav\"", "6,0,1,\"y.png\",1,2,3,4,0", "Breaks,1,2,3", "Backgrounds,1,\"z\"",
		"22,1000,2000", "20,100,99999", "-2,0,1000", "Sprite,Pass,Centre,\"2,0,99999\",1,2"})}
	for k := r.N(6); k > 0; k-- {
		out = append(out, strings.Repeat(r.Pick([]string{" ", "_"}), r.Range(1, 3))+r.Pick([]string{
			"F,0," + n(0, 9000) + "," + n(0, 9000) + ",0,1", "M,0,1,2,3,4,5,6", "MX,3,,0,1,2", "L,1000,10", "T,HitSound,0,100", "P,0,1,2,A", "C,0,0,0,255,255,255", "S,2,0,1000,0.5", "R,0,2,3,4,5", "V,2,1000,2000,1,1"}))
	}
	return out
}

func genC20(r *Rng, run int, tier string) *Scenario {
	cfg := GenCfg{MinObjs: 0, MaxObjs: 25, Unicode: r.P(0.2), Wild: r.P(0.3), Mania: r.P(0.1), ManyPts: r.P(0.2)}
	if r.P(0.1) {
		cfg.MaxObjs = 120
	}
	sc := &Scenario{}
	if r.P(0.01) {
		sc.Maps = []MapSpec{{Corpus: r.Pick([]string{"saveme", "umbrella"})}}
	} else {
		sc.Maps = []MapSpec{GenMap(r, cfg)}
		sc.Maps[0].Noise = 0 // everything foreign is added below
	}
	programs := r.Range(1, 4)
	for p := 0; p < programs; p++ {
		crlf := r.P(0.4)
		for n := r.PickI(1, 1, 2, 4, r.Range(1, 30)); n > 0; n-- {
			a := Add{P: p, At: r.N(1 << 30), CRLF: crlf}
			switch k := r.F(); {
			case k < 0.35:
				a.K, a.Sec = "section", r.Pick(foreignSections)
				for i := r.PickI(0, 1, 2, 5, r.N(30)); i > 0; i-- {
					switch r.N(8) {
					case 0:
						a.Lines = append(a.Lines, "")
					case 1:
						a.Lines = append(a.Lines, r.Pick([]string{"[1,2,3]", "[]", "{\"a\": [1]}", "$var=1,2,3", "plain text", "é∂ƒ", "//", "/", ":", ",", ",,,,,", "[[", "]"}))
					default:
						a.Lines = append(a.Lines, looksKnown(r))
					}
				}
			case k < 0.8:
				a.K, a.Sec = "line", r.Pick([]string{"", "General", "Metadata", "Difficulty", "Events", "TimingPoints", "HitObjects", "any"})
				switch j := r.F(); {
				case j < 0.4 || a.Sec == "any" || (a.Sec == "TimingPoints" || a.Sec == "HitObjects") && j < 0.8:
					a.Lines = []string{r.Pick([]string{"//", "// a comment", "//Title:no", "//64,64,1,1,0", "//[Metadata]", "//0,0,\"c.png\"", "//2,0,5000", "//osu file format v3", "//:", "//,,,,,", "", "", "   ", "\t"})}
				case a.Sec == "Events":
					a.Lines = genStoryboard(r)
				case a.Sec == "TimingPoints" || a.Sec == "HitObjects":
					a.Lines = []string{r.Pick([]string{"text", "x:y", "Title:no", "64 64 1 1 0", "1|2|3", "-"})}
				case a.Sec == "":
					a.Lines = []string{looksKnown(r)}
				default:
					a.Lines = []string{r.Pick(foreignKeys) + r.Pick([]string{":", ": ", " : "}) + foreignValue(r)}
					if r.P(0.4) { // a key that belongs elsewhere
						if s := r.Pick(sectionNames[:3]); s != a.Sec {
							a.Lines = []string{r.Pick(ownKeys[s]) + ":" + foreignValue(r)}
						}
					}
				}
				if r.P(0.05) {
					a.Rep = r.PickI(10, 100, 1000, 3000)
				}
				if a.Rep == 0 && r.P(0.04) {
					a.Long = r.PickI(200, 1030, 4100, 66000, 300000)
				}
			default:
				a.K, a.Sec = "fields", r.Pick([]string{"Events", "TimingPoints", "HitObjects", "HitObjects"})
				a.Lines = []string{r.Pick([]string{",", ",0", ",extra", ",0,0,0", ",{}", ",1:2:3", ",-1,", ",99999999", ",B|1:1|2:2", ",\"q\"", ", x , y"})}
			}
			sc.Adds = append(sc.Adds, a)
		}
		size := len(sc.Maps[0].Bytes())
		d := Delivery{}
		if r.P(0.5) {
			d = genDelivery(r, size*4)
		}
		sc.Del = append(sc.Del, d)
	}
	return sc
}

// spare tells whether fields may follow the last known one of a record.
func spare(sec, line string) bool {
	if strings.HasPrefix(line, "//") {
		return false
	}
	f := strings.Split(line, ",")
	for i := range f {
		f[i] = strings.TrimSpace(f[i])
	}
	switch sec {
	case "TimingPoints":
		return len(f) >= 8
	case "Events":
		return len(f) >= 3 && (f[0] == "0" || f[0] == "2" || f[0] == "Background" || f[0] == "Break")
	case "HitObjects":
		if len(f) < 6 {
			return false
		}
		t, err := strconv.Atoi(f[3])
		switch {
		case err != nil:
			return false
		case t&1 > 0:
			return true
		case t&2 > 0:
			return len(f) >= 11
		case t&8 > 0:
			return len(f) >= 7
		case t&128 > 0:
			return true
		}
	}
	return false
}

// foreign is the file after the first programs have saved it.
func (m *MapSpec) foreign(adds []Add, programs int) []byte {
	type line struct{ text, sec, eol string }
	var text string
	if m.Corpus != "" {
		text = string(corpus[m.Corpus])
	} else {
		t, _, _ := m.Text()
		text = string(t)
	}
	var lines []line
	sec := "head"
	for _, l := range strings.SplitAfter(text, "\n") {
		b := strings.TrimRight(l, "\r\n")
		if t := strings.TrimSpace(b); strings.HasPrefix(t, "[") {
			sec = strings.Trim(t, "[]")
		}
		lines = append(lines, line{b, sec, l[len(b):]})
	}
	for p := 0; p < programs; p++ {
		for i := range adds {
			a := &adds[i]
			if a.P != p {
				continue
			}
			eol := "\n"
			if a.CRLF {
				eol = "\r\n"
			}
			// the places where it can go
			var at []int
			for j := range lines {
				switch a.K {
				case "fields":
					if lines[j].sec == a.Sec && spare(a.Sec, lines[j].text) {
						at = append(at, j)
					}
				default:
					if a.K == "section" || a.Sec == "any" || a.Sec == "" && lines[j].sec == "head" || lines[j].sec == a.Sec {
						at = append(at, j)
					}
				}
			}
			if len(at) == 0 {
				continue
			}
			j := at[a.At%len(at)]
			if a.K == "fields" {
				lines[j].text += a.Lines[0]
				continue
			}
			in := lines[j].sec
			var ins []line
			put := func(t, s string) {
				if a.Long > len(t) && t != "" {
					t += strings.Repeat(".", a.Long-len(t))
				}
				ins = append(ins, line{t, s, eol})
			}
			if a.K == "section" {
				put("["+a.Sec+"]", a.Sec)
			}
			for n := 0; n <= a.Rep; n++ {
				for _, t := range a.Lines {
					s := in
					if a.K == "section" {
						s = a.Sec
					}
					put(t, s)
				}
			}
			if a.K == "section" && in != "head" {
				put("["+in+"]", in) // the section goes on
			}
			if lines[j].eol == "" && lines[j].text != "" {
				lines[j].eol = eol
			}
			// after the line it goes to; before the head only what cannot be a key
			lines = append(lines[:j+1:j+1], append(ins, lines[j+1:]...)...)
		}
	}
	var b strings.Builder
	for _, l := range lines {
		b.WriteString(l.text)
		b.WriteString(l.eol)
	}
	return encode([]byte(b.String()), m.Enc)
}

func runC20(sc *Scenario, c *Ctx) *Violation {
	m := &sc.Maps[0]
	p := c.parseBytes(m.Bytes(), 0)
	if v := p.out.bad(); v != nil {
		return v
	}
	if p.err != nil || p.bm == nil {
		return viol("rejected", "a valid map is rejected: %v", p.err)
	}
	ask := askTimes(m.tpTimes(), p.bm)
	want := digMap(p.bm, ask, true)
	last := 0
	for _, a := range sc.Adds {
		if a.P+1 > last {
			last = a.P + 1
		}
		c.count("foreign_"+a.K, 1)
	}
	for k := 1; k <= last; k++ {
		data := m.foreign(sc.Adds, k)
		var q parsed
		if k-1 < len(sc.Del) {
			d := sc.Del[k-1]
			if len(data) > 300000 && d.Mode != "whole" && d.Mode != "page" {
				d.Mode = "big"
			}
			q = c.parseReader(data, d, 0)
		} else {
			q = c.parseBytes(data, 0)
		}
		if v := q.out.bad(); v != nil {
			return v
		}
		if q.err != nil || q.bm == nil {
			return viol("rejected", "rejected after program %d has saved it: %v", k, q.err)
		}
		if m.Corpus == "" {
			if s := m.checkAll(q.bm); s != "" {
				return viol("records", "after program %d has saved it: %s", k, s)
			}
		}
		if s := diffLines(digMap(q.bm, ask, true), want); s != "" {
			return viol("foreign", "after program %d has saved it: %s", k, s)
		}
		c.count("programs", 1)
		c.mix(hashLines([]string{string(data)}))
	}
	c.Key = c.Hash
	return nil
}
