package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
)

// MapSpec is a generated map, kept structured so that it can be rendered in any encoding, damaged record by record,
// minimised, and used as the oracle for what parsing must yield.
type MapSpec struct {
	Corpus  string   `json:"corpus,omitempty"` // name of a real map instead of a generated one
	Version int      `json:"version"`
	Gen     []KV     `json:"general"`
	Meta    []KV     `json:"metadata"`
	Diff    []KV     `json:"difficulty"`
	Events  []string `json:"events"`
	TPs     []TP     `json:"timing"`
	Objs    []Obj    `json:"objects"`
	Order   []int    `json:"order,omitempty"` // section order permutation
	CRLF    bool     `json:"crlf,omitempty"`
	NoEOL   bool     `json:"no_eol,omitempty"`
	Noise   uint64   `json:"noise,omitempty"` // comments, blank and unknown lines
	Enc     string   `json:"enc,omitempty"`
}

type KV struct {
	K string `json:"k"`
	V string `json:"v"`
}

type TP struct {
	T     float64 `json:"t"`
	Beat  float64 `json:"beat"`
	Sig   int     `json:"sig"`
	Set   int     `json:"set"`
	Idx   int     `json:"idx"`
	Vol   int     `json:"vol"`
	Uninh int     `json:"uninh"`
	Fx    int     `json:"fx"`
	Cols  int     `json:"cols"`
	NaN   bool    `json:"nan,omitempty"`
}

type Obj struct {
	Kind  string       `json:"kind"` // c, s, p (spinner), m (mania hold, ignored by the parser)
	X     float64      `json:"x"`
	Y     float64      `json:"y"`
	T     float64      `json:"t"`
	End   int          `json:"end,omitempty"`
	Flags int          `json:"flags,omitempty"` // new combo bit and colour offset bits
	Sound int          `json:"sound,omitempty"`
	Curve string       `json:"curve,omitempty"`
	Pts   [][2]float64 `json:"pts,omitempty"`
	Reps  int          `json:"reps,omitempty"`
	Len   float64      `json:"len,omitempty"`
	Edges []int        `json:"edges,omitempty"`
	Tail  string       `json:"tail,omitempty"`
}

func ff(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func (o *Obj) line() string {
	switch o.Kind {
	case "c":
		return fmt.Sprintf("%s,%s,%s,%d,%d%s", ff(o.X), ff(o.Y), ff(o.T), 1|o.Flags, o.Sound, o.Tail)
	case "p":
		return fmt.Sprintf("%s,%s,%s,%d,%d,%d%s", ff(o.X), ff(o.Y), ff(o.T), 8|o.Flags, o.Sound, o.End, o.Tail)
	case "m":
		return fmt.Sprintf("%s,%s,%s,128,%d,%d:0:0:0:0:", ff(o.X), ff(o.Y), ff(o.T), o.Sound, o.End)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s,%s,%s,%d,%d,%s", ff(o.X), ff(o.Y), ff(o.T), 2|o.Flags, o.Sound, o.Curve)
	for _, p := range o.Pts {
		b.WriteString("|" + ff(p[0]) + ":" + ff(p[1]))
	}
	fmt.Fprintf(&b, ",%d,%s", o.Reps, ff(o.Len))
	if len(o.Edges) > 0 {
		b.WriteByte(',')
		for i, e := range o.Edges {
			if i > 0 {
				b.WriteByte('|')
			}
			b.WriteString(strconv.Itoa(e))
		}
		b.WriteString(o.Tail)
	}
	return b.String()
}

func (t *TP) beat() string {
	if t.NaN {
		return "NaN"
	}
	return strconv.FormatFloat(t.Beat, 'f', -1, 64)
}

func (t *TP) line() string {
	cols := []string{ff(t.T), t.beat(), strconv.Itoa(t.Sig), strconv.Itoa(t.Set), strconv.Itoa(t.Idx), strconv.Itoa(t.Vol), strconv.Itoa(t.Uninh), strconv.Itoa(t.Fx)}
	return strings.Join(cols[:t.Cols], ",")
}

// Line is one line of a rendered map. Rec says which record it holds.
type Line struct {
	Text string
	Sec  string // section it belongs to, "" for headers and noise
	Rec  int    // index in the section's record list, -1 otherwise
}

var sectionNames = []string{"General", "Metadata", "Difficulty", "Events", "TimingPoints", "HitObjects"}

// Lines renders the map as text lines.
func (m *MapSpec) Lines() []Line {
	var out []Line
	nr := NewRng(m.Noise, "noise")
	pad := func(p float64) string {
		if m.Noise&8 == 0 || !nr.P(p) {
			return ""
		}
		return nr.Pick([]string{" ", "  ", "\t", " \t "})
	}
	add := func(t, s string, r int) {
		if r >= 0 && s != "Events" {
			t = pad(0.1) + t // an event that starts with a space is a storyboard command
		}
		if t != "" {
			t += pad(0.1)
		}
		out = append(out, Line{t, s, r})
	}
	noise := func(p float64) {
		if m.Noise != 0 && nr.P(p) {
			switch nr.N(3) {
			case 0:
				add("", "", -1)
			case 1:
				add("//Comment, with: things", "", -1)
			case 2:
				add("   ", "", -1)
			}
		}
	}
	add("osu file format v"+strconv.Itoa(m.Version), "", -1)
	order := m.Order
	if len(order) != 6 {
		order = []int{0, 1, 2, 3, 4, 5}
	}
	sep := ":"
	if m.Noise&1 == 1 {
		sep = ": "
	}
	for _, s := range order {
		add("", "", -1)
		name := sectionNames[s]
		add("["+name+"]", "", -1)
		noise(0.3)
		switch s {
		case 0, 1, 2:
			kv := [][]KV{m.Gen, m.Meta, m.Diff}[s]
			for i, x := range kv {
				add(x.K+sep+x.V, name, i)
				noise(0.05)
			}
			if s == 0 && m.Noise&2 == 2 {
				add("[Editor]", "", -1)
				add("Bookmarks: 1,2,3", "", -1)
				add("Title:not this one", "", -1)
			}
		case 3:
			for i, x := range m.Events {
				add(x, name, i)
				noise(0.2)
			}
		case 4:
			for i := range m.TPs {
				add(m.TPs[i].line(), name, i)
				noise(0.02)
			}
			if m.Noise&4 == 4 {
				add("", "", -1)
				add("[Colours]", "", -1)
				add("Combo1 : 255,128,0", "", -1)
			}
		case 5:
			for i := range m.Objs {
				add(m.Objs[i].line(), name, i)
				noise(0.02)
			}
		}
	}
	return out
}

// Text is the UTF-8 text, with the byte range of each line's content.
func (m *MapSpec) Text() ([]byte, []Line, [][2]int) {
	lines := m.Lines()
	eol := "\n"
	if m.CRLF {
		eol = "\r\n"
	}
	var b []byte
	rng := make([][2]int, len(lines))
	for i, l := range lines {
		st := len(b)
		b = append(b, l.Text...)
		rng[i] = [2]int{st, len(b)}
		if i < len(lines)-1 || !m.NoEOL {
			b = append(b, eol...)
		}
	}
	return b, lines, rng
}

func encode(text []byte, enc string) []byte {
	switch enc {
	case "", "utf8":
		return append([]byte(nil), text...)
	case "utf8bom":
		return append([]byte{0xef, 0xbb, 0xbf}, text...)
	}
	u := utf16.Encode([]rune(string(text)))
	out := make([]byte, 0, 2*len(u)+2)
	be := enc == "utf16be"
	put := func(x uint16) {
		if be {
			out = append(out, byte(x>>8), byte(x))
		} else {
			out = append(out, byte(x), byte(x>>8))
		}
	}
	put(0xfeff)
	for _, x := range u {
		put(x)
	}
	return out
}

// Bytes is the file as stored.
func (m *MapSpec) Bytes() []byte {
	if m.Corpus != "" {
		return corpus[m.Corpus]
	}
	t, _, _ := m.Text()
	return encode(t, m.Enc)
}

// GenCfg tunes the generator; varied per run.
type GenCfg struct {
	MinObjs, MaxObjs int
	Unicode          bool
	LongLines        bool
	Wild             bool // unusual but legal values
	Mania            bool
	ManyPts          bool // now and then hundreds of timing points
}

var words = []string{"Save", "Me", "Lost", "Umbrella", "DJ: the, \"Best\"", "x", "Re:Zero", "a=b;c", "100%", "[no] brackets", "//slashes", "O'Neil & Sons", "nightmare marathon a7x", "v1", "feat. someone", "back\\slash \\n", "%d%s", "50% & 'up'", "key : value", "C#", ";;"}
var uniWords = []string{"稲葉曇", "ロストアンブレラ", "Größe", "naïve café", "Ωμέγα", "Привет", "🎵", "𝄞 clef", "👩‍🚀🚀", "e\u0301", "한국어", "עברית", "a\ufeffb", "\uffff!", "\ud7ff\ue000", "\U0010ffff", "\U0002070e\U00020731", "a\u200bb", "ÿþ", "﷽", "a\u2028b", "c\u0085d", "e\u00a0f", "g\vh\fi"}

func genText(r *Rng, uni bool) string {
	n := r.Range(1, 3)
	var p []string
	for i := 0; i < n; i++ {
		if uni && r.P(0.6) {
			p = append(p, r.Pick(uniWords))
		} else {
			p = append(p, r.Pick(words))
		}
	}
	return strings.TrimSpace(strings.Join(p, r.Pick([]string{" ", " ", " ", "  ", "\t"})))
}

func round(f float64, d int) float64 {
	p := math.Pow(10, float64(d))
	return math.Round(f*p) / p
}

// GenMap draws a valid map.
func GenMap(r *Rng, c GenCfg) MapSpec {
	m := MapSpec{Version: r.PickI(14, 14, 14, 14, 12, 10, 9, 6, 5, 4, 3, 128)}
	m.Gen = []KV{{"AudioFilename", r.Pick([]string{"audio.mp3", "virtual", "a b c.ogg", "12:30, part 2.mp3", "sub\\t.mp3"})}, {"PreviewTime", r.Pick([]string{strconv.Itoa(r.Range(-1, 200000)), strconv.Itoa(r.Range(-1, 200000)), strconv.Itoa(r.Range(0, 9000)), "9223372036854775806"})}}
	if r.P(0.9) {
		m.Gen = append(m.Gen, KV{"StackLeniency", ff(round(r.PickF(0.7, 0.7, 0, 1, r.F(), r.FR(0.2, 2)), 2))})
	}
	m.Gen = append(m.Gen, KV{"Mode", strconv.Itoa(r.PickI(0, 0, 0, 1))}, KV{"WidescreenStoryboard", "1"})
	uni := c.Unicode
	for _, k := range []string{"Title", "TitleUnicode", "Artist", "ArtistUnicode", "Creator", "Version", "Source", "Tags"} {
		v := genText(r, uni && (strings.HasSuffix(k, "Unicode") || k == "Tags" || k == "Source" || r.P(0.3)))
		if r.P(0.1) && k != "Title" && k != "Artist" && k != "Creator" {
			v = ""
		}
		m.Meta = append(m.Meta, KV{k, v})
	}
	if c.LongLines && r.P(0.3) {
		// tag lists of many kilobytes
		var b strings.Builder
		n := r.PickI(500, 900, 4000, 9000)
		for i := 0; i < n; i++ {
			b.WriteString(r.Pick(words))
			b.WriteByte(' ')
		}
		for i := range m.Meta {
			if m.Meta[i].K == "Tags" {
				m.Meta[i].V = strings.TrimSpace(b.String())
			}
		}
	}
	id := func(n int) string {
		if r.P(0.03) {
			return r.Pick([]string{"9223372036854775807", "-9223372036854775808", "4611686018427387905", "2147483648"})
		}
		return strconv.Itoa(r.Range(-1, n))
	}
	m.Meta = append(m.Meta, KV{"BeatmapID", id(4000000)}, KV{"BeatmapSetID", id(2000000)})
	dv := func() string {
		switch r.N(6) {
		case 0:
			return strconv.Itoa(r.N(11))
		case 1:
			return ff(r.PickF(0, 10, 5, 4.999, 5.001, 11, -1, 12.5))
		}
		return ff(round(r.FR(0, 10), 1))
	}
	m.Diff = []KV{{"HPDrainRate", dv()}, {"CircleSize", ff(round(r.PickF(4, 3.8, r.FR(0, 7), r.FR(2, 6), r.FR(0, 10)), 1))}, {"OverallDifficulty", dv()}}
	if r.P(0.85) {
		m.Diff = append(m.Diff, KV{"ApproachRate", dv()})
	}
	m.Diff = append(m.Diff, KV{"SliderMultiplier", ff(round(r.PickF(1.4, 1.8, r.FR(0.4, 3.6)), 3))}, KV{"SliderTickRate", ff(r.PickF(1, 1, 2, 0.5, 3, 4, 8, 1.5))})
	if r.P(0.08) {
		i := r.N(len(m.Diff)) // old files leave settings out
		m.Diff = append(m.Diff[:i:i], m.Diff[i+1:]...)
	}
	if r.P(0.2) {
		i, j := r.N(len(m.Diff)), r.N(len(m.Diff))
		m.Diff[i], m.Diff[j] = m.Diff[j], m.Diff[i]
	}
	if r.P(0.8) {
		m.Events = append(m.Events, fmt.Sprintf(r.Pick([]string{"0,0,\"%s\",0,0", "0,0,\"%s\"", "Background,0,\"%s\",0,0"}), r.Pick([]string{"bg.jpg", "b g.png", "背景.png", "sb\\new\\title.jpg", "a'b.png"})))
	}
	// hit objects
	n := r.Range(c.MinObjs, c.MaxObjs)
	beat := r.PickF(60000/180.0, 60000/120.0, 60000/240.0, 300, 333.3333, r.FR(150, 1200))
	t := float64(r.PickI(0, 500, 178, 1000, -1200, r.Range(0, 20000)))
	x, y := float64(r.Range(50, 450)), float64(r.Range(50, 330))
	style := r.N(5)
	longReps, longPause := 0, 0
	if c.MaxObjs <= 120 {
		if r.P(0.03) {
			longReps = r.Range(1, 3) // this map has sliders with hundreds of repeats
		}
		if c.MaxObjs <= 40 && r.P(0.015) {
			longPause = r.Range(1, 2) // and this one very long gaps
		}
	}
	lastStack := false
	for i := 0; i < n; i++ {
		switch r.N(10) {
		case 0, 1:
			t += math.Round(beat)
		case 2, 3:
			t += math.Round(beat / 2)
		case 4:
			t += float64(r.PickI(0, 0, 1, 10, 24, 25, 26, 5000))
		case 5:
			t += float64(r.Range(0, 1500))
		default:
			t += math.Round(beat / 4)
		}
		if r.P(0.01) {
			t += float64(r.Range(5000, 60000))
		}
		if longPause > 0 && r.P(0.2) {
			longPause--
			t += float64(r.PickI(1e5, 1e6, 2e6, r.Range(1e5, 1e6)))
		}
		switch {
		case lastStack && r.P(0.6) || r.P(0.15) || style == 4 && r.P(0.6):
			lastStack = true
			if r.P(0.3) {
				x += float64(r.Range(-2, 2))
				y += float64(r.Range(-2, 2))
			}
		case style == 0:
			lastStack = false
			x += float64(r.Range(-40, 40))
			y += float64(r.Range(-40, 40))
		default:
			lastStack = false
			x, y = float64(r.Range(0, 512)), float64(r.Range(0, 384))
		}
		if x < -100 || x > 612 {
			x = 256
		}
		if y < -100 || y > 484 {
			y = 192
		}
		o := Obj{Kind: "c", X: x, Y: y, T: t, Sound: r.PickI(0, 0, 2, 4, 8, 14)}
		if c.Wild && r.P(0.1) {
			o.X, o.Y = round(x+r.F(), 3), round(y-r.F()*300, 2)
		}
		if c.Wild && r.P(0.05) {
			o.T = t + 0.5
		}
		if r.P(0.2) {
			o.Flags = 4
			if r.P(0.3) {
				o.Flags |= r.N(8) << 4
			}
		}
		if r.P(0.7) {
			o.Tail = ",0:0:0:0:"
		}
		k := r.F()
		switch {
		case c.Mania && k < 0.05:
			o.Kind, o.End = "m", int(t)+r.N(1000)
		case k < 0.1:
			o.Kind, o.End = "p", int(t)+r.PickI(0, 100, 500, r.Range(0, 4000))
			o.X, o.Y = 256, 192
			if r.P(0.8) {
				t = float64(o.End)
			}
		case k < 0.45:
			genSlider(r, &o, c)
			if longReps > 0 && r.P(0.3) {
				longReps--
				o.Reps = r.PickI(100, 127, 128, 129, 255, 256, 257, 300, r.Range(100, 1200))
				if r.P(0.05) {
					o.Reps = 9000
				}
				o.Len = r.PickF(10, 20, 35, round(r.FR(5, 60), 2))
				o.Edges, o.Tail = nil, ""
			}
			if r.P(0.7) {
				t += float64(r.Range(100, 600))
			}
			if r.P(0.5) && len(o.Pts) > 0 {
				x, y = o.Pts[len(o.Pts)-1][0], o.Pts[len(o.Pts)-1][1]
			}
		}
		m.Objs = append(m.Objs, o)
	}
	if len(m.Objs) > 1 && r.P(0.1) {
		for k := r.Range(1, 4); k > 0; k-- {
			i, j := r.N(len(m.Objs)), r.N(len(m.Objs))
			m.Objs[i], m.Objs[j] = m.Objs[j], m.Objs[i]
		}
	}
	// timing points
	span := int(t)
	if span < 1000 {
		span = 1000
	}
	first := r.PickI(0, 178, -500, 2000)
	m.TPs = append(m.TPs, TP{T: float64(first), Beat: beat, Sig: 4, Set: r.N(4), Idx: r.N(3), Vol: r.Range(5, 100), Uninh: 1, Fx: 0, Cols: r.PickI(8, 8, 8, 7, 2)})
	if m.TPs[0].Cols == 2 {
		m.TPs[0].Uninh = 1 // without the column the point counts as uninherited
	}
	many := r.PickI(0, 1, 3, 3, 8, r.N(40))
	if c.ManyPts && r.P(0.05) {
		many = r.Range(100, 600)
	}
	for k := many; k > 0; k-- {
		tp := TP{T: float64(r.Range(-100, span)), Sig: r.PickI(4, 3, 0, 7, 1, 2, 12), Set: r.N(4), Idx: r.N(3), Vol: r.Range(0, 100), Fx: r.PickI(0, 1, 8, 9), Cols: 8}
		if r.P(0.06) {
			tp.Cols = r.PickI(2, 3, 4, 5, 6, 7)
		}
		if r.P(0.7) && tp.Cols >= 7 {
			tp.Beat = round(-100*r.PickF(1, 2, 0.5, 0.75, r.FR(0.1, 10), 20, 0.05), 10)
		} else {
			tp.Uninh = 1
			tp.Beat = round(r.PickF(beat, beat/2, r.FR(100, 2000), 6, 60000), 8)
			if c.Wild && r.P(0.05) {
				tp.Beat = 0.5
			}
		}
		if c.Wild && r.P(0.05) {
			tp.T += r.PickF(0.5, 0.25, 0.125)
		}
		if c.Wild && r.P(0.03) && tp.Uninh == 0 {
			tp.NaN = true
		}
		if len(m.Objs) > 0 && r.P(0.3) {
			tp.T = m.Objs[r.N(len(m.Objs))].T
		}
		if r.P(0.15) {
			tp.T = m.TPs[r.N(len(m.TPs))].T
		}
		m.TPs = append(m.TPs, tp)
	}
	if r.P(0.8) {
		sort.SliceStable(m.TPs, func(i, j int) bool { return m.TPs[i].T < m.TPs[j].T })
	}
	for k := r.N(3); k > 0; k-- {
		s := r.Range(0, span)
		m.Events = append(m.Events, fmt.Sprintf("%s,%d,%d", r.Pick([]string{"2", "Break"}), s, s+r.Range(100, 9000)))
	}
	if r.P(0.2) {
		m.Events = append(m.Events, "Sprite,Foreground,Centre,\"x.png\",320,240", "F,0,100,200,0,1")
	}
	m.CRLF = r.P(0.5)
	m.NoEOL = r.P(0.3)
	if r.P(0.6) {
		m.Noise = r.U64()>>1 | 1<<40
	}
	if r.P(0.15) {
		m.Order = []int{0, 1, 2, 3, 4, 5}
		for i := 5; i > 0; i-- {
			j := r.N(i + 1)
			m.Order[i], m.Order[j] = m.Order[j], m.Order[i]
		}
	}
	return m
}

func genSlider(r *Rng, o *Obj, c GenCfg) {
	o.Kind = "s"
	o.Curve = r.Pick([]string{"B", "B", "L", "P", "P", "C"})
	k := r.Range(1, 5)
	if o.Curve == "P" && r.P(0.9) {
		k = 2
	}
	if c.LongLines && r.P(0.1) {
		k = r.PickI(300, 700, 3000, 9000)
		o.Curve = r.Pick([]string{"L", "L", "B"})
		if o.Curve == "B" && k > 250 {
			k = 250
		}
	}
	px, py := o.X, o.Y
	for i := 0; i < k; i++ {
		switch {
		case r.P(0.15):
			// red anchor or repeated point
		default:
			px += float64(r.Range(-120, 120))
			py += float64(r.Range(-90, 90))
			if k > 20 {
				px, py = float64(r.Range(0, 512)), float64(r.Range(0, 384))
			}
		}
		o.Pts = append(o.Pts, [2]float64{px, py})
	}
	o.Reps = r.PickI(1, 1, 1, 1, 2, 2, 3, 4, r.Range(1, 12))
	o.Len = r.PickF(round(r.FR(20, 300), 2), round(r.FR(20, 300), 13), 70, 140, 35, r.FR(1, 20))
	if c.Wild && r.P(0.05) {
		o.Len = r.PickF(0, 0.5, 1000, 2500)
	}
	if r.P(0.7) {
		for i := 0; i <= o.Reps; i++ {
			o.Edges = append(o.Edges, r.PickI(0, 2, 8))
		}
		if r.P(0.2) && len(o.Edges) > 1 {
			o.Edges = o.Edges[:len(o.Edges)-1]
		}
		if r.P(0.6) {
			o.Tail = ",0:0|0:0,0:0:0:0:"
		} else {
			o.Tail = ""
		}
	}
}
