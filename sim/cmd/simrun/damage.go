package main

import (
	"bytes"
	"strconv"
	"strings"
	"unicode/utf16"
)

// Fault is one storage fault. Record faults (field, blank, line, cutline, dupline, delline, swapline) act on the text before it
// is encoded; the others act on the stored bytes.
type Fault struct {
	Kind string `json:"kind"`
	A    int    `json:"a"`
	B    int    `json:"b,omitempty"`
	C    int    `json:"c,omitempty"`
	S    Raw    `json:"s,omitempty"`
}

func (f Fault) isRecord() bool {
	switch f.Kind {
	case "field", "blankfield", "line", "cutline", "cutfield", "dupline", "delline", "swapline", "point":
		return true
	}
	return false
}

// values that fields get overwritten with
var tokens = []string{
	"", " ", "0", "-0", "-1", "1", "2", "3", "5", "8", "12", "128", "255", "0.0001", "-0.5", "1.5", "1e3",
	"NaN", "nan", "-NaN", "Inf", "-Inf", "+inf", "Infinity", "1e308", "-1e308", "1e-308", "1e400", "-1e400", "1e39", "3.5e38", "1e19", "9e15",
	"2147483647", "2147483648", "-2147483648", "4294967296", "9223372036854775807", "-9223372036854775808", "99999999999999999999999",
	"9000", "9001", "100000", "131072", "131073", "-131073", "1000000", "0x10", "0x1p-2", "1_000", "１２", "null", "abc", "B", "L|", "P|1:1", "1:", ":", "|", "1|2|3", "\"", "1:1|1:1", "\x00", "-",
}

var lineTokens = []string{
	"", ",", ",,", ",,,,,,,,", "0,0", "2,1", "2", "Break,", "1,2,3", "1,2,3,1", "1,2,3,2,0", "1,2,3,8,0", "1,2,3,12,0", "1,2,3,128,0", "100,100,1000,2,0,B,1", "100,100,1000,2,0,B|,1,100", "100,100,1000,2,0,L|200,1,100",
	"100,100,1000,2,0,L|200:,1,100", "100,100,1000,2,0,,1,100", "100,100,1000,2,0,L|200:200,1", "100,100,1000,2,0,L|200:200,0,100", "100,100,1000,2,0,L|200:200,-1,100", "100,100,1000,2,0,L|200:200,-5,100,2|0",
	"100,100,1000,2,0,L|200:200,1,100,0|0|0|0|0|0|0", "100,100,1000,2,0,P|100:100|100:100,1,100", "100,100,1000,2,0,P|200:200.0000001|300:300.0001,1,100", "100,100,1000,2,0,P|100.00001:100|100:100.00001,1,100",
	"100,100,1000,2,0,P|131072:131072|131072:0,1,131072", "0.1,0.1,1000,2,0,P|1e-20:1|3:1e-30,1,50", "1000", "1000,NaN", "1000,Inf,4,1,0,50,1,0", "1000,-Inf", "1000,0,4,1,0,50,1,0", "1000,1e308", "1000,1e-308,4,1,0,50,1,0", "1000,-1e-308,4,1,0,50,0,0",
	"SliderMultiplier:0", "SliderMultiplier:NaN", "SliderMultiplier:-1", "SliderMultiplier:1e-300", "SliderMultiplier:Inf", "SliderTickRate:0", "SliderTickRate:NaN", "SliderTickRate:Inf", "SliderTickRate:-2", "SliderTickRate:1e300",
	"CircleSize:NaN", "ApproachRate:NaN", "OverallDifficulty:NaN", "HPDrainRate:NaN", "StackLeniency:Inf", "StackLeniency:-1e9", "[", "[]", "[HitObjects", "[HitObjects]", "[TimingPoints]", "[General]", "osu file format v3", "osu file format v", "osu file format v-1",
	"256,192,-2147483648,1,0", "256,192,2147483647,1,0", "NaN,NaN,NaN,1,0", "256,192,1000,8,0,NaN", "256,192,1000,8,0,-5000", "256,192,1000,-1,0,5", "256,192,1000,-1,0", "256,192,1000,99999999999,0,L|1:1,1,5", "//", ":", "a:b",
}

func splitLines(b []byte) []string { return strings.Split(string(b), "\n") }

func mod(a, n int) int {
	if n <= 0 {
		return 0
	}
	a %= n
	if a < 0 {
		a += n
	}
	return a
}

func delimOf(l string) string {
	if strings.Contains(l, ",") {
		return ","
	}
	return ":"
}

// applyRecord applies a record fault to the text.
func applyRecord(text []byte, f Fault) []byte {
	ls := splitLines(text)
	i := mod(f.A, len(ls))
	cr := strings.HasSuffix(ls[i], "\r")
	l := strings.TrimSuffix(ls[i], "\r")
	switch f.Kind {
	case "field", "blankfield", "cutfield":
		d := delimOf(l)
		fs := strings.Split(l, d)
		j := mod(f.B, len(fs))
		if f.Kind == "cutfield" {
			fs = fs[:j]
		} else {
			fs[j] = string(f.S)
		}
		l = strings.Join(fs, d)
	case "point":
		// one control point or edge sound inside a slider
		fs := strings.Split(l, "|")
		fs[mod(f.B, len(fs))] = string(f.S)
		l = strings.Join(fs, "|")
	case "line":
		l = string(f.S)
	case "cutline":
		l = l[:mod(f.B, len(l)+1)]
	case "dupline":
		j := mod(f.B, len(ls))
		ls = append(ls[:j:j], append([]string{ls[i]}, ls[j:]...)...)
		return []byte(strings.Join(ls, "\n"))
	case "delline":
		ls = append(ls[:i:i], ls[i+1:]...)
		return []byte(strings.Join(ls, "\n"))
	case "swapline":
		j := mod(f.B, len(ls))
		ls[i], ls[j] = ls[j], ls[i]
		return []byte(strings.Join(ls, "\n"))
	}
	if cr {
		l += "\r"
	}
	ls[i] = l
	return []byte(strings.Join(ls, "\n"))
}

// applyByte applies a fault to the stored bytes.
func applyByte(b []byte, f Fault) []byte {
	n := len(b)
	if n == 0 {
		return b
	}
	a := mod(f.A, n)
	switch f.Kind {
	case "trunc":
		return b[:mod(f.A, n+1)]
	case "flip":
		b[a] ^= 1 << uint(f.B&7)
	case "set":
		copy(b[a:], f.S)
	case "zero":
		for i := a; i < n && i < a+f.B; i++ {
			b[i] = 0
		}
	case "ff":
		for i := a; i < n && i < a+f.B; i++ {
			b[i] = 0xff
		}
	case "dup":
		e := a + f.B
		if e > n {
			e = n
		}
		blk := append([]byte(nil), b[a:e]...)
		c := mod(f.C, n)
		return append(b[:c:c], append(blk, b[c:]...)...)
	case "del":
		e := a + f.B
		if e > n {
			e = n
		}
		return append(b[:a:a], b[e:]...)
	case "move":
		// a block written to the wrong place
		e := a + f.B
		if e > n {
			e = n
		}
		blk := append([]byte(nil), b[a:e]...)
		copy(b[mod(f.C, n):], blk)
	case "insert":
		return append(b[:a:a], append([]byte(f.S), b[a:]...)...)
	case "stale":
		// the file was shorter than the version it overwrote: the tail of that older version is still there
		return append(b, b[a:]...)
	}
	return b
}

// damage renders the map and applies the faults.
func damage(m *MapSpec, fs []Fault, fired map[string]int64) []byte {
	var text []byte
	enc := m.Enc
	if m.Corpus != "" {
		text, enc = append([]byte(nil), corpus[m.Corpus]...), "raw"
	} else {
		text, _, _ = m.Text()
	}
	for _, f := range fs {
		if f.isRecord() {
			old := text
			text = applyRecord(text, f)
			if !bytes.Equal(old, text) {
				fired[f.Kind]++
			}
		}
	}
	b := text
	if enc != "raw" {
		b = encode(text, enc)
	}
	for _, f := range fs {
		if !f.isRecord() {
			old := append([]byte(nil), b...)
			b = applyByte(b, f)
			if !bytes.Equal(old, b) {
				fired[f.Kind]++
			}
		}
	}
	return b
}

// genFault draws a fault for a file of n bytes and the given lines.
func genFault(r *Rng, lines []Line, n int) Fault {
	byteKinds := []string{"trunc", "flip", "flip", "set", "zero", "ff", "dup", "del", "move", "insert", "stale"}
	if len(lines) > 0 && r.P(0.7) {
		// aim at records rather than at noise
		i := r.N(len(lines))
		for k := 0; k < 8 && lines[i].Rec < 0; k++ {
			i = r.N(len(lines))
		}
		f := Fault{A: i, B: r.N(12)}
		switch r.N(14) {
		case 12, 13:
			fs := strings.Split(lines[i].Text, delimOf(lines[i].Text))
			f.B = r.N(len(fs))
			f.Kind, f.S = "field", Raw(misnumber(r, fs[f.B]))
		case 0, 1, 2, 3, 4:
			f.Kind, f.S = "field", Raw(r.Pick(tokens))
		case 5:
			f.Kind = "cutfield"
		case 6:
			f.Kind, f.B = "cutline", r.N(60)
		case 7, 8:
			f.Kind, f.S = "line", Raw(r.Pick(lineTokens))
		case 9:
			f.Kind, f.B, f.S = "point", r.N(4), Raw(r.Pick(tokens))
		case 10:
			f.Kind, f.B = r.Pick([]string{"dupline", "swapline"}), r.N(len(lines))
		case 11:
			f.Kind = "delline"
		}
		return f
	}
	f := Fault{Kind: r.Pick(byteKinds), A: r.N(n + 1), C: r.N(n + 1)}
	switch f.Kind {
	case "flip":
		f.B = r.N(8)
	case "set", "insert":
		switch r.N(4) {
		case 0:
			f.S = Raw(r.Pick([]string{",", "-", "9", "e", ":", "|", ".", "\n", "\r", "[", "]", "0", " "}))
		case 1:
			f.S = Raw(r.Pick(tokens))
		case 2:
			f.S = Raw(r.Pick(lineTokens))
		default:
			b := make([]byte, r.Range(1, 16))
			for i := range b {
				b[i] = byte(r.N(128))
			}
			f.S = Raw(b)
		}
	default:
		f.B = r.PickI(1, 2, 16, 64, 512, 512, 4096)
	}
	return f
}

func genFaults(r *Rng, m *MapSpec) []Fault {
	b := m.Bytes()
	var lines []Line
	if m.Corpus == "" {
		lines = m.Lines()
	} else {
		lines = make([]Line, bytes.Count(b, []byte("\n")))
	}
	n := r.PickI(1, 1, 1, 2, 3, r.Range(1, 8))
	var fs []Fault
	for i := 0; i < n; i++ {
		fs = append(fs, genFault(r, lines, len(b)))
	}
	return fs
}

// workEstimate bounds from above the number of curve and scoring points a legitimate reading of the file may take,
// so that inputs that ask for enormous but finite work are told apart from ones that never end.
func workEstimate(b []byte) float64 {
	w := workOf(b)
	if len(b) > 2 && (b[0] == 0xff && b[1] == 0xfe || b[0] == 0xfe && b[1] == 0xff) {
		u := make([]uint16, 0, len(b)/2)
		for i := 2; i+1 < len(b); i += 2 {
			if b[0] == 0xff {
				u = append(u, uint16(b[i])|uint16(b[i+1])<<8)
			} else {
				u = append(u, uint16(b[i+1])|uint16(b[i])<<8)
			}
		}
		w += workOf([]byte(string(utf16.Decode(u))))
	}
	return w
}

func workOf(text []byte) (ticks float64) {
	mult, rate := 1.4, 1.0
	ls := splitLines(text)
	for _, l := range ls {
		t := strings.TrimSpace(l)
		if strings.Contains(t, "SliderMultiplier") || strings.Contains(t, "SliderTickRate") {
			mult, rate = 0.4, 8 // may be anything within the limits
		}
	}
	minDist := 100 * mult / rate / 10
	for _, l := range ls {
		fs := strings.Split(l, ",")
		if len(fs) < 8 {
			continue
		}
		p, err := strconv.ParseFloat(strings.TrimSpace(fs[7]), 64)
		if err != nil || !(p > 0) || p > 131072 {
			p = 0
		}
		reps, err := strconv.ParseInt(strings.TrimSpace(fs[6]), 10, 64)
		if err != nil || reps < 1 || reps > 9000 {
			reps = 1
		}
		pts := strings.Split(fs[5], "|")
		maxc := 512.0
		for _, q := range append(strings.FieldsFunc(fs[5], func(c rune) bool { return c == '|' || c == ':' }), fs[0], fs[1]) {
			if v, err := strconv.ParseFloat(strings.TrimSpace(q), 64); err == nil {
				if v < 0 {
					v = -v
				}
				if v > maxc && v <= 131072 {
					maxc = v
				}
			}
		}
		n := float64(len(pts))
		ticks += (p/minDist + 1) * float64(reps)
		switch {
		case strings.HasPrefix(strings.TrimSpace(fs[5]), "L"):
			ticks += n
		case strings.HasPrefix(strings.TrimSpace(fs[5]), "C"):
			ticks += n * maxc * 3
		default:
			ticks += n * n * n * (maxc / 512) / 4
			ticks += maxc
		}
	}
	return ticks
}
