package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"
	"gosusim/simrt"
)

// ---- C19: mod sets as text

// modCodes are the short names, by bit.
var modCodes = strings.Fields("NF EZ TD HD HR SD DT RX HT NC FL AT SO AP PF K4 K5 K6 K7 K8 FI RN CN TG K9 K0 K1 K3 K2 V2 LM DC")

const (
	modNF, modEZ, modHR, modSD, modDT, modRX, modHT, modNC, modAT, modSO, modAP, modPF, modTG, modDC = 1 << 0, 1 << 1, 1 << 4, 1 << 5, 1 << 6, 1 << 7, 1 << 8,
		1 << 9, 1 << 11, 1 << 12, 1 << 13, 1 << 14, 1 << 23, 1 << 31
)

// implied adds the mods that others come with.
func implied(m int64) int64 {
	for _, x := range [][2]int64{{modNC, modDT}, {modPF, modSD}, {modDC, modHT}} {
		if m&x[0] != 0 {
			m |= x[1]
		}
	}
	return m
}

// excluded tells whether the set has mods that exclude each other.
func excluded(m int64) bool {
	for _, x := range [][2]int64{
		{modEZ, modHR}, {modDT | modNC, modHT | modDC}, {modNF, modSD | modPF}, {modRX, modAP}, {modRX | modAP, modSD | modPF | modAT | modNF}, {modAP, modSO},
	} {
		if m&x[0] != 0 && m&x[1] != 0 {
			return true
		}
	}
	return m&modTG != 0
}

// modsIn gives the mods that a text must be read as having, and the most it can be read as having.
func modsIn(text string) (least, most int64) {
	plain := 0
	for plain < len(text) && text[plain] < 0x80 {
		plain++
	}
	for i := 0; i+2 <= len(text); i++ {
		for bit, code := range modCodes {
			if text[i:i+2] == code {
				most |= 1 << uint(bit)
				if i%2 == 0 && i+2 <= plain {
					least |= 1 << uint(bit)
				}
			}
		}
	}
	return implied(least), implied(most)
}

// genModText writes a mod set as text and damages it.
func genModText(r *Rng, earlier []string) string {
	var codes []string
	m := genMods(r)
	if r.P(0.5) {
		m = implied(m)
	}
	for bit, code := range modCodes {
		if m>>uint(bit)&1 != 0 {
			codes = append(codes, code)
		}
	}
	for k := r.N(4); k > 0; k-- {
		codes = append(codes, r.Pick(modCodes))
	}
	for i := range codes { // any order
		j := r.N(i + 1)
		codes[i], codes[j] = codes[j], codes[i]
	}
	b := []byte(strings.Join(codes, ""))
	if len(earlier) > 0 && r.P(0.5) { // as before, with something else at its end, in front or taken away
		old := earlier[r.N(len(earlier))]
		switch r.N(4) {
		case 0:
			b = append([]byte(old), b...)
		case 1:
			b = append(b, old...)
		case 2:
			b = []byte(old[:r.N(len(old)+1)])
		default:
			b = []byte(old)
		}
	}
	for k := r.PickI(0, 1, 1, 1, 2, 4); k > 0; k-- {
		at := r.N(len(b) + 1)
		kind := r.Pick([]string{"cut", "cut", "overwrite", "overwrite", "flip", "zero", "lost", "insert", "repeat", "wide", "append"})
		switch {
		case kind == "cut":
			b = b[:at]
		case kind == "overwrite" && len(b) > 1:
			copy(b[at/2*2:], r.Pick([]string{"XX", "hd", "  ", ",,", "--", "HD", "N", "0x", "K", "//"}))
		case kind == "flip" && at < len(b):
			b[at] ^= 1 << uint(r.N(8))
		case kind == "zero" && at < len(b):
			for i := at; i < len(b) && i < at+r.Range(1, 4); i++ {
				b[i] = 0
			}
		case kind == "lost" && at < len(b):
			b = append(b[:at:at], b[at+1:]...)
		case kind == "insert":
			b = append(b[:at:at], append([]byte(r.Pick([]string{" ", ",", "+", "HD", "\x00", "DTD", "\t"})), b[at:]...)...)
		case kind == "repeat":
			b = append(b, b[at:]...)
		case kind == "wide":
			b = append(b[:at:at], append([]byte(r.Pick([]string{"é", "譜", "😀", "\xff", "\xc3", "\ufeff"})), b[at:]...)...)
		case kind == "append":
			b = append(b, r.Pick([]string{"\n", "\r\n", " ", "X", ",NF", ","})...)
		default:
			continue
		}
	}
	if r.P(0.01) && len(b) < 100 {
		b = []byte(strings.Repeat(string(b)+"HD", 2000))
	}
	return string(b)
}

func genC19(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{Sched: genSched(r)}
	var texts []string
	if run%16 == 3 {
		c := calcCfg(r)
		c.MaxObjs = 10
		if c.MinObjs > 4 {
			c.MinObjs = 4
		}
		sc.Maps = []MapSpec{GenMap(r, c)}
	}
	for n := r.PickI(1, 2, 3); n > 0; n-- {
		var cl Client
		for k := r.Range(2, 20); k > 0; k-- {
			op := Op{K: r.Pick([]string{"write", "write", "read", "read", "exclude"}), Mods: genMods(r)}
			if op.K == "read" {
				op.Text = Raw(genModText(r, texts))
				texts = append(texts, string(op.Text))
			}
			if op.K == "exclude" && r.P(0.7) { // few mods, so that pairs come up
				op.Mods = 1<<uint(r.N(32)) | 1<<uint(r.N(32))
				if r.P(0.3) {
					op.Mods |= 1 << uint(r.N(32))
				}
			}
			cl.Ops = append(cl.Ops, op)
		}
		sc.Clients = append(sc.Clients, cl)
	}
	return sc
}

func runC19(sc *Scenario, c *Ctx) *Violation {
	simrt.Reset()
	var b *beatmap.BeatMap
	if len(sc.Maps) > 0 {
		var v *Violation
		if b, v = c.mustParse(&sc.Maps[0]); v != nil {
			return v
		}
	}
	bad := make([]*Violation, len(sc.Clients))
	keys := make([]uint64, len(sc.Clients))
	var fns []func()
	for i := range sc.Clients {
		cl := &sc.Clients[i]
		i := i
		fns = append(fns, func() {
			for j := range cl.Ops {
				s, v := modOp(&cl.Ops[j], b, j == len(cl.Ops)-1)
				if v != nil {
					v.Detail = fmt.Sprintf("client %d, step %d (%s): %s", i, j, cl.Ops[j].K, v.Detail)
					bad[i] = v
					return
				}
				keys[i] = (keys[i] ^ hashLines([]string{s})) * 0x100000001b3
			}
		})
	}
	r := c.main(sc, 0, fns...)
	c.count("preemptions", int64(r.Preempts))
	for i := range sc.Clients {
		for j := range sc.Clients[i].Ops {
			op := &sc.Clients[i].Ops[j]
			c.count("op_"+op.K, 1)
			if op.K == "read" {
				least, most := modsIn(string(op.Text))
				if len(op.Text)%2 == 1 {
					c.count("text_of_odd_length", 1)
				}
				if least != most {
					c.count("text_damaged_or_shifted", 1)
				}
			}
		}
	}
	if v := runBad(r); v != nil {
		return v
	}
	for _, v := range bad {
		if v != nil {
			return v
		}
	}
	for _, k := range keys {
		c.mix(k)
	}
	c.Key = c.Hash ^ r.SchedHash
	return nil
}

func modOp(op *Op, b *beatmap.BeatMap, last bool) (string, *Violation) {
	m := difficulty.Modifier(op.Mods)
	full := difficulty.Modifier(implied(op.Mods))
	switch op.K {
	case "write":
		s := m.String()
		back := difficulty.ParseMods(s)
		if back != full {
			return "", viol("text", "mods %d are written %q, which reads as %d instead of %d", m, s, back, full)
		}
		if t := full.String(); t != s {
			return "", viol("text", "mods %d are written %q, with the implied mods %q", m, s, t)
		}
		long := m.StringFull()
		seen := map[string]bool{}
		for _, n := range long {
			seen[n] = true
		}
		if len(long) != len(s)/2 || len(seen) != len(long) {
			return "", viol("text", "mods %d are written %q, in full %q", m, s, long)
		}
		if x := full.GetScoreMultiplier(); !(x >= 0) || math.IsInf(x, 0) || x != back.GetScoreMultiplier() {
			return "", viol("multiplier", "mods %d have the score multiplier %v, read back %v", full, x, back.GetScoreMultiplier())
		}
		d, e := difficulty.NewDifficulty(5, 4, 8, 9), difficulty.NewDifficulty(5, 4, 8, 9)
		d.SetMods(full)
		e.SetMods(back)
		if x, y := digDiff(d), digDiff(e); x != y {
			return "", viol("settings", "settings with mods %d read back from %q: %s", m, s, diffLines([]string{y}, []string{x}))
		}
		for bit := range modCodes {
			one := difficulty.Modifier(1) << uint(bit)
			if back.Active(one) != (full&one != 0) || d.CheckModActive(one) != e.CheckModActive(one) {
				return "", viol("text", "mods %d read back from %q: %s is active: %v", m, s, modCodes[bit], back.Active(one))
			}
		}
		if b != nil && last {
			if x, y := osu.CalculateSingle(b.HitObjects, d), osu.CalculateSingle(b.HitObjects, e); digAttr(x) != digAttr(y) {
				return "", viol("calculation", "the rating with mods %d read back from %q is %s instead of %s", m, s, digAttr(y), digAttr(x))
			}
		}
		return s, nil
	case "read":
		text := string(op.Text)
		least, most := modsIn(text)
		got := int64(difficulty.ParseMods(text))
		if got&least != least {
			return "", viol("damaged", "%s read as mods %d, which lacks %s", trunc(fmt.Sprintf("%q", text)), got, difficulty.Modifier(least&^got))
		}
		if got&^most != 0 {
			return "", viol("damaged", "%s read as mods %d, of which %s are not in it", trunc(fmt.Sprintf("%q", text)), got, difficulty.Modifier(got&^most))
		}
		if got != implied(got) {
			return "", viol("damaged", "%s read as mods %d without the implied mods", trunc(fmt.Sprintf("%q", text)), got)
		}
		return fmt.Sprint(got), nil
	case "exclude":
		if got := m.Compatible(); got == excluded(op.Mods) {
			return "", viol("exclude", "mods %s (%d) are reported compatible: %v", m, op.Mods, got)
		}
		if m.Compatible() != full.Compatible() {
			return "", viol("exclude", "mods %s (%d) are reported compatible: %v, with the implied mods: %v", m, op.Mods, m.Compatible(), full.Compatible())
		}
		return fmt.Sprint(excluded(op.Mods)), nil
	}
	return "", nil
}
