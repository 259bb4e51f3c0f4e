package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"github.com/Wieku/gosu-pp/files"
	"gosusim/simrt"
)

// ---- C21: text readers and line scanners

const defLine = 64 << 10 // the line limit of a scanner made without a buffer size

// decodeText is the text that stored bytes stand for.
func decodeText(b []byte) string {
	be := false
	switch {
	case bytes.HasPrefix(b, []byte{0xef, 0xbb, 0xbf}):
		return strings.ToValidUTF8(string(b[3:]), "\ufffd")
	case bytes.HasPrefix(b, []byte{0xfe, 0xff}):
		be = true
	case bytes.HasPrefix(b, []byte{0xff, 0xfe}):
	default:
		return strings.ToValidUTF8(string(b), "\ufffd")
	}
	b = b[2:]
	var out strings.Builder
	unit := func(i int) rune {
		if be {
			return rune(b[i])<<8 | rune(b[i+1])
		}
		return rune(b[i+1])<<8 | rune(b[i])
	}
	for i := 0; i < len(b); i += 2 {
		if i+2 > len(b) {
			out.WriteRune(0xfffd)
			break
		}
		u := unit(i)
		if u >= 0xd800 && u < 0xdc00 && i+4 <= len(b) {
			if l := unit(i + 2); l >= 0xdc00 && l < 0xe000 {
				out.WriteRune((u-0xd800)<<10 + (l - 0xdc00) + 0x10000)
				i += 2
				continue
			}
		}
		if u >= 0xd800 && u < 0xe000 {
			u = 0xfffd
		}
		out.WriteRune(u)
	}
	return out.String()
}

// oneMark shows every ill-formed stretch as one replacement character: whether and how often a decoder replaces it is its own choice.
func oneMark(s string) string {
	s = strings.ToValidUTF8(s, "\ufffd")
	if !strings.Contains(s, "\ufffd\ufffd") {
		return s
	}
	var b strings.Builder
	last := rune(0)
	for _, c := range s {
		if c != 0xfffd || last != 0xfffd {
			b.WriteRune(c)
		}
		last = c
	}
	return b.String()
}

// genFile draws the bytes of a text file.
func genFile(r *Rng, limit int) []byte {
	var b strings.Builder
	eol := r.Pick([]string{"\n", "\r\n", "\n"})
	for n := r.PickI(0, 1, 3, 3, 10, 10, 40, 40, r.Range(40, 200)); n > 0; n-- {
		size := r.PickI(0, 1, 5, 30, 80)
		switch r.N(16) {
		case 0: // around the sizes of buffers
			size = r.PickI(512, 1024, 4096, 8192, limit, limit) + r.Range(-4, 4)
		case 1:
			size = r.N(6000)
		}
		at := b.Len()
		for b.Len()-at < size {
			switch r.N(8) {
			case 0:
				b.WriteString(r.Pick(uniWords))
			case 1:
				b.WriteString(r.Pick([]string{"\r", "\r\r", "\t", "\x00", "\ufeff", " ", "\x7f", "\u0080", "\u07ff", "\u0800", "\uffff"}))
			case 2, 3, 4:
				b.WriteString(strings.Repeat("0123456789abcdef", 1+r.N(8)))
			default:
				b.WriteString(r.Pick(words))
			}
			if r.P(0.3) && b.Len()-at > size { // exactly as long
				s := b.String()[:at+size]
				for len(s) > 0 && !utf8.ValidString(s[len(s)-1:]) {
					s = s[:len(s)-1]
				}
				for len(s) < at+size {
					s += "~"
				}
				b.Reset()
				b.WriteString(s)
			}
		}
		if n > 1 || r.P(0.7) {
			if r.P(0.05) {
				eol = r.Pick([]string{"\n", "\r\n", "\r\r\n", "\n\n"})
			}
			b.WriteString(eol)
		}
	}
	enc := r.Pick([]string{"utf8", "utf8", "utf8bom", "utf16le", "utf16be"})
	out := encode([]byte(b.String()), enc)
	if r.P(0.25) {
		for k := r.PickI(1, 1, 2, 5); k > 0 && len(out) > 0; k-- {
			at := r.N(len(out))
			switch r.N(6) {
			case 0:
				out = out[:at]
			case 1:
				out = append(out[:at:at], out[at+1:]...)
			case 2:
				out[at] ^= 1 << uint(r.N(8))
			case 3:
				out[at] = byte(r.PickI(0xff, 0xd8, 0xdc, 0xc3, 0xed, 0xf4, 0xc0, 0xe2))
			case 4:
				out = append(out[:at:at], append([]byte(r.Pick([]string{"\xff\xfe", "\xef\xbb\xbf", "\xfe\xff", "\xd8\x00", "\x00\xdc", "\x00"})), out[at:]...)...)
			case 5:
				out = append(out, out[at:]...)
			}
		}
	}
	return out
}

func genC21(r *Rng, run int, tier string) *Scenario {
	sc := &Scenario{Sched: genSched(r)}
	for n := r.PickI(1, 1, 2, 3); n > 0; n-- {
		var cl Client
		for k := r.PickI(1, 1, 2, 3); k > 0; k-- {
			limit := r.PickI(16, 100, 1000, 4096, 10000)
			open := Op{K: r.Pick([]string{"reader", "reader", "scanner", "scannerbuf", "scannerbuf"}), N: limit, Del: len(sc.Del)}
			if open.K == "scanner" {
				limit = defLine
				if r.P(0.8) {
					limit = 5000
				}
			}
			data := genFile(r, limit)
			d := genDelivery(r, len(data))
			if len(data) > 2000 && d.Mode != "whole" && r.P(0.8) {
				d.Mode = r.Pick([]string{"mixed", "page", "big", "marks"})
			}
			if r.P(0.35) {
				d.Fail = 1 + r.PickI(0, r.N(4), r.N(len(data)+1), r.N(len(data)+1), len(data))
				if d.Fail > len(data)+1 {
					d.Fail = len(data) + 1
				}
				d.Err = r.Pick(errKinds)
				d.FailWith = r.P(0.5)
				d.After = r.Pick([]string{"", "", "eof"})
			}
			sc.Del = append(sc.Del, d)
			open.Text = Raw(data)
			cl.Ops = append(cl.Ops, open)
			for j := r.PickI(0, 1, 4, 20); j > 0; j-- {
				op := Op{K: "read", N: r.PickI(0, 1, 1, 2, 3, 5, r.N(100), 512, 4095, 4096, 4097, r.N(9000), 20000)}
				if open.K != "reader" {
					op = Op{K: "line"}
				}
				cl.Ops = append(cl.Ops, op)
			}
			if r.P(0.8) {
				op := Op{K: r.Pick([]string{"rest", "rest", "all", "copy", "bufio"}), N: r.PickI(1, 2, 7, 100, 4096, 10000, r.Range(1, 9000))}
				if open.K != "reader" {
					op = Op{K: "rest"}
				}
				cl.Ops = append(cl.Ops, op)
			}
		}
		sc.Clients = append(sc.Clients, cl)
	}
	return sc
}

// streamUser is one caller of the text readers.
type streamUser struct {
	rd    io.Reader
	sc    *bufio.Scanner
	src   *SimReader
	want  string
	least string // what must be there even if the failure came within an ill-formed stretch
	exact bool   // nothing in the file is ill-formed
	short bool   // the file ends by a failure, maybe within a character
	tiny  bool   // and maybe within a byte-order mark
	limit int
	got   []byte
	lines []string
	err   error
	ended bool
	seen  int // how much of got has been compared
	reads int
	keep  [][]byte // the buffers read into, kept to see whether they change later
	kept  []string
}

func (u *streamUser) open(op *Op, d Delivery) {
	*u = streamUser{src: newReader([]byte(op.Text), d), limit: defLine}
	rd := wrapReader(u.src, d)
	data := []byte(op.Text)
	if d.Fail > 0 {
		if d.Fail-1 < len(data) {
			data = data[:d.Fail-1]
		}
		u.short = true
	}
	u.tiny = u.short && len(data) < 3
	if len(data) > 4 {
		u.least = oneMark(decodeText(data[:len(data)-4]))
	}
	u.want = decodeText(data)
	u.exact = !strings.Contains(u.want, "\ufffd")
	switch op.K {
	case "reader":
		u.rd = files.NewUnicodeReader(rd)
	case "scanner":
		u.sc = files.NewScanner(rd)
	case "scannerbuf":
		u.sc = files.NewScannerBuf(rd, op.N)
		u.limit = op.N
	}
}

// prefixOf tells whether got can be the beginning of want.
func (u *streamUser) prefixOf(got, want string) bool {
	if u.exact {
		return strings.HasPrefix(want, got)
	}
	// it may end within a character or within an ill-formed stretch
	return strings.HasPrefix(oneMark(want), strings.TrimSuffix(oneMark(got), "\ufffd"))
}

// whole tells whether got is all of the text. What a failure cut through may be missing.
func (u *streamUser) whole(got, want string) bool {
	if oneMark(got) == oneMark(want) {
		return true
	}
	if !u.short {
		return false
	}
	if u.tiny || !u.exact {
		return u.prefixOf(got, want) && (u.tiny || len(oneMark(got)) >= len(strings.TrimSuffix(u.least, "\ufffd")))
	}
	g, w := oneMark(got), oneMark(want)
	return strings.TrimSuffix(g, "\ufffd") == strings.TrimSuffix(w, "\ufffd")
}

// endsRight checks the error a stream ended with.
func (u *streamUser) endsRight() *Violation {
	if u.short {
		if u.err == nil || !errIs(u.err, u.src.err) && u.err != u.src.err {
			return viol("error", "the file cannot be read further (%v), reported is %v", u.src.err, u.err)
		}
		return nil
	}
	if u.err != nil {
		return viol("error", "a complete file ends with the error %v", u.err)
	}
	return nil
}

func (u *streamUser) read(n int, scramble bool) *Violation {
	p := make([]byte, n)
	for i := range p {
		p[i] = '?'
	}
	k, err := u.rd.Read(p)
	if k < 0 || k > n {
		return viol("contract", "a read of %d bytes gave %d", n, k)
	}
	u.got = append(u.got, p[:k]...)
	if scramble {
		for i := range p {
			p[i] = '\n'
		}
	}
	u.keep = append(u.keep, p)
	u.kept = append(u.kept, string(p))
	if len(u.keep) > 8 {
		u.keep, u.kept = u.keep[1:], u.kept[1:]
	}
	u.reads++
	if err != nil {
		return u.end(err)
	}
	return u.check()
}

func (u *streamUser) end(err error) *Violation {
	u.ended = true
	if err == io.EOF {
		err = nil
	}
	u.err = err
	if v := u.check(); v != nil {
		return v
	}
	if !u.whole(string(u.got), u.want) {
		return viol("text", "read to the end the text is %s, in the file is %s", trunc(fmt.Sprintf("%q", u.got)), trunc(fmt.Sprintf("%q", u.want)))
	}
	return u.endsRight()
}

func (u *streamUser) check() *Violation {
	if u.ended || u.reads%8 == 0 {
		for i := range u.keep {
			if string(u.keep[i]) != u.kept[i] {
				return viol("memory", "a buffer was changed after the read into it had returned")
			}
		}
	}
	ok := true
	if u.exact {
		ok = len(u.got) <= len(u.want) && string(u.got[u.seen:]) == u.want[u.seen:len(u.got)]
		u.seen = len(u.got)
	} else if u.ended || u.reads%64 == 0 {
		ok = u.prefixOf(string(u.got), u.want)
	}
	if !ok {
		return viol("text", "read is %s, in the file is %s", trunc(fmt.Sprintf("%q", u.got)), trunc(fmt.Sprintf("%q", u.want)))
	}
	return nil
}

// line takes the next line and checks it; at the end all of them are checked.
func (u *streamUser) line() *Violation {
	if u.ended {
		if u.err == nil && u.sc.Scan() {
			return viol("lines", "after the last line comes %s", trunc(fmt.Sprintf("%q", u.sc.Text())))
		}
		return nil
	}
	if u.sc.Scan() {
		t := u.sc.Text()
		if !bytes.Equal(u.sc.Bytes(), []byte(t)) {
			return viol("lines", "line %d is %q as text and %q as bytes", len(u.lines), t, u.sc.Bytes())
		}
		u.lines = append(u.lines, t)
		if len(u.lines) > len(u.want)+2 {
			return viol("lines", "there are more lines than in the file")
		}
		return nil
	}
	u.ended = true
	u.err = u.sc.Err()
	text := u.want
	if u.short && !u.exact { // the rest may be missing
		text = u.least[:strings.LastIndexByte(u.least, '\n')+1]
	}
	want := strings.SplitAfter(text, "\n")
	if want[len(want)-1] == "" {
		want = want[:len(want)-1]
	}
	trimmed := func(s string) string {
		return oneMark(strings.TrimSuffix(strings.TrimSuffix(s, "\n"), "\r"))
	}
	for i, w := range want {
		last := i == len(want)-1 && u.exact
		if i >= len(u.lines) {
			if errIs(u.err, bufio.ErrTooLong) && (len(w)+1 > u.limit || !u.exact && 3*len(u.src.data)+1 > u.limit) {
				return nil // too long; replacement characters may make it longer
			}
			if last && u.short && u.whole("", w) && len(u.lines) == i {
				break
			}
			if u.tiny {
				break
			}
			return viol("lines", "line %d, %s, is missing, the scanner stops with %v", i, trunc(fmt.Sprintf("%q", w)), u.err)
		}
		g := u.lines[i]
		if last && u.short {
			if x, y := strings.TrimRight(oneMark(g), "\r\n\ufffd"), strings.TrimRight(oneMark(w), "\r\n\ufffd"); x != y && !u.tiny {
				return viol("lines", "line %d is %s instead of %s", i, trunc(fmt.Sprintf("%q", g)), trunc(fmt.Sprintf("%q", w)))
			}
			continue
		}
		if oneMark(g) != trimmed(w) {
			return viol("lines", "line %d is %s instead of %s", i, trunc(fmt.Sprintf("%q", g)), trunc(fmt.Sprintf("%q", w)))
		}
	}
	if !u.exact && u.short && errIs(u.err, bufio.ErrTooLong) && 3*len(u.src.data)+1 > u.limit {
		return nil
	}
	if len(u.lines) > len(want) && (u.exact || !u.short) {
		return viol("lines", "%d lines, in the file are %d", len(u.lines), len(want))
	}
	return u.endsRight()
}

func (u *streamUser) do(op *Op, del []Delivery, even bool) *Violation {
	switch op.K {
	case "reader", "scanner", "scannerbuf":
		d := Delivery{Mode: "whole"}
		if op.Del < len(del) {
			d = del[op.Del]
		}
		if op.N < 16 {
			return nil
		}
		u.open(op, d)
		return nil
	}
	if u.rd == nil && u.sc == nil {
		return nil
	}
	if u.sc != nil {
		for n := 0; ; n++ {
			if v := u.line(); v != nil || op.K != "rest" || u.ended {
				return v
			}
		}
	}
	switch {
	case op.K == "read" && u.ended:
		p := make([]byte, op.N+1)
		k, err := u.rd.Read(p)
		if k != 0 || err == nil {
			return viol("end", "after its end (%v) the stream gives %d bytes and %v", u.err, k, err)
		}
	case u.ended:
	case op.K == "read":
		return u.read(op.N, even)
	case op.K == "rest":
		for n := 0; !u.ended; n++ {
			if n > 4*len(u.src.data)+1000 {
				return viol("hang", "reading %d bytes at a time gets nowhere: %d bytes read, %d are in the file", op.N, len(u.got), len(u.want))
			}
			size := op.N
			if len(u.src.data) > 50000 && size < 100 {
				size = 100
			}
			if v := u.read(size, even); v != nil {
				return v
			}
		}
	case op.K == "all":
		b, err := io.ReadAll(u.rd)
		u.got = append(u.got, b...)
		return u.end(err)
	case op.K == "copy":
		var b bytes.Buffer
		_, err := io.CopyBuffer(&b, u.rd, make([]byte, op.N))
		u.got = append(u.got, b.Bytes()...)
		return u.end(err)
	case op.K == "bufio":
		br := bufio.NewReaderSize(u.rd, op.N)
		for {
			s, err := br.ReadString('\n')
			u.got = append(u.got, s...)
			if err != nil {
				return u.end(err)
			}
		}
	}
	return nil
}

func runC21(sc *Scenario, c *Ctx) *Violation {
	simrt.Reset()
	bad := make([]*Violation, len(sc.Clients))
	users := make([]streamUser, len(sc.Clients))
	keys := make([]uint64, len(sc.Clients))
	stats := make([][]*SimReader, len(sc.Clients))
	var fns []func()
	for i := range sc.Clients {
		cl := &sc.Clients[i]
		i := i
		u := &users[i]
		fns = append(fns, func() {
			for j := range cl.Ops {
				v := u.do(&cl.Ops[j], sc.Del, j%2 == 0)
				if v != nil {
					v.Detail = fmt.Sprintf("client %d, step %d (%s): %s", i, j, cl.Ops[j].K, v.Detail)
					bad[i] = v
					return
				}
				if u.src != nil && (len(stats[i]) == 0 || stats[i][len(stats[i])-1] != u.src) {
					stats[i] = append(stats[i], u.src)
				}
				keys[i] = keys[i]*31 + uint64(len(u.got)) + uint64(len(u.lines))<<32
				simrt.Yield()
			}
		})
	}
	r := c.main(sc, 0, fns...)
	c.count("preemptions", int64(r.Preempts))
	short := int64(0)
	for i := range sc.Clients {
		for _, s := range stats[i] {
			c.readerCounts(s.st)
			short += s.st.Short + s.st.Empty
		}
		for j := range sc.Clients[i].Ops {
			c.count("op_"+sc.Clients[i].Ops[j].K, 1)
		}
		if users[i].src != nil && !users[i].exact {
			c.count("ill_formed_text", 1)
		}
		if users[i].sc != nil && users[i].ended && errors.Is(users[i].err, bufio.ErrTooLong) && !users[i].short {
			c.count("line_too_long", 1)
		}
	}
	c.Trivial = short == 0
	if v := runBad(r); v != nil {
		return v
	}
	for _, v := range bad {
		if v != nil {
			return v
		}
	}
	for _, k := range keys {
		c.mix(k)
	}
	c.Key = c.Hash ^ r.SchedHash
	return nil
}
