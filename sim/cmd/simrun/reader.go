package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	"gosusim/simrt"
)

// Delivery decides how the simulated storage hands a file to the parser.
type Delivery struct {
	Mode     string `json:"mode"`
	Seed     uint64 `json:"seed,omitempty"`
	Empty    int    `json:"empty,omitempty"`   // percent of reads that deliver nothing
	Lat      int    `json:"latency,omitempty"` // 1: jitter, 2: long stalls
	EOFWith  bool   `json:"eof_with_data,omitempty"`
	Scribble bool   `json:"scribble,omitempty"` // use the rest of the buffer as scratch space
	Wrap     string `json:"wrap,omitempty"`
	Fail     int    `json:"fail_at_plus1,omitempty"`
	Err      string `json:"err,omitempty"`
	FailWith bool   `json:"fail_with_data,omitempty"`
	After    string `json:"after,omitempty"` // after the failure: same error again, or eof
	Panic    int    `json:"panic_at_plus1,omitempty"`
}

type readerStats struct {
	Reads, Short, Empty, Stalls, EOFWith, Scribbles, Fails, Panics, SplitChar, SplitEOL, SplitBOM int64
}

var errDisk = errors.New("simulated: input/output error")

type tempErr struct{}

func (tempErr) Error() string   { return "simulated: connection timed out" }
func (tempErr) Timeout() bool   { return true }
func (tempErr) Temporary() bool { return true }

var errKinds = []string{"disk", "disk", "unexpected", "wrapeof", "timeout", "closed", "eio", "canceled", "deadline", "closedpipe", "noprogress", "shortbuffer", "custom", "eofstring", "eintr", "eagain", "toolong", "joined", "iseof", "typednil"}

func mkErr(k string) error {
	switch k {
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "wrapeof":
		return fmt.Errorf("simulated: chunk 7 missing: %w", io.EOF)
	case "timeout":
		return tempErr{}
	case "closed":
		return os.ErrClosed
	case "eio":
		return &os.PathError{Op: "read", Path: "map.osu", Err: syscall.EIO}
	case "canceled":
		return context.Canceled
	case "deadline":
		return os.ErrDeadlineExceeded
	case "closedpipe":
		return io.ErrClosedPipe
	case "noprogress":
		return io.ErrNoProgress
	case "shortbuffer":
		return io.ErrShortBuffer
	case "eofstring":
		return errors.New("EOF")
	case "custom":
		return &customErr{7}
	case "eintr":
		return syscall.EINTR
	case "eagain":
		return &os.PathError{Op: "read", Path: "map.osu", Err: syscall.EAGAIN}
	case "toolong":
		return bufio.ErrTooLong
	case "joined":
		return errors.Join(io.EOF, errDisk)
	case "iseof":
		return &customErr{0}
	case "typednil":
		return (*nilErr)(nil)
	}
	return errDisk
}

type customErr struct{ code int }

func (c *customErr) Error() string { return fmt.Sprintf("simulated: code %d", c.code) }

// Is makes code 0 pass for an end of file when asked with errors.Is.
func (c *customErr) Is(t error) bool { return c.code == 0 && t == io.EOF }

// nilErr is an error even as a nil pointer.
type nilErr struct{}

func (*nilErr) Error() string { return "simulated: failed without details" }

// SimReader is the simulated storage.
type SimReader struct {
	data   []byte
	pos    int
	d      Delivery
	rng    *Rng
	err    error
	failed bool
	empt   int
	st     readerStats
	marks  []int
	mark   int
	shown  [][]byte // our own memory handed to the parser through WriteTo
	bufs   int
}

func newReader(data []byte, d Delivery) *SimReader {
	r := &SimReader{data: data, d: d, rng: NewRng(d.Seed, "reader")}
	if d.Fail > 0 {
		r.err = mkErr(d.Err)
	}
	if d.Mode == "marks" {
		r.marks = markPositions(data)
	}
	return r
}

// markPositions are the places where a split hurts most: inside and next to line ends, characters and the byte-order mark.
func markPositions(b []byte) []int {
	var m []int
	add := func(i int) {
		if i > 0 && i < len(b) && (len(m) == 0 || m[len(m)-1] < i) {
			m = append(m, i)
		}
	}
	for i, c := range b {
		if i < 4 || c == '\n' || c == '\r' || c >= 0x80 {
			add(i)
			add(i + 1)
		}
	}
	return m
}

func (r *SimReader) next() int {
	switch r.d.Mode {
	case "one":
		return 1
	case "tiny":
		return 1 + r.rng.N(7)
	case "mixed":
		switch r.rng.N(4) {
		case 0:
			return 1 + r.rng.N(3)
		case 1:
			return 1 + r.rng.N(100)
		case 2:
			return 1 + r.rng.N(5000)
		}
		return 1 + r.rng.N(100000)
	case "page":
		return 4096
	case "big":
		return 1 + r.rng.N(1<<20)
	case "marks":
		for r.mark < len(r.marks) && r.marks[r.mark] <= r.pos {
			r.mark++
		}
		k := r.rng.N(3)
		if r.mark+k < len(r.marks) {
			return r.marks[r.mark+k] - r.pos
		}
	}
	return 1 << 30
}

func (r *SimReader) Read(p []byte) (int, error) {
	r.st.Reads++
	simrt.Yield()
	if r.d.Lat > 0 {
		switch {
		case r.d.Lat == 2 && r.rng.P(0.2):
			r.st.Stalls++
			simrt.Sleep(int64(r.rng.Range(1, 3600)) * 1e9)
		case r.rng.P(0.5):
			simrt.Sleep(int64(r.rng.Range(1, 200000)))
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.d.Panic > 0 && r.pos >= r.d.Panic-1 {
		r.st.Panics++
		panic("simulated: reader panicked")
	}
	if r.failed {
		if r.d.After == "eof" {
			return 0, io.EOF
		}
		return 0, r.err
	}
	if r.d.Empty > 0 && r.empt < 20 && r.rng.N(100) < r.d.Empty {
		r.empt++
		r.st.Empty++
		r.scribble(p)
		return 0, nil
	}
	r.empt = 0
	limit := len(r.data)
	if r.err != nil && r.d.Fail-1 < limit {
		limit = r.d.Fail - 1
	}
	if r.d.Panic > 0 && r.d.Panic-1 < limit {
		limit = r.d.Panic - 1
	}
	n := r.next()
	if n > len(p) {
		n = len(p)
	}
	if n > limit-r.pos {
		n = limit - r.pos
	}
	if n < len(p) {
		r.st.Short++
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos < len(r.data) && r.pos > 0 {
		a, b := r.data[r.pos-1], r.data[r.pos]
		if r.pos < 3 {
			r.st.SplitBOM++
		} else if b&0xc0 == 0x80 || b == 0 || a == 0 {
			r.st.SplitChar++
		} else if a == '\r' && b == '\n' {
			r.st.SplitEOL++
		}
	}
	r.scribble(p[n:])
	if r.pos >= limit && r.err != nil && (n == 0 || r.d.FailWith) {
		r.failed = true
		r.st.Fails++
		return n, r.err
	}
	if r.pos >= len(r.data) && r.err == nil && (r.d.Panic == 0 || r.d.Panic-1 > len(r.data)) && (n == 0 || r.d.EOFWith) {
		if n > 0 {
			r.st.EOFWith++
		}
		return n, io.EOF
	}
	return n, nil
}

func (r *SimReader) scribble(p []byte) {
	if !r.d.Scribble || len(p) == 0 {
		return
	}
	if len(p) > 4096 {
		p = p[:4096]
	}
	r.st.Scribbles++
	const junk = "\n[HitObjects]\n256,192,1,5,0\n[Metadata]\nTitle:junk\xff\xfe"
	o := r.rng.N(len(junk))
	for i := range p {
		p[i] = junk[(i+o)%len(junk)]
	}
}

// richReader offers the optional reader interfaces as well; what it gives away through WriteTo is its own memory, which it reuses.
type richReader struct{ *SimReader }

func (r richReader) WriteTo(w io.Writer) (int64, error) {
	var total int64
	buf := make([]byte, 1024)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, werr := w.Write(buf[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		for i := range buf {
			buf[i] = '#'
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func (r richReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := r.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (r richReader) Close() error { return nil }
func (r richReader) Name() string { return "map.osu" }

// Seek: the file is opened in the middle of a larger archive, so seeking to its start leads elsewhere.
func (r richReader) Seek(off int64, whence int) (int64, error) {
	return 0, errors.New("simulated: illegal seek")
}

// wrapReader puts standard adapters between storage and parser.
func wrapReader(r *SimReader, d Delivery) io.Reader {
	switch d.Wrap {
	case "bufio":
		return bufio.NewReaderSize(r, 16)
	case "limit":
		return io.LimitReader(r, 1<<40)
	case "multi":
		return io.MultiReader(bytes.NewReader(nil), r, bytes.NewReader(nil))
	case "tee":
		return io.TeeReader(r, io.Discard)
	case "rich":
		return richReader{r}
	}
	return r
}

var deliveryModes = []string{"whole", "one", "tiny", "mixed", "mixed", "page", "big", "marks", "marks"}

func genDelivery(r *Rng, size int) Delivery {
	d := Delivery{Mode: r.Pick(deliveryModes), Seed: r.U64()}
	if size > 300000 {
		// the line splitter rescans a line from its start after every read
		d.Mode = r.Pick([]string{"whole", "page", "big"})
	}
	if r.P(0.4) {
		d.Empty = r.PickI(5, 30, 70)
	}
	d.Lat = r.PickI(0, 0, 1, 2)
	d.EOFWith = r.P(0.5)
	d.Scribble = r.P(0.5)
	if r.P(0.3) {
		d.Wrap = r.Pick([]string{"bufio", "limit", "multi", "tee", "rich"})
		if d.Wrap == "bufio" {
			// bufio gives up after 100 empty reads in a row; the simulated storage stays well below that
		}
	}
	return d
}
