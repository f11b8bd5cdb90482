package body_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"testing"

	"github.com/chronos-tachyon/morehttp/body"
)

// The reference behaviour of the bodies, as the properties state it.

type world struct {
	prop    string
	family  string // bytes empty at seek plain
	content []byte
	orig    []byte
	decl    int64 // declared length, -1 unknown
	end     int64 // agreed end, -1 unknown
	c       *core
	r       io.Reader
	stream  string // the property of the family's stream
	bodies  []*mbody
	l       *verifLog
	term    error // terminal error seen (plain)
	window  func() (int, bool)
}

type mbody struct {
	id    int
	b     body.Body
	pos   int64
	err   error
	maybe bool // EOF state not determined
	open  bool
	since map[string]bool // operations not yet confirmed by a read
}

// fail reports a failure if it is one of the property under test, and
// otherwise ends the trial, because the model has lost track.
func (w *world) fail(labels []string, format string, args ...interface{}) {
	for _, x := range labels {
		if x == w.prop {
			verifFailf(format, args...)
		}
	}
	panic(verifDiscard{})
}

func (w *world) streamLabels(m *mbody) []string {
	out := []string{w.stream}
	for k := range m.since {
		out = append(out, k)
	}
	return out
}

func (w *world) nopen() int {
	n := 0
	for _, m := range w.bodies {
		if m.open {
			n++
		}
	}
	return n
}

func minInt64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// contentEnd is the end of what may be delivered.
func (w *world) contentEnd() int64 {
	e := int64(len(w.content))
	if w.decl >= 0 && w.decl < e {
		e = w.decl
	}
	return e
}

func (w *world) remaining(m *mbody) int64 {
	if !m.open {
		return 0
	}
	end := w.end
	if w.family == "plain" && w.c.done {
		end = w.c.taken
	}
	if end < 0 {
		return -1
	}
	if end < m.pos {
		return 0
	}
	return end - m.pos
}

func short(p []byte) string {
	if len(p) > 24 {
		return fmt.Sprintf("%x...(%d bytes)", p[:24], len(p))
	}
	return fmt.Sprintf("%x", p)
}

func (w *world) newBuf(k int) []byte {
	p := make([]byte, k+8)
	for i := range p {
		p[i] = 0xA5
	}
	return p
}

func (w *world) untouched(p []byte, from int) bool {
	for _, b := range p[from:] {
		if b != 0xA5 {
			return false
		}
	}
	return true
}

func (w *world) guard(labels []string, what string, f func()) {
	if v, bad := verifPanics(f); bad {
		switch v.(type) {
		case verifFail, verifDiscard:
			panic(v)
		}
		w.fail(labels, "%s panics: %v", what, v)
	}
}

func (w *world) doRead(m *mbody, k int) {
	p := w.newBuf(k)
	calls := w.calls()
	if w.c != nil {
		w.c.errs = nil
	}
	var n int
	var err error
	L := w.streamLabels(m)
	what := fmt.Sprintf("body %d: Read of %d bytes at %d", m.id, k, m.pos)
	if !m.open {
		L = []string{"C09"}
	}
	w.guard(L, what, func() { n, err = m.b.Read(p[:k:k]) })
	w.l.add("%s = %d, %v [%s]", what, n, err, short(p[:k]))
	if !m.open {
		if n != 0 || !errors.Is(err, fs.ErrClosed) || !w.untouched(p, 0) || w.calls() != calls {
			w.fail(L, "%s on a closed body returns %d, %v", what, n, err)
		}
		return
	}
	if m.err != nil {
		if n != 0 || err != m.err && !(m.maybe && err == nil) {
			w.fail(L, "%s returns %d, %v instead of staying at the error %v", what, n, err, m.err)
		}
		return
	}
	if m.maybe && k == 0 && n == 0 && (err == nil || err == io.EOF) {
		return
	}
	if n < 0 || n > k {
		w.fail(L, "%s returns %d", what, n)
	}
	if (w.family == "bytes" || w.family == "empty") && !w.untouched(p, n) {
		w.fail(L, "%s returns %d but touches the buffer beyond that", what, n)
	}
	E := w.contentEnd()
	if m.pos+int64(n) > E && n > 0 {
		w.fail(L, "%s delivers %d bytes beyond the end %d of the content", what, n, E)
	}
	if !bytes.Equal(p[:n], w.content[minInt64(m.pos, E):minInt64(m.pos, E)+int64(n)]) {
		w.fail(L, "%s delivers %s, the content there is %s", what, short(p[:n]), short(w.content[m.pos:m.pos+int64(n)]))
	}
	at := m.pos + int64(n)
	strict := w.family == "bytes" || w.family == "empty"
	switch w.family {
	case "bytes", "empty", "plain":
		want := int64(k)
		if want > E-m.pos {
			want = E - m.pos
		}
		if int64(n) != want {
			w.fail(L, "%s delivers %d bytes instead of %d, with error %v", what, n, want, err)
		}
		if n < k && err == nil {
			w.fail(L, "%s delivers only %d bytes without an error", what, n)
		}
	}
	if strict && err != nil && err != io.EOF {
		w.fail(L, "%s returns the error %v", what, err)
	}
	if strict && err == io.EOF && !(at == E && n < k) {
		w.fail(L, "%s returns EOF with %d bytes left", what, E-at)
	}
	if w.family == "plain" {
		if err != nil {
			if at != E {
				w.fail(L, "%s returns %v with %d bytes left", what, err, E-at)
			}
			ok := err == w.c.terminal && int64(len(w.content)) == E || err == io.EOF && w.decl == E
			if !ok {
				w.fail(L, "%s returns the error %v, the stream ends with %v", what, err, w.c.terminal)
			}
			if w.term != nil && w.term != err {
				w.fail(L, "%s returns the error %v, another copy saw %v", what, err, w.term)
			}
			w.term = err
		}
		if w.decl >= 0 && w.c.taken > w.decl {
			w.fail(L, "%d bytes were taken from the reader, the declared length is %d", w.c.taken, w.decl)
		}
	}
	if w.family == "at" || w.family == "seek" {
		if err == io.EOF && at < E {
			w.fail(L, "%s returns EOF at %d, the content ends at %d", what, at, E)
		}
		if err != nil && err != io.EOF && !w.returned(err) {
			w.fail(L, "%s returns %v, not an error of the reader (%v)", what, err, w.c.errs)
		}
		if n < k && err == nil && len(w.c.errs) > 0 {
			w.fail(L, "%s hides the error %v of the reader", what, w.c.errs)
		}
		if err == io.EOF && len(w.c.errs) > 0 {
			w.fail(L, "%s returns EOF instead of the error %v of the reader", what, w.c.errs)
		}
		m.err = err
		if err == io.EOF && at < w.end {
			w.end = at
		}
	}
	if strict && err != nil {
		m.err = err
	}
	m.maybe = false
	m.pos = at
	if n > 0 && err == nil {
		m.since = map[string]bool{}
	}
	m.since[w.stream] = true
}

func (w *world) returned(err error) bool {
	for _, e := range w.c.errs {
		if e == err {
			return true
		}
	}
	return false
}

func (w *world) calls() int {
	if w.c == nil {
		return 0
	}
	return w.c.calls
}

func (w *world) doReadAt(m *mbody, k int, off int64) {
	ra, ok := m.b.(io.ReaderAt)
	if !ok {
		return
	}
	p := w.newBuf(k)
	calls := w.calls()
	if w.c != nil {
		w.c.errs = nil
	}
	var n int
	var err error
	L := []string{"C06"}
	if !m.open {
		L = []string{"C09"}
	}
	what := fmt.Sprintf("body %d: ReadAt of %d bytes at offset %d", m.id, k, off)
	w.guard(L, what, func() { n, err = ra.ReadAt(p[:k:k], off) })
	w.l.add("%s = %d, %v [%s]", what, n, err, short(p[:k]))
	if !m.open {
		if n != 0 || !errors.Is(err, fs.ErrClosed) || !w.untouched(p, 0) || w.calls() != calls {
			w.fail(L, "%s on a closed body returns %d, %v", what, n, err)
		}
		return
	}
	m.since["C06"] = true
	if off < 0 {
		if n != 0 || !w.untouched(p, 0) {
			w.fail(L, "%s delivers %d bytes", what, n)
		}
		return
	}
	E := w.contentEnd()
	if w.end >= 0 && w.end < E {
		E = w.end
	}
	if n < 0 || n > k || n > 0 && off+int64(n) > E {
		w.fail(L, "%s delivers %d bytes, the content ends at %d", what, n, E)
	}
	if n > 0 && !bytes.Equal(p[:n], w.content[off:off+int64(n)]) {
		w.fail(L, "%s delivers %s, the content there is %s", what, short(p[:n]), short(w.content[off:off+int64(n)]))
	}
	if n < k && err == nil {
		w.fail(L, "%s delivers only %d bytes without an error", what, n)
	}
	if err == io.EOF && new(big.Int).Add(big.NewInt(off), big.NewInt(int64(k))).Cmp(big.NewInt(E)) < 0 {
		w.fail(L, "%s returns EOF, the content ends at %d", what, E)
	}
	var errs []error
	if w.c != nil {
		errs = w.c.errs
	}
	if err != nil && err != io.EOF && !w.returnedErr(err) {
		w.fail(L, "%s returns %v, not an error of the reader (%v)", what, err, errs)
	}
	if err == io.EOF && len(errs) > 0 {
		w.fail(L, "%s returns EOF instead of the error %v of the reader", what, errs)
	}
}

func (w *world) returnedErr(err error) bool { return w.c != nil && w.returned(err) }

func (w *world) doSeek(m *mbody, off int64, whence int) {
	s, ok := m.b.(io.Seeker)
	if !ok {
		return
	}
	calls := w.calls()
	var n int64
	var err error
	L := []string{"C05"}
	if !m.open {
		L = []string{"C09"}
	} else {
		for k := range m.since {
			L = append(L, k)
		}
	}
	what := fmt.Sprintf("body %d at %d: Seek(%d, %d)", m.id, m.pos, off, whence)
	w.guard(L, what, func() { n, err = s.Seek(off, whence) })
	w.l.add("%s = %d, %v", what, n, err)
	if !m.open {
		if n != -1 || !errors.Is(err, fs.ErrClosed) || w.calls() != calls {
			w.fail(L, "%s on a closed body returns %d, %v", what, n, err)
		}
		return
	}
	base := int64(0)
	switch whence {
	case io.SeekStart:
		if off < 0 {
			if n != -1 || err != (body.NegativeStartOffsetSeekError{Offset: off}) {
				w.fail(L, "%s returns %d, %v", what, n, err)
			}
			return
		}
	case io.SeekCurrent:
		base = m.pos
	case io.SeekEnd:
		base = w.end
	default:
		if n != -1 || err != (body.UnknownWhenceSeekError{Whence: whence}) {
			w.fail(L, "%s returns %d, %v", what, n, err)
		}
		return
	}
	target := new(big.Int).Add(big.NewInt(base), big.NewInt(off))
	if target.Sign() < 0 {
		if n != -1 || err != (body.NegativeComputedOffsetSeekError{Offset: target.Int64()}) {
			w.fail(L, "%s returns %d, %v; the computed position is %v", what, n, err, target)
		}
		return
	}
	to := w.end
	if target.Cmp(big.NewInt(to)) < 0 {
		to = target.Int64()
	}
	if err != nil || n != to {
		w.fail(L, "%s returns %d, %v instead of %d", what, n, err, to)
	}
	m.pos, m.err, m.maybe = to, nil, false
	m.since["C05"] = true
	if m.pos > int64(len(w.content)) { // beyond the reader's real end: where the end is learned is open
		panic(verifDiscard{})
	}
}

func (w *world) doRemaining(m *mbody) {
	var n int64
	L := []string{"C07"}
	calls := w.calls()
	if !m.open {
		L = append(L, "C09")
	}
	for _, k := range []string{"C08", "C10"} {
		if m.since[k] {
			L = append(L, k)
		}
	}
	what := fmt.Sprintf("body %d at %d: BytesRemaining", m.id, m.pos)
	w.guard(L, what, func() { n = m.b.BytesRemaining() })
	w.l.add("%s = %d", what, n)
	if want := w.remaining(m); n != want {
		w.fail(L, "%s returns %d instead of %d", what, n, want)
	}
	if w.calls() != calls {
		w.fail(L, "%s uses the reader", what)
	}
	if m.open {
		m.since["C07"] = true
	}
}

func (w *world) doCopy(m *mbody) {
	var b body.Body
	var err error
	L := []string{"C08"}
	if !m.open {
		L = append(L, "C09")
	}
	calls := w.calls()
	what := fmt.Sprintf("body %d: Copy", m.id)
	w.guard(L, what, func() { b, err = m.b.Copy() })
	w.l.add("%s = body %d, %v", what, len(w.bodies), err)
	if err != nil || b == nil {
		w.fail(L, "%s returns %v, %v", what, b, err)
	}
	if w.calls() != calls {
		w.fail(L, "%s uses the reader", what)
	}
	if m.open {
		if reflect.TypeOf(b) != reflect.TypeOf(m.b) {
			w.fail(L, "%s is a %T, not a %T", what, b, m.b)
		}
		if b == m.b {
			w.fail(L, "%s returns the body itself", what)
		}
		m.since["C08"] = true
	}
	x := &mbody{id: len(w.bodies), b: b, pos: m.pos, err: m.err, maybe: m.maybe, open: m.open, since: map[string]bool{"C08": true}}
	w.bodies = append(w.bodies, x)
}

func (w *world) doClose(m *mbody) {
	var err error
	L := []string{"C10"}
	if !m.open {
		L = []string{"C09"}
	}
	last := m.open && w.nopen() == 1
	calls := w.calls()
	what := fmt.Sprintf("body %d: Close", m.id)
	w.guard(append(L, "C11"), what, func() { err = m.b.Close() })
	w.l.add("%s = %v", what, err)
	if !m.open {
		if !errors.Is(err, fs.ErrClosed) || w.calls() != calls {
			w.fail(L, "%s on a closed body returns %v", what, err)
		}
		return
	}
	m.open = false
	var want error
	if last && w.c != nil {
		want = w.c.closeErr
		if _, ok := w.r.(io.Closer); !ok {
			want = nil
		}
	}
	if err != want {
		w.fail(L, "%s returns %v instead of %v", what, err, want)
	}
	for _, o := range w.bodies {
		if o != m && o.open {
			o.since["C08"] = true
		}
	}
}

func (w *world) checkReader() {
	if w.c == nil {
		return
	}
	if _, ok := w.r.(io.Closer); ok {
		want := 0
		if w.nopen() == 0 {
			want = 1
		}
		if w.c.closed != want {
			w.fail([]string{"C10"}, "the reader has been closed %d times with %d bodies open", w.c.closed, w.nopen())
		}
	}
	if w.c.after > 0 {
		w.fail([]string{"C10"}, "the reader was used after it was closed")
	}
}

func (w *world) doUnwrap(m *mbody) {
	var r io.Reader
	L := []string{"C09"}
	if m.open {
		L = append(L, "C10")
	}
	calls := w.calls()
	what := fmt.Sprintf("body %d: Unwrap", m.id)
	w.guard(L, what, func() { r = m.b.Unwrap() })
	w.l.add("%s = %T", what, r)
	var want io.Reader
	if m.open {
		want = w.r
	}
	if r != want || w.calls() != calls {
		w.fail(L, "%s returns %v instead of %v", what, r, want)
	}
}

type sink struct {
	accept int
	err    error
	got    []byte
	calls  int
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	n := len(p)
	var err error
	if n > s.accept {
		n = s.accept
		err = s.err
	}
	s.got = append(s.got, p[:n]...)
	s.accept -= n
	return n, err
}

func (w *world) doWriteTo(m *mbody, accept int, serr error) {
	wt, ok := m.b.(io.WriterTo)
	if !ok {
		return
	}
	s := &sink{accept: accept, err: serr}
	L := []string{"C01"}
	if !m.open {
		L = []string{"C09"}
	} else {
		L = w.streamLabels(m)
	}
	var n int64
	var err error
	what := fmt.Sprintf("body %d at %d: WriteTo a destination accepting %d bytes, then %v", m.id, m.pos, accept, serr)
	w.guard(L, what, func() { n, err = wt.WriteTo(s) })
	w.l.add("%s = %d, %v", what, n, err)
	if !m.open {
		if n != 0 || !errors.Is(err, fs.ErrClosed) || s.calls != 0 {
			w.fail(L, "%s on a closed body returns %d, %v", what, n, err)
		}
		return
	}
	E := w.contentEnd()
	avail := E - m.pos
	want := avail
	if want > int64(accept) {
		want = int64(accept)
	}
	if n != want || int64(len(s.got)) != want || !bytes.Equal(s.got, w.content[m.pos:m.pos+want]) {
		w.fail(L, "%s returns %d and delivers %s, expected %s", what, n, short(s.got), short(w.content[m.pos:m.pos+want]))
	}
	if want < avail && err == nil {
		w.fail(L, "%s is incomplete and returns no error", what)
	}
	if want == avail && err != nil {
		w.fail(L, "%s is complete and returns %v", what, err)
	}
	m.pos += want
	if want == avail {
		m.maybe = true
		if m.err == nil {
			m.err = io.EOF
		}
	} else {
		m.err, m.maybe = nil, false
	}
}

func (w *world) checkWindow() {
	if w.window == nil || w.nopen() == 0 {
		return
	}
	n, ok := w.window()
	if !ok {
		return
	}
	lo := int64(math.MaxInt64)
	for _, m := range w.bodies {
		if m.open && m.pos < lo {
			lo = m.pos
		}
	}
	if int64(n) != w.c.taken-lo {
		w.fail([]string{"C11"}, "%d bytes are retained, the slowest copy is at %d and %d bytes have been taken", n, lo, w.c.taken)
	}
}

// windowOf finds the retained bytes of a plain-stream body, if the structure
// is the one it knows.
func windowOf(b body.Body) func() (int, bool) {
	v := reflect.ValueOf(b)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return nil
	}
	c := v.Elem().FieldByName("common")
	if !c.IsValid() || c.Kind() != reflect.Ptr || c.IsNil() {
		return nil
	}
	s := c.Elem()
	known := map[string]bool{"mu": true, "r": true, "err": true, "bodies": true, "bytes": true, "length": true, "start": true, "refcnt": true}
	if s.Kind() != reflect.Struct || s.NumField() != len(known) {
		return nil
	}
	for i := 0; i < s.NumField(); i++ {
		if !known[s.Type().Field(i).Name] {
			return nil
		}
	}
	f := s.FieldByName("bytes")
	if f.Kind() != reflect.Slice {
		return nil
	}
	return func() (int, bool) { return f.Len(), true }
}

func randContent(r *rand.Rand, n int) []byte {
	p := make([]byte, n)
	r.Read(p)
	return p
}

func randLen(r *rand.Rand, family string) int {
	if family == "plain" {
		switch r.Intn(8) {
		case 0:
			return 65530 + r.Intn(12)
		case 1:
			return 131068 + r.Intn(8)
		case 2:
			return 70000 + r.Intn(150000)
		}
	}
	if r.Intn(6) == 0 {
		return 100 + r.Intn(400)
	}
	return r.Intn(20)
}

func newWorld(prop, family string, r *rand.Rand, l *verifLog) *world {
	w := &world{prop: prop, family: family, l: l}
	n := randLen(r, family)
	w.content = randContent(r, n)
	w.orig = append([]byte(nil), w.content...)
	w.decl = int64(n)
	var b body.Body
	switch family {
	case "bytes":
		w.stream = "C01"
		if r.Intn(2) == 0 {
			b = body.FromString(string(w.content))
		} else {
			b = body.FromBytes(w.content)
		}
		l.add("content %s", short(w.content))
	case "empty":
		w.stream = "C01"
		w.content, w.orig, w.decl = nil, nil, 0
		b = body.Empty()
		l.add("the empty body")
	default:
		w.stream = map[string]string{"at": "C02", "seek": "C03", "plain": "C04"}[family]
		c := &core{r: r, content: w.content, terminal: io.EOF, withErr: r.Intn(2) == 0}
		if r.Intn(3) > 0 {
			c.faults = 10 + r.Intn(50)
		}
		if r.Intn(2) == 0 {
			c.closeErr = errors.New("error of the reader's Close")
		}
		c.seekable = family != "plain"
		switch r.Intn(4) {
		case 0:
			w.decl = int64(r.Intn(n + 1))
		case 1:
			w.decl = int64(n + r.Intn(40))
		case 2:
			if r.Intn(4) == 0 {
				w.decl = 1 << 40
			}
		}
		if family == "plain" && r.Intn(2) == 0 {
			w.decl = -1
		}
		if family == "plain" && r.Intn(2) == 0 {
			c.terminal = errors.New("terminal error of the reader")
		}
		w.c = c
		closer := r.Intn(4) > 0
		file := closer && r.Intn(3) == 0
		c.statSize = w.decl
		w.r = c.wrap(family != "plain" && (family == "seek" || r.Intn(2) == 0), family == "at", closer, file && w.decl >= 0)
		var err error
		b, err = body.FromReaderAndLength(w.r, w.decl)
		if err != nil {
			panic(verifDiscard{})
		}
		l.add("reader %T with %d bytes (%s), declared length %d, fault rate %d%%, ends with %v (together with the last bytes: %v)", w.r, n, short(w.content), w.decl, c.faults, c.terminal, c.withErr)
		if family == "plain" {
			w.window = windowOf(b)
		}
	}
	w.end = w.decl
	w.bodies = []*mbody{{b: b, open: true, since: map[string]bool{}}}
	return w
}

func (w *world) randOff(r *rand.Rand) int64 {
	n := int64(len(w.content))
	switch r.Intn(12) {
	case 0:
		return math.MaxInt64 - int64(r.Intn(3))
	case 1:
		return math.MinInt64 + int64(r.Intn(3))
	case 2:
		return -int64(r.Intn(int(n) + 3))
	case 3:
		return n + int64(r.Intn(3)) - 1
	}
	return int64(r.Intn(int(n) + 2))
}

func (w *world) randBuf(r *rand.Rand) int {
	n := len(w.content)
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return n + r.Intn(4)
	case 2:
		return 1
	case 3:
		if w.family == "plain" {
			return 65536 + r.Intn(3) - 1
		}
	}
	return r.Intn(n + 2)
}

func (w *world) step(r *rand.Rand) {
	m := w.bodies[r.Intn(len(w.bodies))]
	op := r.Intn(100)
	if !m.open && w.prop != "C09" && r.Intn(4) > 0 {
		return
	}
	switch {
	case op < 40:
		k := w.randBuf(r)
		if w.family == "seek" && m.open && m.err == nil && r.Intn(3) == 0 {
			k = 3
		}
		w.doRead(m, k)
	case op < 52:
		w.doReadAt(m, w.randBuf(r), w.randOff(r))
	case op < 64:
		whence := r.Intn(3)
		if r.Intn(12) == 0 {
			whence = []int{-1, 3, 99}[r.Intn(3)]
		}
		w.doSeek(m, w.randOff(r), whence)
	case op < 74:
		w.doRemaining(m)
	case op < 84:
		if len(w.bodies) < 6 {
			w.doCopy(m)
		}
	case op < 90:
		w.doClose(m)
	case op < 94:
		w.doUnwrap(m)
	default:
		accept := 1 << 30
		if r.Intn(2) == 0 {
			accept = r.Intn(len(w.content) + 2)
		}
		var err error
		if r.Intn(2) == 0 {
			err = errors.New("destination full")
		}
		w.doWriteTo(m, accept, err)
	}
	if m.since["C06"] && m.open && r.Intn(2) == 0 {
		w.doRead(m, w.randBuf(r))
	}
	if m.since[w.stream] && m.open && r.Intn(6) == 0 {
		w.doSeek(m, 0, io.SeekCurrent)
	}
	w.checkReader()
	w.checkWindow()
}

// drain reads every open body to its end.
func (w *world) drain(r *rand.Rand) {
	if w.c != nil && w.c.seekable {
		w.c.faults = 0
	}
	for _, m := range w.bodies {
		if !m.open || m.err != nil {
			continue
		}
		for i := 0; i < 4 && m.open && m.err == nil; i++ {
			w.doRead(m, len(w.content)+1)
		}
		w.checkReader()
		w.checkWindow()
		w.doRemaining(m)
	}
}

func searchBodies(t *testing.T, prop string, families ...string) {
	verifRun(t, prop, false, func(r *rand.Rand, size int, l *verifLog) {
		w := newWorld(prop, families[r.Intn(len(families))], r, l)
		w.checkWindow()
		for i := 0; i < size; i++ {
			w.step(r)
		}
		w.drain(r)
		for _, m := range w.bodies {
			if m.open {
				w.doClose(m)
				w.checkReader()
				w.checkWindow()
			}
		}
		if w.c == nil && !bytes.Equal(w.content, w.orig) {
			w.fail([]string{"C01"}, "the source bytes were modified")
		}
		if w.prop == "C09" {
			for _, m := range w.bodies {
				w.doRead(m, 4)
				w.doReadAt(m, 4, 0)
				w.doSeek(m, 0, 0)
				w.doWriteTo(m, 10, nil)
				w.doRemaining(m)
				w.doUnwrap(m)
				w.doClose(m)
				w.doCopy(m)
				if len(w.bodies) > 12 {
					break
				}
			}
		}
	})
}

func TestVerifC01(t *testing.T) { searchBodies(t, "C01", "bytes", "bytes", "empty") }
func TestVerifC02(t *testing.T) { searchBodies(t, "C02", "at") }
func TestVerifC03(t *testing.T) { searchBodies(t, "C03", "seek") }
func TestVerifC04(t *testing.T) { searchBodies(t, "C04", "plain") }
func TestVerifC05(t *testing.T) { searchBodies(t, "C05", "bytes", "empty", "at", "seek") }
func TestVerifC06(t *testing.T) { searchBodies(t, "C06", "bytes", "empty", "at", "seek") }
func TestVerifC07(t *testing.T) {
	searchBodies(t, "C07", "bytes", "empty", "at", "seek", "plain", "plain")
}
func TestVerifC08(t *testing.T) {
	searchBodies(t, "C08", "bytes", "empty", "at", "seek", "plain", "plain")
}
func TestVerifC10(t *testing.T) { searchBodies(t, "C10", "at", "seek", "plain", "plain") }
func TestVerifC11(t *testing.T) { searchBodies(t, "C11", "plain") }

func TestVerifC09(t *testing.T) {
	b := body.AlreadyClosed()
	w := &world{prop: "C09", l: &verifLog{}}
	if _, bad := verifPanics(func() {
		m := &mbody{b: b, since: map[string]bool{}}
		w.l.add("body.AlreadyClosed()")
		w.bodies = []*mbody{m}
		for i := 0; i < 2; i++ {
			w.doRead(m, 4)
			w.doReadAt(m, 4, 0)
			w.doReadAt(m, 0, -1)
			w.doSeek(m, 0, 0)
			w.doSeek(m, -1, 7)
			w.doWriteTo(m, 10, nil)
			w.doRemaining(m)
			w.doUnwrap(m)
			w.doClose(m)
			w.doCopy(m)
			m = w.bodies[len(w.bodies)-1]
		}
	}); bad {
		verifReport(t, "C09", "the already-closed body is not inert", 0, w.l)
	}
	searchBodies(t, "C09", "bytes", "empty", "at", "seek", "plain")
}
