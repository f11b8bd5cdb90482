package mockreader_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"testing"

	"github.com/chronos-tachyon/morehttp/internal/mockreader"
)

type expect struct {
	kind   string
	p      []byte
	off    int64
	whence int
	str    string
	n      int64
	fi     fs.FileInfo
	err    error
}

func randExpect(r *rand.Rand) expect {
	e := expect{kind: []string{"Mark", "Stat", "Read", "ReadAt", "Seek", "Close"}[r.Intn(6)]}
	if r.Intn(2) == 0 {
		e.err = fmt.Errorf("error %d", r.Intn(100))
	}
	switch e.kind {
	case "Mark":
		e.str = []string{"a", "b", ""}[r.Intn(3)]
		e.err = nil
	case "Stat":
		e.fi = &mockreader.FileInfo{NameValue: "f", SizeValue: int64(r.Intn(9))}
	case "Read", "ReadAt":
		e.p = make([]byte, r.Intn(5))
		r.Read(e.p)
		e.n = int64(r.Intn(len(e.p) + 1))
		if e.kind == "ReadAt" {
			e.off = int64(r.Intn(4)) - 1
		}
	case "Seek":
		e.off, e.whence, e.n = int64(r.Intn(5))-2, r.Intn(4), int64(r.Intn(100))-1
	}
	return e
}

func (e expect) make() mockreader.Expectation {
	switch e.kind {
	case "Mark":
		return mockreader.ExpectMark(e.str)
	case "Stat":
		return mockreader.ExpectStat(e.fi, e.err)
	case "Read":
		return mockreader.ExpectRead(e.p, int(e.n), e.err)
	case "ReadAt":
		return mockreader.ExpectReadAt(e.p, e.off, int(e.n), e.err)
	case "Seek":
		return mockreader.ExpectSeek(e.off, e.whence, e.n, e.err)
	}
	return mockreader.ExpectClose(e.err)
}

func (e expect) matches(c expect) bool {
	return e.kind == c.kind && len(e.p) == len(c.p) && e.off == c.off && e.whence == c.whence && e.str == c.str
}

type iface struct {
	name string
	mk   func(*mockreader.MockReader) interface{}
	at   bool
	seek bool
	stat bool
}

var wrappers = []iface{
	{"MockReader", func(m *mockreader.MockReader) interface{} { return m }, true, true, true},
	{"Wrapper000", func(m *mockreader.MockReader) interface{} { return mockreader.Wrapper000{Inner: m} }, false, false, false},
	{"Wrapper001", func(m *mockreader.MockReader) interface{} { return mockreader.Wrapper001{Inner: m} }, true, false, false},
	{"Wrapper010", func(m *mockreader.MockReader) interface{} { return mockreader.Wrapper010{Inner: m} }, false, true, false},
	{"Wrapper011", func(m *mockreader.MockReader) interface{} { return mockreader.Wrapper011{Inner: m} }, true, true, false},
	{"Wrapper100", func(m *mockreader.MockReader) interface{} { return mockreader.Wrapper100{Inner: m} }, false, false, true},
	{"Wrapper101", func(m *mockreader.MockReader) interface{} { return mockreader.Wrapper101{Inner: m} }, true, false, true},
	{"Wrapper110", func(m *mockreader.MockReader) interface{} { return mockreader.Wrapper110{Inner: m} }, false, true, true},
	{"Wrapper111", func(m *mockreader.MockReader) interface{} { return mockreader.Wrapper111{Inner: m} }, true, true, true},
}

func TestVerifC25(t *testing.T) {
	verifRun(t, "C25", false, func(r *rand.Rand, size int, l *verifLog) {
		var script []expect
		var list []mockreader.Expectation
		for i := r.Intn(size + 1); i > 0; i-- {
			e := randExpect(r)
			script = append(script, e)
			list = append(list, e.make())
		}
		m := mockreader.New(list...)
		k := wrappers[r.Intn(len(wrappers))]
		x := k.mk(m)
		l.add("script %v, used through %s", list, k.name)
		_, at := x.(io.ReaderAt)
		_, seek := x.(io.Seeker)
		_, stat := x.(interface{ Stat() (fs.FileInfo, error) })
		_, rd := x.(io.Reader)
		_, cl := x.(io.Closer)
		_, wt := x.(io.WriterTo)
		_, wr := x.(io.Writer)
		if at != k.at || seek != k.seek || stat != k.stat || !rd || !cl || wt || wr {
			verifFailf("%s offers ReadAt %v, Seek %v, Stat %v, Read %v, Close %v, WriteTo %v, Write %v", k.name, at, seek, stat, rd, cl, wt, wr)
		}
		index := 0
		for i := 0; i < size+2; i++ {
			c := randExpect(r)
			if index < len(script) && r.Intn(5) > 0 {
				c = script[index]
				if r.Intn(6) == 0 {
					switch r.Intn(4) {
					case 0:
						c.off++
					case 1:
						c.p = make([]byte, len(c.p)+1)
					case 2:
						c.whence++
					case 3:
						c.str += "x"
					}
				}
				switch c.kind {
				case "Mark":
					c.p, c.off, c.whence = nil, 0, 0
				case "Stat", "Close":
					c.p, c.off, c.whence, c.str = nil, 0, 0, ""
				case "Read":
					c.off, c.whence, c.str = 0, 0, ""
				case "ReadAt":
					c.whence, c.str = 0, ""
				case "Seek":
					c.p, c.str = nil, ""
				}
			}
			buf := bytes.Repeat([]byte{0xA5}, len(c.p))
			var n int64
			var fi fs.FileInfo
			var err error
			run := func() {
				switch c.kind {
				case "Mark":
					m.Mark(c.str)
				case "Stat":
					fi, err = x.(fs.File).Stat()
				case "Read":
					var i int
					i, err = x.(io.Reader).Read(buf)
					n = int64(i)
				case "ReadAt":
					var i int
					i, err = x.(io.ReaderAt).ReadAt(buf, c.off)
					n = int64(i)
				case "Seek":
					n, err = x.(io.Seeker).Seek(c.off, c.whence)
				case "Close":
					err = x.(io.Closer).Close()
				}
			}
			if c.kind == "Stat" && !k.stat || c.kind == "ReadAt" && !k.at || c.kind == "Seek" && !k.seek {
				continue
			}
			v, bad := verifPanics(run)
			l.add("%s len %d, off %d, whence %d, %q = %d, %v [%x]; panics with %v", c.kind, len(c.p), c.off, c.whence, c.str, n, err, buf, v)
			if index >= len(script) || !script[index].matches(c) {
				f, ok := v.(mockreader.ExpectationFailedError)
				if !bad || !ok {
					verifFailf("the call %d, %s, does not match the script and panics with %v", i, c.kind, v)
				}
				want := mockreader.Expectation{}
				if index < len(script) {
					want = list[index]
				}
				if f.Index != uint(index) || f.Expect.GoString() != want.GoString() {
					verifFailf("the error names position %d (%v), it is %d (%v)", f.Index, f.Expect, index, want)
				}
				if !f.Actual.Matches(c.actual(buf)) {
					verifFailf("the error names the call %v", f.Actual)
				}
				if index < len(script) {
					index++
				}
				// whether a rejected call consumes its expectation is open
				return
			}
			e := script[index]
			index++
			if bad {
				verifFailf("the expected call %s panics with %v", c.kind, v)
			}
			if c.kind == "Mark" {
				continue
			}
			if err != e.err || fi != e.fi || n != e.n {
				verifFailf("%s returns %d, %v, %v; the script says %d, %v, %v", c.kind, n, fi, err, e.n, e.fi, e.err)
			}
			for j := range buf {
				if int64(j) < e.n && buf[j] != e.p[j] || int64(j) >= e.n && buf[j] != 0xA5 {
					verifFailf("%s delivers %x, the script says %x, %d bytes", c.kind, buf, e.p, e.n)
				}
			}
		}
	})
}

// actual is an expectation that matches exactly the given call.
func (c expect) actual(p []byte) mockreader.Expectation {
	c.p, c.n = p, 0
	return c.make()
}

var _ = errors.New
