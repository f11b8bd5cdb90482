package response_test

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"sort"
	"strings"
	"testing"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
)

// under is an underlying response writer that records what it receives.
type under struct {
	h       http.Header
	events  []string // status C, flush, data, hijack, notify, push URL
	codes   []int
	data    []byte
	sent    http.Header // headers when the status was sent
	short   int         // bytes accepted before failing, -1 for no limit
	err     error
	lastN   int64
	lastErr error
	calls   int
	pushes  []string
	pushErr map[int]error
	popts   []*http.PushOptions
	ch      chan bool
	hijErr  error
}

func newUnder() *under {
	return &under{h: http.Header{}, short: -1, ch: make(chan bool), pushErr: map[int]error{}}
}

func cloneHeader(h http.Header) http.Header {
	out := http.Header{}
	for k, v := range h {
		out[k] = append([]string{}, v...)
	}
	return out
}

func sameHeader(a, b http.Header) bool { return fmtHeader(a) == fmtHeader(b) }

func fmtHeader(h http.Header) string {
	var ks []string
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q:%q ", k, append([]string{}, h[k]...))
	}
	return sb.String()
}

type uBase struct{ u *under }
type uFlush struct{ u *under }
type uHijack struct{ u *under }
type uNotify struct{ u *under }
type uFrom struct{ u *under }
type uPush struct{ u *under }

func (x uBase) Header() http.Header { return x.u.h }
func (x uBase) WriteHeader(code int) {
	x.u.events = append(x.u.events, fmt.Sprintf("status %d", code))
	x.u.codes = append(x.u.codes, code)
	if len(x.u.codes) == 1 {
		x.u.sent = cloneHeader(x.u.h)
	}
}
func (u *under) accept(p []byte) (int, error) {
	n := len(p)
	var err error
	if u.short >= 0 && n >= u.short {
		n = u.short
		err = u.err
		if n == len(p) {
			err = nil
		}
	}
	if u.short >= 0 {
		u.short -= n
	}
	u.data = append(u.data, p[:n]...)
	u.lastN, u.lastErr = int64(n), err
	return n, err
}
func (x uBase) Write(p []byte) (int, error) {
	x.u.events = append(x.u.events, "data")
	x.u.calls++
	return x.u.accept(p)
}
func (x uFlush) Flush() { x.u.events = append(x.u.events, "flush") }
func (x uHijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	x.u.events = append(x.u.events, "hijack")
	return nil, nil, x.u.hijErr
}
func (x uNotify) CloseNotify() <-chan bool {
	x.u.events = append(x.u.events, "notify")
	return x.u.ch
}
func (x uFrom) ReadFrom(r io.Reader) (int64, error) {
	x.u.events = append(x.u.events, "data")
	x.u.calls++
	p, err := io.ReadAll(r)
	n, werr := x.u.accept(p)
	if werr != nil {
		err = werr
	}
	x.u.lastN, x.u.lastErr = int64(n), err
	return int64(n), err
}
func (x uPush) Push(url string, o *http.PushOptions) error {
	x.u.events = append(x.u.events, "push "+url)
	x.u.pushes = append(x.u.pushes, url)
	x.u.popts = append(x.u.popts, o)
	return x.u.pushErr[len(x.u.pushes)]
}

type w0 struct{ uBase }
type wF struct {
	uBase
	uFlush
}
type wP struct {
	uBase
	uPush
}
type wFP struct {
	uBase
	uFlush
	uPush
}
type wFull struct {
	uBase
	uFlush
	uHijack
	uNotify
	uFrom
}
type wFullP struct {
	uBase
	uFlush
	uHijack
	uNotify
	uFrom
	uPush
}
type wFH struct {
	uBase
	uFlush
	uHijack
}
type wR struct {
	uBase
	uFrom
}
type wFHN struct {
	uBase
	uFlush
	uHijack
	uNotify
}
type wHNR struct {
	uBase
	uHijack
	uNotify
	uFrom
}
type wFHR struct {
	uBase
	uFlush
	uHijack
	uFrom
}
type wFNR struct {
	uBase
	uFlush
	uNotify
	uFrom
}

func (u *under) wrap(k int) http.ResponseWriter {
	b, f, h, n, r, p := uBase{u}, uFlush{u}, uHijack{u}, uNotify{u}, uFrom{u}, uPush{u}
	switch k {
	case 0:
		return w0{b}
	case 1:
		return wF{b, f}
	case 2:
		return wP{b, p}
	case 3:
		return wFP{b, f, p}
	case 4:
		return wFull{b, f, h, n, r}
	case 5:
		return wFullP{b, f, h, n, r, p}
	case 6:
		return wFH{b, f, h}
	case 7:
		return wR{b, r}
	case 8:
		return wFHN{b, f, h, n}
	case 9:
		return wHNR{b, h, n, r}
	case 10:
		return wFHR{b, f, h, r}
	}
	return wFNR{b, f, n, r}
}

type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

type failReader struct {
	p   []byte
	err error
}

func (f *failReader) Read(p []byte) (int, error) {
	if len(f.p) == 0 {
		return 0, f.err
	}
	n := copy(p, f.p)
	f.p = f.p[n:]
	return n, nil
}

func searchWriter(t *testing.T, prop string) {
	verifRun(t, prop, false, func(r *rand.Rand, size int, l *verifLog) {
		fail := func(label, format string, args ...interface{}) {
			for _, x := range strings.Fields(label) {
				if x == prop {
					verifFailf(format, args...)
				}
			}
			panic(verifDiscard{})
		}
		u := newUnder()
		inner := u.wrap(r.Intn(12))
		method := []string{"GET", "HEAD", "POST", "head"}[r.Intn(4)]
		req := &http.Request{Method: method}
		var w response.Writer
		if v, bad := verifPanics(func() { w = response.NewWriter(inner, req) }); bad {
			fail("C22", "NewWriter panics: %v", v)
		}
		l.add("w := NewWriter(%T, %s) is %T", inner, method, w)
		isHEAD := method == "HEAD"
		if response.NewWriter(w, &http.Request{Method: "HEAD"}) != w {
			fail("C22", "a wrapped writer is wrapped again")
		}
		if w.Status() != 0 || w.BytesWritten() != 0 || w.SawError() {
			fail("C22 C20 C21", "the wrapper starts with status %d, %d bytes, error %v", w.Status(), w.BytesWritten(), w.SawError())
		}
		if w.Unwrap() != inner {
			fail("C22", "the wrapper unwraps to %v", w.Unwrap())
		}
		_, iF := inner.(http.Flusher)
		_, iH := inner.(http.Hijacker)
		_, iN := inner.(http.CloseNotifier)
		_, iR := inner.(io.ReaderFrom)
		_, iP := inner.(http.Pusher)
		wf, oF := w.(http.Flusher)
		wh, oH := w.(http.Hijacker)
		wn, oN := w.(http.CloseNotifier)
		wr, oR := w.(io.ReaderFrom)
		full := iF && iH && iN && iR
		if oF != iF || (oF && oH && oN && oR) != full {
			fail("C22", "%T is wrapped by %T, which offers flush %v, hijack %v, notify %v, read-from %v", inner, w, oF, oH, oN, oR)
		}
		if oH && !iH || oN && !iN || oR && !iR {
			fail("C22", "%T is wrapped by %T, which offers more", inner, w)
		}
		if len(u.events) > 0 {
			fail("C20 C22", "wrapping a writer uses it")
		}
		status, count, saw := 0, int64(0), false
		for i := 0; i < size; i++ {
			ev := len(u.events)
			var got []string
			switch op := r.Intn(20); {
			case op < 6 || op < 9 && !oR: // Write
				p := make([]byte, r.Intn(9))
				r.Read(p)
				u.short = -1
				if r.Intn(3) == 0 {
					u.short, u.err = r.Intn(len(p)+1), errors.New("write fails")
					if r.Intn(4) == 0 {
						u.err = nil
					}
				}
				calls, have := u.calls, len(u.data)
				var n int
				var err error
				if v, bad := verifPanics(func() { n, err = w.Write(append([]byte(nil), p...)) }); bad {
					fail("C20 C21", "Write panics: %v", v)
				}
				got = u.events[ev:]
				l.add("w.Write(%x) = %d, %v; events %v", p, n, err, got)
				first := status == 0
				if first {
					status = 200
					if len(got) == 0 || got[0] != "status 200" {
						fail("C20", "the first Write does not send 200 first: %v", got)
					}
					got = got[1:]
				}
				hide := isHEAD || status == 204
				if hide {
					if n != len(p) || err != nil || u.calls != calls {
						fail("C21", "a suppressed Write returns %d, %v after %v", n, err, got)
					}
				} else {
					if u.calls != calls+1 || !bytes.Equal(u.data[have:], p[:u.lastN]) {
						fail("C21", "Write(%x) is passed on as %v %x", p, got, u.data[have:])
					}
					if int64(n) != u.lastN || err != u.lastErr {
						fail("C21", "Write returns %d, %v; the writer returned %d, %v", n, err, u.lastN, u.lastErr)
					}
					count += int64(n)
					saw = saw || err != nil
				}
			case op < 9: // ReadFrom
				p := make([]byte, r.Intn(50))
				r.Read(p)
				u.short = -1
				if r.Intn(3) == 0 {
					u.short, u.err = r.Intn(len(p)+1), errors.New("write fails")
				}
				src := &failReader{append([]byte(nil), p...), io.EOF}
				if r.Intn(3) == 0 {
					src.err = errors.New("source fails")
				}
				calls, have := u.calls, len(u.data)
				var n int64
				var err error
				if v, bad := verifPanics(func() { n, err = wr.ReadFrom(src) }); bad {
					fail("C20 C21 C22", "ReadFrom panics: %v", v)
				}
				got = u.events[ev:]
				l.add("w.ReadFrom(%d bytes, then %v) = %d, %v; events %v", len(p), src.err, n, err, got)
				if status == 0 {
					status = 200
					if len(got) == 0 || got[0] != "status 200" {
						fail("C20", "the first ReadFrom does not send 200 first: %v", got)
					}
					got = got[1:]
				}
				if isHEAD || status == 204 {
					serr := src.err
					if serr == io.EOF {
						serr = nil
					}
					if n != int64(len(p)) || err != serr || u.calls != calls || len(src.p) != 0 {
						fail("C21", "a suppressed ReadFrom returns %d, %v after %v", n, err, got)
					}
				} else {
					if u.calls == calls || !bytes.Equal(u.data[have:], p[:len(u.data)-have]) {
						fail("C21", "ReadFrom is passed on as %v %x", got, u.data[have:])
					}
					if u.calls == calls+1 && (n != u.lastN || err != u.lastErr) {
						fail("C21", "ReadFrom returns %d, %v; the writer returned %d, %v", n, err, u.lastN, u.lastErr)
					}
					count += int64(len(u.data) - have)
					saw = saw || err != nil
				}
			case op < 13: // WriteHeader and MaybeWriteHeader
				code := []int{100, 101, 199, 200, 204, 304, 404, 500, 999, 99, 1000, 0, -1, -200, 1 << 20}[r.Intn(15)]
				maybe := op >= 11
				name := "WriteHeader"
				v, bad := verifPanics(func() {
					if maybe {
						name = "MaybeWriteHeader"
						w.MaybeWriteHeader(code)
					} else {
						w.WriteHeader(code)
					}
				})
				got = u.events[ev:]
				l.add("w.%s(%d); panics with %v; events %v", name, code, v, got)
				good := code >= 100 && code <= 999
				switch {
				case !good:
					if !bad || len(got) > 0 {
						fail("C20", "%s(%d) does not panic or is forwarded: %v", name, code, got)
					}
				case status == 0:
					if bad || len(got) != 1 || got[0] != fmt.Sprintf("status %d", code) {
						fail("C20", "%s(%d) panics with %v, sends %v", name, code, v, got)
					}
					status = code
				case maybe:
					if bad || len(got) > 0 {
						fail("C20", "a late %s(%d) panics with %v, sends %v", name, code, v, got)
					}
				default:
					if !bad || len(got) > 0 {
						fail("C20", "a second %s(%d) does not panic or is forwarded: %v", name, code, got)
					}
					saw = true
				}
			case op < 15 && oF: // Flush
				v, bad := verifPanics(wf.Flush)
				got = u.events[ev:]
				l.add("w.Flush(); panics with %v; events %v", v, got)
				want := "[flush]"
				if status == 0 {
					want = "[status 200 flush]"
					status = 200
				}
				if bad || fmt.Sprint(got) != want {
					fail("C20 C22", "Flush panics with %v, sends %v instead of %v", v, got, want)
				}
			case op < 16 && oH:
				u.hijErr = errors.New("hijacked")
				var err error
				v, bad := verifPanics(func() { _, _, err = wh.Hijack() })
				l.add("w.Hijack() = %v; events %v", err, u.events[ev:])
				if bad || err != u.hijErr || fmt.Sprint(u.events[ev:]) != "[hijack]" {
					fail("C22", "Hijack panics with %v, returns %v, sends %v", v, err, u.events[ev:])
				}
			case op < 17 && oN:
				var ch <-chan bool
				v, bad := verifPanics(func() { ch = wn.CloseNotify() })
				l.add("w.CloseNotify(); events %v", u.events[ev:])
				if bad || ch != (<-chan bool)(u.ch) || fmt.Sprint(u.events[ev:]) != "[notify]" {
					fail("C22", "CloseNotify panics with %v, sends %v", v, u.events[ev:])
				}
			case op < 18:
				url := fmt.Sprintf("/p%d", i)
				o := &http.PushOptions{}
				if r.Intn(3) == 0 {
					o = nil
				}
				want := http.ErrNotSupported
				var perr error = want
				if iP {
					perr = nil
					if r.Intn(2) == 0 {
						perr = errors.New("push fails")
					}
					u.pushErr[len(u.pushes)+1] = perr
				}
				var err error
				v, bad := verifPanics(func() { err = w.Push(url, o) })
				l.add("w.Push(%s) = %v; events %v", url, err, u.events[ev:])
				if bad || err != perr {
					fail("C22", "Push panics with %v, returns %v instead of %v", v, err, perr)
				}
				if iP && (fmt.Sprint(u.events[ev:]) != "[push "+url+"]" || u.popts[len(u.popts)-1] != o) || !iP && len(u.events) != ev {
					fail("C22", "Push is passed on as %v", u.events[ev:])
				}
			default:
				w.Header().Set(fmt.Sprintf("X-%d", i), "v")
				l.add("w.Header().Set(X-%d)", i)
				if u.h.Get(fmt.Sprintf("X-%d", i)) != "v" {
					fail("C22", "a header set on the wrapper is not on the writer")
				}
			}
			if w.Status() != status {
				fail("C20", "Status is %d instead of %d", w.Status(), status)
			}
			if w.BytesWritten() != count {
				fail("C21", "BytesWritten is %d, the writer accepted %d", w.BytesWritten(), count)
			}
			if w.SawError() != saw {
				fail("C21", "SawError is %v", w.SawError())
			}
			if len(u.codes) > 1 || len(u.codes) == 1 && u.codes[0] != status || len(u.codes) == 0 && status != 0 {
				fail("C20", "the writer received the statuses %v, Status is %d", u.codes, status)
			}
		}
	})
}

func TestVerifC20(t *testing.T) { searchWriter(t, "C20") }
func TestVerifC21(t *testing.T) { searchWriter(t, "C21") }
func TestVerifC22(t *testing.T) { searchWriter(t, "C22") }

// sbody is a body that records how it is used.
type sbody struct {
	data   []byte
	fail   error
	cerr   error
	closed int
	copy   error
	length int64
	u      *under
}

func (b *sbody) BytesRemaining() int64 { return b.length }
func (b *sbody) Unwrap() io.Reader     { return nil }
func (b *sbody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		return 0, errors.New("read after close")
	}
	if b.u != nil {
		b.u.events = append(b.u.events, "body read")
	}
	if len(b.data) == 0 {
		if b.fail != nil {
			return 0, b.fail
		}
		return 0, io.EOF
	}
	if len(p) > 3 {
		p = p[:3]
	}
	n := copy(p, b.data)
	b.data = b.data[n:]
	return n, nil
}
func (b *sbody) Close() error {
	b.closed++
	if b.u != nil {
		b.u.events = append(b.u.events, "body close")
	}
	return b.cerr
}
func (b *sbody) Copy() (body.Body, error) {
	if b.copy != nil {
		return nil, b.copy
	}
	c := *b
	c.data = append([]byte(nil), b.data...)
	return &c, nil
}

func TestVerifC19(t *testing.T) {
	verifRun(t, "C19", false, func(r *rand.Rand, size int, l *verifLog) {
		u := newUnder()
		k := r.Intn(6)
		w := u.wrap(k)
		wrapped := r.Intn(2) == 0
		b := &sbody{data: make([]byte, r.Intn(20)), length: -1, u: u}
		r.Read(b.data)
		whole := append([]byte(nil), b.data...)
		if r.Intn(3) == 0 {
			b.fail = errors.New("body read fails")
		}
		if r.Intn(3) == 0 {
			b.cerr = errors.New("body close fails")
		}
		if r.Intn(4) == 0 {
			u.short, u.err = r.Intn(len(whole)+1), errors.New("write fails")
		}
		code := []int{200, 204, 404, 500, 999}[r.Intn(5)]
		bld := response.NewBuilder().WithBody(b).WithStatus(code)
		for i := r.Intn(4); i > 0; i-- {
			bld.WithHeader(fmt.Sprintf("X-%d", r.Intn(4)), fmt.Sprint(r.Intn(9)), r.Intn(2) == 0)
		}
		var urls []string
		for i := r.Intn(4); i > 0; i-- {
			url := fmt.Sprintf("/push%d", r.Intn(9))
			urls = append(urls, url)
			bld.WithHeader("Push", url, true)
		}
		resp := bld.Build()
		u.h.Set("Present", "1")
		if r.Intn(2) == 0 {
			u.h.Set("X-1", "old")
		}
		before := cloneHeader(u.h)
		_, pusher := w.(http.Pusher)
		if r.Intn(2) == 0 {
			for i := range urls {
				switch r.Intn(4) {
				case 0:
					u.pushErr[i+1] = http.ErrNotSupported
				case 1:
					u.pushErr[i+1] = fmt.Errorf("wrapped: %w", http.ErrNotSupported)
				case 2:
					u.pushErr[i+1] = errors.New("push fails")
				}
			}
		}
		l.add("writer %T (through NewWriter: %v) with headers %v, push errors %v, fails after %d bytes", w, wrapped, before, u.pushErr, u.short)
		l.add("response %d, headers %v, body of %d bytes that ends with %v, its Close returns %v", code, resp.Headers(), len(whole), b.fail, b.cerr)
		var err error
		var target http.ResponseWriter = w
		if wrapped {
			target = response.NewWriter(w, &http.Request{Method: "GET"})
		}
		if v, bad := verifPanics(func() { err = resp.Serve(target) }); bad {
			verifFailf("Serve panics: %v", v)
		}
		l.add("Serve = %v; events %v", err, u.events)
		if b.closed != 1 {
			verifFailf("the body was closed %d times", b.closed)
		}
		if u.events[len(u.events)-1] != "body close" {
			verifFailf("the body was closed before the end")
		}
		var wantPush []string
		var stop error
		if pusher {
			for i, url := range urls {
				wantPush = append(wantPush, url)
				if e := u.pushErr[i+1]; e != nil && !errors.Is(e, http.ErrNotSupported) {
					stop = e
					break
				}
			}
		}
		if fmt.Sprint(u.pushes) != fmt.Sprint(wantPush) {
			verifFailf("pushes %v were offered, expected %v", u.pushes, wantPush)
		}
		for i := range wantPush {
			if !strings.HasPrefix(u.events[i], "push ") {
				verifFailf("the pushes do not come first: %v", u.events)
			}
		}
		if stop != nil {
			if err != stop || len(u.codes) > 0 || u.calls > 0 || !sameHeader(u.h, before) {
				verifFailf("after the failed push Serve returns %v; events %v, headers %v", err, u.events, u.h)
			}
			return
		}
		if len(u.codes) != 1 || u.codes[0] != code || u.events[len(wantPush)] != fmt.Sprintf("status %d", code) {
			verifFailf("the status was sent as %v; events %v", u.codes, u.events)
		}
		want := before
		for k, v := range resp.Headers() {
			if k != "Push" {
				want[k] = v
			}
		}
		if !sameHeader(u.sent, want) {
			verifFailf("sent headers %v, expected %v", u.sent, want)
		}
		suppressed := wrapped && code == 204
		if err == nil && !suppressed && !bytes.Equal(u.data, whole) {
			verifFailf("the writer received %x, the body is %x", u.data, whole)
		}
		if !bytes.HasPrefix(whole, u.data) {
			verifFailf("the writer received %x, the body is %x", u.data, whole)
		}
		complete := suppressed || len(u.data) == len(whole)
		if b.fail != nil && complete && err != b.fail {
			verifFailf("Serve returns %v instead of %v", err, b.fail)
		}
		if !complete && (err == nil || err != u.err && err != io.ErrShortWrite && err != b.fail) {
			verifFailf("Serve returns %v after an incomplete write", err)
		}
		if b.fail == nil && complete && err != b.cerr {
			verifFailf("Serve returns %v, the body's Close returned %v", err, b.cerr)
		}
	})
}
