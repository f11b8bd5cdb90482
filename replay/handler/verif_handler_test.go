package handler_test

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
)

type under struct {
	h       http.Header
	codes   []int
	got     int64
	short   int
	err     error
	pushErr error
	boom    string
	before  int // status sent when the trouble began
}

func (u *under) Header() http.Header { return u.h }
func (u *under) WriteHeader(code int) {
	u.codes = append(u.codes, code)
}
func (u *under) Write(p []byte) (int, error) {
	if u.boom == "write" {
		panic("the writer panics")
	}
	n := len(p)
	if u.short >= 0 && n > u.short {
		n = u.short
		u.short = 0
		u.got += int64(n)
		return n, u.err
	}
	if u.short >= 0 {
		u.short -= n
	}
	u.got += int64(n)
	return n, nil
}

type underPush struct{ *under }

func (u underPush) Push(string, *http.PushOptions) error { return u.pushErr }

type hbody struct {
	n    int
	err  error
	boom interface{}
	cerr error
}

func (b *hbody) BytesRemaining() int64 { return -1 }
func (b *hbody) Unwrap() io.Reader     { return nil }
func (b *hbody) Close() error          { return b.cerr }
func (b *hbody) Copy() (body.Body, error) {
	return nil, errors.New("no copy")
}
func (b *hbody) Read(p []byte) (int, error) {
	if b.n == 0 {
		if b.boom != nil {
			panic(b.boom)
		}
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	b.n--
	p[0] = 'x'
	return 1, nil
}

func metric(m prometheus.Metric) *dto.Metric {
	var d dto.Metric
	if m.Write(&d) != nil {
		panic(verifDiscard{})
	}
	return &d
}

// counters gives the value of each label of a counter vector.
func counters(v *prometheus.CounterVec) map[string]float64 {
	ch := make(chan prometheus.Metric, 4096)
	v.Collect(ch)
	close(ch)
	out := map[string]float64{}
	for m := range ch {
		d := metric(m)
		out[d.Label[0].GetValue()] = d.Counter.GetValue()
	}
	return out
}

type snap struct {
	panics         float64
	req, lat, send map[string]float64
	latN, sendN    uint64
	latS, sendS    float64
}

func take() snap {
	l, s := metric(handler.PromLatencyHist.(prometheus.Metric)), metric(handler.PromSendBytesHist.(prometheus.Metric))
	return snap{
		panics: metric(handler.PromPanicsTotal.(prometheus.Metric)).Counter.GetValue(),
		req:    counters(handler.PromRequestsTotal), lat: counters(handler.PromLatencyTotal), send: counters(handler.PromSendBytesTotal),
		latN: l.Histogram.GetSampleCount(), latS: l.Histogram.GetSampleSum(),
		sendN: s.Histogram.GetSampleCount(), sendS: s.Histogram.GetSampleSum(),
	}
}

// delta gives the labels whose counter changed.
func delta(a, b map[string]float64) map[string]float64 {
	out := map[string]float64{}
	for k, v := range b {
		if v != a[k] {
			out[k] = v - a[k]
		}
	}
	return out
}

func searchAdaptor(t *testing.T, prop string) {
	verifRun(t, prop, false, func(r *rand.Rand, size int, l *verifLog) {
		fail := func(label, format string, args ...interface{}) {
			for _, x := range strings.Fields(label) {
				if x == prop {
					verifFailf(format, args...)
				}
			}
			panic(verifDiscard{})
		}
		u := &under{h: http.Header{}, short: -1}
		method := []string{"GET", "HEAD", "POST"}[r.Intn(3)]
		req := &http.Request{Method: method}
		b := &hbody{n: r.Intn(30)}
		n := b.n
		code := []int{200, 204, 302, 404, 500, 503, 299, 999}[r.Intn(8)]
		bld := response.NewBuilder().WithStatus(code).WithBody(b)
		var cause interface{} // what the callback is to receive, nil if nothing fails
		status := code
		hide := method == "HEAD" || code == 204
		kind := r.Intn(12)
		var w http.ResponseWriter = u
		handle := func(*http.Request) response.Response { return *bld.Build() }
		what := ""
		switch kind {
		case 0:
			values := []interface{}{errors.New("an error"), "a string", 42, io.EOF, http.ErrAbortHandler, fmt.Errorf("wrapped: %w", io.EOF), struct{ A int }{7}, []int{1}}
			cause = values[r.Intn(len(values))]
			what = fmt.Sprintf("the handler panics with %#v", cause)
			status = 500
			handle = func(*http.Request) response.Response { panic(cause) }
		case 1:
			b.err = errors.New("body read fails")
			what = "the body's Read fails at its end"
			cause = b.err
		case 2:
			b.cerr = errors.New("body close fails")
			what = "the body's Close fails"
			cause = b.cerr
		case 3:
			b.boom = []interface{}{errors.New("body panic"), "body panic"}[r.Intn(2)]
			what = fmt.Sprintf("the body panics with %#v at its end", b.boom)
			cause = b.boom
		case 4:
			if hide || n == 0 {
				return
			}
			u.short, u.err = r.Intn(n), errors.New("write fails")
			what = fmt.Sprintf("the writer fails after %d bytes", u.short)
			cause = u.err
		case 5:
			if hide || n == 0 {
				return
			}
			u.boom = "write"
			what = "the writer's Write panics"
			cause = "the writer panics"
		case 6:
			u.pushErr = errors.New("push fails")
			bld.WithHeader("Push", "/x", true)
			w = underPush{u}
			what = "a push fails"
			cause = u.pushErr
			status = 500
		case 7:
			var p *int
			what = "the handler dereferences nil"
			status = 500
			handle = func(*http.Request) response.Response { _ = *p; return response.Response{} }
			cause = "runtime"
		case 8:
			what = "the handler returns a zero response"
			status = 500
			handle = func(*http.Request) response.Response { return response.Response{} }
			cause = "any"
		default:
			what = "nothing fails"
		}
		own := kind != 0 && kind != 6 && r.Intn(4) == 0
		if own {
			w = response.NewWriter(w, req)
		}
		l.add("%s request, writer %T; the response has status %d and a body of %d bytes; %s", method, w, code, n, what)
		calls, cbs := 0, []error{}
		var seen *http.Request
		a := handler.Adaptor{Inner: handler.HandlerFunc(func(q *http.Request) response.Response {
			calls++
			seen = q
			return handle(q)
		})}
		old := handler.OnPanic
		handler.OnPanic = func(err error) { cbs = append(cbs, err) }
		defer func() { handler.OnPanic = old }()
		before := take()
		v, bad := verifPanics(func() { a.ServeHTTP(w, req) })
		after := take()
		l.add("ServeHTTP: statuses %v, %d bytes accepted, callbacks %v", u.codes, u.got, cbs)
		if bad {
			fail("C23", "the panic %v escapes", v)
		}
		if calls != 1 || seen != req {
			fail("C23", "the handler was called %d times", calls)
		}
		if cause == nil && len(cbs) != 0 || cause != nil && len(cbs) != 1 {
			fail("C23", "the panic callback was called %d times", len(cbs))
		}
		if cause != nil && cause != "runtime" && cause != "any" {
			if err, ok := cause.(error); ok {
				if cbs[0] != err {
					fail("C23", "the panic callback received %#v", cbs[0])
				}
			} else if pe, ok := cbs[0].(handler.PanicError); !ok || !reflect.DeepEqual(pe.Value, cause) {
				fail("C23", "the panic callback received %#v", cbs[0])
			}
		}
		if len(u.codes) != 1 || u.codes[0] != status {
			fail("C23", "the statuses %v were sent, expected %d", u.codes, status)
		}
		if cause == nil && !hide && u.got != int64(n) {
			fail("C23", "%d bytes were sent, the body has %d", u.got, n)
		}
		label := strconv.Itoa(u.codes[0])
		if d := delta(before.req, after.req); len(d) != 1 || d[label] != 1 {
			fail("C24", "the request counters change by %v; the status sent is %s", d, label)
		}
		if d := delta(before.send, after.send); u.got > 0 && (len(d) != 1 || d[label] != float64(u.got)) || u.got == 0 && len(d) != 0 {
			fail("C24", "the sent-bytes counters change by %v; %d bytes were sent with status %s", d, u.got, label)
		}
		if after.sendN != before.sendN+1 || after.sendS-before.sendS != float64(u.got) {
			fail("C24", "the sent-bytes histogram observes %v in %d observations; %d bytes were sent", after.sendS-before.sendS, after.sendN-before.sendN, u.got)
		}
		d := delta(before.lat, after.lat)
		dh := after.latS - before.latS
		if after.latN != before.latN+1 || len(d) > 1 || math.Abs(d[label]-dh) > 1e-9*(1+after.latS) {
			fail("C24", "the latency histogram observes %v in %d observations, the counters change by %v; the status sent is %s", dh, after.latN-before.latN, d, label)
		}
		want := 0.0
		if cause != nil {
			want = 1
		}
		if after.panics-before.panics != want {
			fail("C24", "the panic counter changes by %v instead of %v", after.panics-before.panics, want)
		}
	})
}

func TestVerifC23(t *testing.T) { searchAdaptor(t, "C23") }
func TestVerifC24(t *testing.T) { searchAdaptor(t, "C24") }
