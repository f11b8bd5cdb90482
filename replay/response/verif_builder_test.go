package response_test

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"math/rand"
	"mime"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
)

type myGen struct {
	h http.Header
	b body.Body
}

func (g *myGen) GenerateRedirectPage(code int, location string) (http.Header, body.Body) {
	return http.Header{"X-Gen": {fmt.Sprint(code), location}}, body.FromString("redirect " + location)
}
func (g *myGen) GenerateErrorPage(code int, err error) (http.Header, body.Body) {
	return http.Header{"X-Gen": {fmt.Sprint(code)}}, body.FromString("error " + err.Error())
}

// state is what the accessors of a builder show.
type state struct {
	gen  response.PageGenerator
	code int
	hdrs http.Header
	body body.Body
	err  error
}

func stateOf(b *response.Builder) state {
	return state{b.PageGenerator(), b.Status(), cloneHeader(b.Headers()), b.Body(), b.Err()}
}

func (s state) String() string {
	return fmt.Sprintf("generator %T, status %d, headers %s, body %T, error %v", s.gen, s.code, fmtHeader(s.hdrs), s.body, s.err)
}

func (s state) same(o state) bool {
	return s.gen == o.gen && s.code == o.code && sameHeader(s.hdrs, o.hdrs) && s.body == o.body && s.err == o.err
}

func contentOf(b body.Body) string {
	c, err := b.Copy()
	if err != nil {
		return "copy fails: " + err.Error()
	}
	p, err := io.ReadAll(c)
	if err != nil {
		return "read fails: " + err.Error()
	}
	return string(p)
}

var names = []string{"Content-Type", "content-length", "Content-Length", "X-A", "x-a", "ETag", "Digest", "Push", "Cache-Control"}

func word(r *rand.Rand) string {
	return []string{"", "a", "text/html", " en ", "gzip", "7", "\tde,fr\n", "x y"}[r.Intn(8)]
}

// change applies one setter to the builder and to the model; it reports
// deviations under C26.
func change(r *rand.Rand, b *response.Builder, l *verifLog, fail func(string, string, ...interface{})) {
	want := stateOf(b)
	content, checkContent := "", false
	var out *response.Builder
	what := ""
	expectPanic := false
	do := func(f func()) {
		v, bad := verifPanics(f)
		l.add("b.%s; panics with %v", what, v)
		if bad != expectPanic {
			fail("C26", "%s panics with %v", what, v)
		}
	}
	switch r.Intn(16) {
	case 0, 1:
		n, v, app := names[r.Intn(len(names))], word(r), r.Intn(2) == 0
		what = fmt.Sprintf("WithHeader(%q, %q, %v)", n, v, app)
		if app {
			want.hdrs.Add(n, v)
		} else {
			want.hdrs.Set(n, v)
		}
		do(func() { out = b.WithHeader(n, v, app) })
	case 2:
		n := names[r.Intn(len(names))]
		what = fmt.Sprintf("WithoutHeader(%q)", n)
		want.hdrs.Del(n)
		do(func() { out = b.WithoutHeader(n) })
	case 3:
		v := []string{"text/HTML; Charset=utf-8", "application/json", "  text/plain ", "image/png;a=b;c=\"d e\"", "text/html; charset", "/", "", "a/b/c", "text/plain; x=1; x=2", "Foo", "text/plain;"}[r.Intn(11)]
		what = fmt.Sprintf("WithContentType(%q)", v)
		mt, params, err := mime.ParseMediaType(v)
		f := mime.FormatMediaType(mt, params)
		expectPanic = err != nil || f == ""
		if !expectPanic {
			want.hdrs.Set("Content-Type", f)
		}
		do(func() { out = b.WithContentType(v) })
	case 4:
		v := word(r)
		what = fmt.Sprintf("WithContentLanguage(%q)", v)
		want.hdrs.Set("Content-Language", strings.TrimSpace(v))
		do(func() { out = b.WithContentLanguage(v) })
	case 5:
		v := word(r)
		what = fmt.Sprintf("WithContentEncoding(%q)", v)
		want.hdrs.Set("Content-Encoding", strings.TrimSpace(v))
		do(func() { out = b.WithContentEncoding(v) })
	case 6:
		v, strong := word(r), r.Intn(2) == 0
		what = fmt.Sprintf("WithETag(%q, %v)", v, strong)
		if strong {
			want.hdrs.Set("ETag", `"`+v+`"`)
		} else {
			want.hdrs.Set("ETag", `W/"`+v+`"`)
		}
		do(func() { out = b.WithETag(v, strong) })
	case 7:
		sum := make([]byte, 1+r.Intn(40))
		r.Read(sum)
		algo := []string{"sha-256", "md5", "SHA"}[r.Intn(3)]
		what = fmt.Sprintf("WithDigest(%q, %x)", algo, sum)
		want.hdrs.Add("Digest", algo+"="+base64.StdEncoding.EncodeToString(sum))
		do(func() { out = b.WithDigest(algo, sum) })
	case 8:
		x := body.FromString(word(r))
		what = "WithBody(...)"
		want.body = x
		do(func() { out = b.WithBody(x) })
	case 9:
		v := map[string]interface{}{"k": word(r), "n": r.Intn(9), "l": []int{1, r.Intn(5)}}
		var buf bytes.Buffer
		e := json.NewEncoder(&buf)
		e.SetEscapeHTML(false)
		pretty := r.Intn(2) == 0
		if pretty {
			e.SetIndent("", "  ")
		}
		e.Encode(v)
		content, checkContent = buf.String(), true
		if pretty {
			content = strings.ReplaceAll(content, "\n", "\r\n")
		}
		what = fmt.Sprintf("WithJSON(%v), pretty %v", v, pretty)
		want.hdrs.Set("Content-Type", "application/json")
		do(func() {
			if pretty {
				out = b.WithPrettyJSON(v)
			} else {
				out = b.WithJSON(v)
			}
		})
	case 10:
		m := wrapperspb.String(word(r))
		raw, _ := proto.Marshal(m)
		content, checkContent = string(raw), true
		what = fmt.Sprintf("WithProto(%q)", m.Value)
		want.hdrs.Set("Content-Type", "application/vnd.google.protobuf")
		do(func() { out = b.WithProto(m) })
	case 11:
		m := wrapperspb.String(word(r))
		o := &prototext.MarshalOptions{}
		raw, _ := o.Marshal(m)
		if r.Intn(2) == 0 {
			o = nil
			raw, _ = prototext.MarshalOptions{Multiline: true, Indent: "  "}.Marshal(m)
		}
		content, checkContent = string(raw), true
		what = fmt.Sprintf("WithProtoText(%q, %v)", m.Value, o)
		want.hdrs.Set("Content-Type", "text/plain; charset=utf-8")
		do(func() { out = b.WithProtoText(m, o) })
	case 12:
		var err error
		if r.Intn(2) == 0 {
			err = errors.New("some error")
		}
		what = fmt.Sprintf("WithError(%v)", err)
		want.err = err
		do(func() { out = b.WithError(err) })
	case 13:
		code := 200 + r.Intn(800)
		what = fmt.Sprintf("WithStatus(%d)", code)
		want.code = code
		do(func() { out = b.WithStatus(code) })
	case 14:
		g := &myGen{}
		what = "WithPageGenerator(...)"
		want.gen = g
		do(func() { out = b.WithPageGenerator(g) })
	case 15:
		h := http.Header{}
		for i := r.Intn(4); i > 0; i-- {
			v := []string{word(r), word(r)}
			n := r.Intn(3)
			h[names[r.Intn(len(names))]] = v[:n:n]
		}
		what = fmt.Sprintf("WithHeaders(%v)", h)
		want.hdrs = cloneHeader(h)
		do(func() { out = b.WithHeaders(h) })
	}
	if !expectPanic && out != b {
		fail("C26", "%s returns another builder", what)
	}
	got := stateOf(b)
	if checkContent {
		if got.body == nil || contentOf(got.body) != content {
			fail("C26", "%s installs a body with %q, expected %q", what, contentOf(got.body), content)
		}
		if got.body == want.body {
			fail("C26", "%s keeps the old body", what)
		}
		want.body = got.body
	}
	if !got.same(want) {
		fail("C26", "after %s: %v; expected %v", what, got, want)
	}
}

func searchBuilder(t *testing.T, prop string, f func(r *rand.Rand, b *response.Builder, l *verifLog, fail func(string, string, ...interface{}))) {
	verifRun(t, prop, false, func(r *rand.Rand, size int, l *verifLog) {
		fail := func(label, format string, args ...interface{}) {
			if label == prop {
				verifFailf(format, args...)
			}
			panic(verifDiscard{})
		}
		b := response.NewBuilder()
		if size > 8 {
			size = 8
		}
		for i := r.Intn(size + 1); i > 0; i-- {
			change(r, b, l, fail)
		}
		f(r, b, l, fail)
	})
}

func TestVerifC26(t *testing.T) {
	searchBuilder(t, "C26", func(r *rand.Rand, b *response.Builder, l *verifLog, fail func(string, string, ...interface{})) {
		if response.NewBuilder().PageGenerator() != response.DefaultPageGenerator {
			fail("C26", "a new builder does not have the default page generator")
		}
	})
}

func randBody(r *rand.Rand) body.Body {
	n := r.Intn(20)
	data := bytes.Repeat([]byte("x"), n)
	switch r.Intn(4) {
	case 0:
		b, _ := body.FromReader(onlyReader{bytes.NewReader(data)})
		return b
	case 1:
		b, _ := body.FromReaderAndLength(onlyReader{bytes.NewReader(data)}, int64(n))
		return b
	case 2:
		return &sbody{data: data, length: int64(r.Intn(4)) - 1}
	}
	b := body.FromBytes(data)
	b.Read(make([]byte, r.Intn(n+1)))
	return b
}

func TestVerifC15(t *testing.T) {
	searchBuilder(t, "C15", func(r *rand.Rand, b *response.Builder, l *verifLog, fail func(string, string, ...interface{})) {
		if b.Body() == nil {
			if _, bad := verifPanics(func() { b.Build() }); !bad {
				fail("C15", "Build without a body does not panic")
			}
		}
		x := randBody(r)
		rem := x.BytesRemaining()
		b.WithBody(x)
		var before state
		fresh := r.Intn(3) == 0
		if fresh { // do not touch the headers through the accessor
			b = response.NewBuilder().WithBody(x)
			before = state{gen: response.DefaultPageGenerator, body: x, hdrs: http.Header{}}
		} else {
			before = stateOf(b)
		}
		l.add("body with %d bytes remaining; builder: %v", rem, before)
		resp := b.Build()
		code := before.code
		if code == 0 {
			code = 200
		}
		want := cloneHeader(before.hdrs)
		if _, ok := want["Content-Type"]; !ok {
			want["Content-Type"] = []string{"application/octet-stream"}
		}
		if _, ok := want["Content-Length"]; !ok && rem >= 0 {
			want["Content-Length"] = []string{strconv.FormatInt(rem, 10)}
		}
		l.add("Build: status %d, headers %s, error %v", resp.Status(), fmtHeader(resp.Headers()), resp.Err())
		if resp.Status() != code || resp.Body() != before.body || resp.Err() != before.err {
			fail("C15", "the response has status %d, error %v; expected %d, %v (same body: %v)", resp.Status(), resp.Err(), code, before.err, resp.Body() == before.body)
		}
		if !sameHeader(resp.Headers(), want) {
			fail("C15", "the response has headers %s; expected %s", fmtHeader(resp.Headers()), fmtHeader(want))
		}
		after := stateOf(b)
		if !after.same(state{gen: before.gen, hdrs: http.Header{}}) {
			fail("C15", "after Build the builder has %v", after)
		}
		if !sameHeader(resp.Headers(), want) {
			fail("C15", "the builder shares its headers with the response")
		}
	})
}

func TestVerifC17(t *testing.T) {
	searchBuilder(t, "C17", func(r *rand.Rand, b *response.Builder, l *verifLog, fail func(string, string, ...interface{})) {
		before := stateOf(b)
		code := []int{-1, 0, 99, 100, 199, 200, 201, 299, 300, 301, 399, 400, 404, 500, 998, 999, 1000, 1001, -300, 1 << 30}[r.Intn(20)]
		what, good := "", true
		var f func()
		switch r.Intn(9) {
		case 0, 1:
			what, good = fmt.Sprintf("WithStatus(%d)", code), code >= 200 && code <= 999
			f = func() { b.WithStatus(code) }
		case 2, 3:
			loc := []string{"/x", "", " ", "\t\n", " /y "}[r.Intn(5)]
			what, good = fmt.Sprintf("RedirectPage(%d, %q)", code, loc), code >= 300 && code <= 399 && strings.TrimSpace(loc) != ""
			f = func() { b.RedirectPage(code, loc) }
		case 4:
			err := errors.New("cause")
			if r.Intn(3) == 0 {
				err = nil
			}
			what, good = fmt.Sprintf("ErrorPage(%d, %v)", code, err), code >= 200 && code <= 999 && err != nil
			f = func() { b.ErrorPage(code, err) }
		case 5:
			what, good = `WithHeader("", "v")`, false
			f = func() { b.WithHeader("", "v", r.Intn(2) == 0) }
			code = before.code
		case 6:
			what, good = `WithoutHeader("")`, false
			f = func() { b.WithoutHeader("") }
		case 7:
			what, good = "WithBody(nil)", false
			f = func() { b.WithBody(nil) }
		case 8:
			what, good = "WithPageGenerator(nil)", false
			f = func() { b.WithPageGenerator(nil) }
		}
		v, bad := verifPanics(f)
		l.add("b.%s; panics with %v", what, v)
		if bad == good {
			fail("C17", "%s panics with %v", what, v)
		}
		if bad {
			if got := stateOf(b); !got.same(before) {
				fail("C17", "after the panic of %s the builder has %v; it had %v", what, got, before)
			}
		} else if b.Status() != code {
			fail("C17", "after %s the status is %d", what, b.Status())
		}
		if b.Body() == nil {
			b.WithBody(body.Empty())
		}
		if resp := b.Build(); resp.Status() < 200 || resp.Status() > 999 {
			fail("C17", "a response with status %d is built", resp.Status())
		}
	})
}

func randLocation(r *rand.Rand) string {
	parts := []string{"/", "a", "<script>", "\"", "'", "&", "&amp;", ">", "<", "?q=1", " ", "é", "#", "</a>", "\"><p>", "&lt;", "https://h/"}
	var sb strings.Builder
	for n := r.Intn(8); n > 0; n-- {
		sb.WriteString(parts[r.Intn(len(parts))])
	}
	return sb.String()
}

func marks(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if strings.IndexByte("<>\"'", s[i]) >= 0 {
			out = append(out, s[i])
		}
	}
	return string(out)
}

func TestVerifC18(t *testing.T) {
	searchBuilder(t, "C18", func(r *rand.Rand, b *response.Builder, l *verifLog, fail func(string, string, ...interface{})) {
		if b.PageGenerator() != response.DefaultPageGenerator {
			b.WithPageGenerator(response.DefaultPageGenerator)
		}
		if r.Intn(2) == 0 {
			b.WithBody(body.FromString("old")).WithHeader("X-Old", "1", false).WithError(errors.New("old"))
		}
		if r.Intn(2) == 0 {
			loc := randLocation(r)
			if r.Intn(2) == 0 {
				loc = " " + loc + "\n"
			}
			trimmed := strings.TrimSpace(loc)
			if trimmed == "" {
				return
			}
			code := 300 + r.Intn(100)
			l.add("b.RedirectPage(%d, %q)", code, loc)
			if v, bad := verifPanics(func() { b.RedirectPage(code, loc) }); bad {
				fail("C18", "RedirectPage(%d, %q) panics with %v", code, loc, v)
			}
			got := stateOf(b)
			text := contentOf(got.body)
			l.add("page %q, %v", text, got)
			if got.code != code || got.err != nil {
				fail("C18", "the redirect page has %v", got)
			}
			want := http.Header{"Location": {trimmed}, "Content-Type": {"text/html; charset=utf-8"}, "Cache-Control": {"max-age=86400, must-revalidate"}, "Content-Length": {strconv.Itoa(len(text))}}
			if !sameHeader(got.hdrs, want) {
				fail("C18", "the redirect page has headers %s, expected %s", fmtHeader(got.hdrs), fmtHeader(want))
			}
			plain := contentOf(response.NewBuilder().RedirectPage(code, "QQQ").Body())
			if marks(text) != marks(plain) {
				fail("C18", "the page %q has other markup than %q", text, plain)
			}
			if html.UnescapeString(text) != strings.ReplaceAll(html.UnescapeString(plain), "QQQ", trimmed) {
				fail("C18", "the page %q does not contain the location in escaped form", text)
			}
			return
		}
		code := 200 + r.Intn(800)
		if r.Intn(2) == 0 {
			code = []int{200, 404, 500, 418, 503, 999}[r.Intn(6)]
		}
		err := errors.New("secret <detail> of the cause")
		l.add("b.ErrorPage(%d, %v)", code, err)
		if v, bad := verifPanics(func() { b.ErrorPage(code, err) }); bad {
			fail("C18", "ErrorPage(%d) panics with %v", code, v)
		}
		got := stateOf(b)
		text := contentOf(got.body)
		l.add("page %q, %v", text, got)
		if got.code != code || got.err != err {
			fail("C18", "the error page has %v", got)
		}
		want := http.Header{"Content-Type": {"text/plain; charset=utf-8"}, "Cache-Control": {"no-cache"}, "Content-Length": {strconv.Itoa(len(text))}}
		if !sameHeader(got.hdrs, want) {
			fail("C18", "the error page has headers %s, expected %s", fmtHeader(got.hdrs), fmtHeader(want))
		}
		if strings.Join(strings.Fields(text), " ") != strings.Join(strings.Fields(fmt.Sprint(code)+" "+http.StatusText(code)), " ") {
			fail("C18", "the error page is %q", text)
		}
	})
}

func mutate(r *rand.Rand, h http.Header) {
	for k, v := range h {
		switch r.Intn(4) {
		case 0:
			for i := range v {
				v[i] = "changed"
			}
		case 1:
			h[k] = append(v, "appended")
		case 2:
			delete(h, k)
		case 3:
			_ = append(v[:len(v):cap(v)], "spilled")
		}
	}
	h["New-"+fmt.Sprint(r.Intn(100))] = []string{"n"}
}

func TestVerifC16(t *testing.T) {
	searchBuilder(t, "C16", func(r *rand.Rand, b *response.Builder, l *verifLog, fail func(string, string, ...interface{})) {
		h := http.Header{}
		for i := r.Intn(4); i > 0; i-- {
			v := make([]string, r.Intn(3), 5)
			for j := range v {
				v[j] = word(r)
			}
			h[names[r.Intn(len(names))]] = v
		}
		switch r.Intn(4) {
		case 0, 1:
			want := cloneHeader(h)
			l.add("b.WithHeaders(%v)", h)
			b.WithHeaders(h)
			if !sameHeader(b.Headers(), want) || !sameHeader(h, want) {
				fail("C16", "WithHeaders(%s) gives %s", fmtHeader(want), fmtHeader(b.Headers()))
			}
			l.add("a change to one side")
			mutate(r, h)
			if !sameHeader(b.Headers(), want) {
				fail("C16", "a change to the argument of WithHeaders(%s) shows: %s", fmtHeader(want), fmtHeader(b.Headers()))
			}
			mine := cloneHeader(h)
			for k := range want {
				if r.Intn(2) == 0 {
					continue
				}
				l.add("b.WithHeader(%q, z, true)", k)
				want.Add(k, "z")
				b.WithHeader(k, "z", true)
				if !sameHeader(b.Headers(), want) {
					fail("C16", "appending to one header gives %s instead of %s", fmtHeader(b.Headers()), fmtHeader(want))
				}
			}
			mutate(r, b.Headers())
			for k := range b.Headers() {
				b.WithHeader(k, "z", true)
			}
			if !sameHeader(h, mine) {
				fail("C16", "a change to the builder shows in the argument of WithHeaders: %s, was %s", fmtHeader(h), fmtHeader(mine))
			}
		case 2:
			x := randBody(r)
			if s, ok := x.(*sbody); ok && r.Intn(2) == 0 {
				s.copy = errors.New("cannot copy")
			}
			if r.Intn(4) > 0 {
				b.WithBody(x)
			}
			for k, v := range h {
				b.Headers()[k] = v
			}
			before := stateOf(b)
			rem := int64(0)
			if before.body != nil {
				rem = before.body.BytesRemaining()
			}
			c, err := b.Copy()
			l.add("b.Copy() of %v", before)
			if !stateOf(b).same(before) {
				fail("C16", "Copy changes the builder to %v", stateOf(b))
			}
			if s, ok := before.body.(*sbody); ok && s.copy != nil {
				if c != nil || err != s.copy {
					fail("C16", "Copy returns %v, %v; the body's copy fails with %v", c, err, s.copy)
				}
				return
			}
			if err != nil || c == nil || c == b {
				fail("C16", "Copy returns %v, %v", c, err)
			}
			got := stateOf(c)
			l.add("the copy: %v", got)
			if got.code != before.code || got.err != before.err || got.gen != before.gen || !sameHeader(got.hdrs, before.hdrs) {
				fail("C16", "the copy has %v; the original %v", got, before)
			}
			if (got.body == nil) != (before.body == nil) || got.body != nil && (got.body == before.body || reflect.TypeOf(got.body) != reflect.TypeOf(before.body) || got.body.BytesRemaining() != rem) {
				fail("C16", "the copy has the body %v, the original %v", got.body, before.body)
			}
			for k := range got.hdrs {
				if r.Intn(2) == 0 {
					continue
				}
				l.add("copy.WithHeader(%q, z, true)", k)
				got.hdrs.Add(k, "z")
				c.WithHeader(k, "z", true)
				if !sameHeader(c.Headers(), got.hdrs) {
					fail("C16", "appending to one header gives %s instead of %s", fmtHeader(c.Headers()), fmtHeader(got.hdrs))
				}
			}
			mutate(r, c.Headers())
			if !sameHeader(b.Headers(), before.hdrs) {
				fail("C16", "a change to the copy's headers shows: %s, was %s", fmtHeader(b.Headers()), fmtHeader(before.hdrs))
			}
			mine := cloneHeader(c.Headers())
			mutate(r, b.Headers())
			if !sameHeader(c.Headers(), mine) {
				fail("C16", "a change to the original's headers shows in the copy: %s, was %s", fmtHeader(c.Headers()), fmtHeader(mine))
			}
			if got.body != nil {
				io.ReadAll(got.body)
				if n := before.body.BytesRemaining(); n != rem && rem >= 0 {
					fail("C16", "reading the copy changes the original's body from %d to %d bytes", rem, n)
				}
			}
		case 3:
			x := randBody(r)
			if s, ok := x.(*sbody); ok && r.Intn(2) == 0 {
				s.copy = errors.New("cannot copy")
			}
			b.WithBody(x)
			resp := b.Build()
			code, hdrs, e, rem := resp.Status(), cloneHeader(resp.Headers()), resp.Err(), x.BytesRemaining()
			c, err := resp.Copy()
			l.add("Copy of the response %d, %s, %v = %v", code, fmtHeader(hdrs), e, err)
			if resp.Status() != code || !sameHeader(resp.Headers(), hdrs) || resp.Err() != e || resp.Body() != x {
				fail("C16", "Copy changes the response")
			}
			if s, ok := x.(*sbody); ok && s.copy != nil {
				if c != nil || err != s.copy {
					fail("C16", "Copy returns %v, %v; the body's copy fails with %v", c, err, s.copy)
				}
				return
			}
			if err != nil || c == nil || c == resp || c.Status() != code || c.Err() != e || !sameHeader(c.Headers(), hdrs) {
				fail("C16", "Copy returns %v, %v", c, err)
			}
			if c.Body() == x || c.Body().BytesRemaining() != rem {
				fail("C16", "the copy's body is not an equal copy")
			}
			io.ReadAll(c.Body())
			if n := x.BytesRemaining(); n != rem && rem >= 0 {
				fail("C16", "reading the copy changes the original's body from %d to %d bytes", rem, n)
			}
		}
	})
}
