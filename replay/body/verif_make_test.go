package body_test

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/chronos-tachyon/morehttp/body"
)

func TestVerifC13(t *testing.T) {
	verifRun(t, "C13", false, func(r *rand.Rand, size int, l *verifLog) {
		n := r.Intn(30)
		c := &core{r: rand.New(rand.NewSource(1)), content: randContent(r, n), terminal: io.EOF}
		seek, at, closer, file := r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(3) > 0, r.Intn(2) == 0
		if !closer && file && at {
			at = false
		}
		c.seekable = seek
		c.statSize = int64(n)
		rd := c.wrap(seek, at, closer, file)
		_, isFile := rd.(fs.File)
		_, isSeek := rd.(io.Seeker)
		_, isAt := rd.(io.ReaderAt)
		decl := int64(-1)
		viaLength := r.Intn(2) == 0
		if viaLength {
			switch r.Intn(4) {
			case 0:
				decl = 0
			case 1:
				decl = int64(r.Intn(n + 5))
			case 2:
				decl = -int64(r.Intn(100)) - 1
			default:
				decl = int64(n)
			}
		}
		if r.Intn(4) == 0 {
			c.statErr = errors.New("error of Stat")
		}
		c.seekErr = map[int]error{}
		if r.Intn(4) == 0 {
			c.seekErr[1+r.Intn(2)] = errors.New("error of Seek")
		}
		var b body.Body
		var err error
		what := fmt.Sprintf("FromReader(%T)", rd)
		if viaLength {
			what = fmt.Sprintf("FromReaderAndLength(%T, %d)", rd, decl)
		}
		l.add("reader %T with %d bytes, Stat error %v, Seek errors %v", rd, n, c.statErr, c.seekErr)
		if v, bad := verifPanics(func() {
			if viaLength {
				b, err = body.FromReaderAndLength(rd, decl)
			} else {
				b, err = body.FromReader(rd)
			}
		}); bad {
			verifFailf("%s panics: %v", what, v)
		}
		l.add("%s = %T, %v; calls %v", what, b, err, c.names)
		want := decl
		if want < 0 {
			want = -1
		}
		var calls []string
		var cause error
		if want < 0 && isFile {
			calls = append(calls, "Stat")
			if c.statErr != nil {
				cause = c.statErr
			} else {
				want = c.statSize
			}
		}
		if cause == nil && want < 0 && isSeek {
			calls = append(calls, "Seek")
			if cause = c.seekErr[1]; cause == nil {
				calls = append(calls, "Seek")
				cause = c.seekErr[2]
				want = int64(n)
			}
		}
		if cause != nil {
			if b != nil || !errors.Is(err, cause) {
				verifFailf("%s returns %v, %v; the cause is %v", what, b, err, cause)
			}
			if fmt.Sprint(c.names) != fmt.Sprint(calls) {
				verifFailf("%s makes the calls %v, expected %v", what, c.names, calls)
			}
			return
		}
		if err != nil || b == nil {
			verifFailf("%s returns %v, %v", what, b, err)
		}
		if len(c.names) != len(calls) || len(calls) == 2 && c.pos != 0 {
			verifFailf("%s makes the calls %v, expected %v, and leaves the reader at %d", what, c.names, calls, c.pos)
		}
		if got := b.BytesRemaining(); got != want {
			verifFailf("the body of %s has %d bytes remaining instead of %d", what, got, want)
		}
		_, bSeek := b.(io.Seeker)
		_, bAt := b.(io.ReaderAt)
		expect := want >= 0 && (isAt || isSeek)
		if bSeek != expect || bAt != expect {
			verifFailf("the body of %s supports Seek: %v, ReadAt: %v; expected %v", what, bSeek, bAt, expect)
		}
		if b.Unwrap() != rd {
			verifFailf("the body of %s does not unwrap to the reader", what)
		}
		c.seekErr = nil
		end := int64(n)
		if want >= 0 && want < end {
			end = want
		}
		if s, ok := b.(io.Seeker); ok {
			if p, err := s.Seek(0, io.SeekCurrent); p != 0 || err != nil {
				verifFailf("the body of %s stands at %d (%v)", what, p, err)
			}
		}
		got, err := io.ReadAll(b)
		if err != nil || !bytes.Equal(got, c.content[:end]) {
			verifFailf("the body of %s delivers %s, %v; the content is %s", what, short(got), err, short(c.content[:end]))
		}
		for _, o := range []body.Body{b, body.Empty(), body.AlreadyClosed(), body.FromString("x")} {
			if b2, err := body.FromReader(o); b2 != o || err != nil {
				verifFailf("FromReader of a body returns %v, %v", b2, err)
			}
		}
		if _, bad := verifPanics(func() { body.FromReader(nil) }); !bad {
			verifFailf("FromReader(nil) does not panic")
		}
	})
}

func randString(r *rand.Rand) string {
	alphabet := []string{"a", "b", "\n", "\r", "\r\n", "\"", "<", ">", "&", "\u2028", "é", " ", "\\", "\t", "{", "漢"}
	var sb strings.Builder
	for n := r.Intn(8); n > 0; n-- {
		sb.WriteString(alphabet[r.Intn(len(alphabet))])
	}
	return sb.String()
}

func randJSON(r *rand.Rand, depth int) interface{} {
	switch k := r.Intn(8); {
	case k == 0 && depth > 0:
		m := map[string]interface{}{}
		for n := r.Intn(4); n > 0; n-- {
			m[randString(r)] = randJSON(r, depth-1)
		}
		return m
	case k == 1 && depth > 0:
		a := []interface{}{}
		for n := r.Intn(5); n > 0; n-- {
			a = append(a, randJSON(r, depth-1))
		}
		return a
	case k == 2:
		return r.NormFloat64()
	case k == 3:
		return json.RawMessage(" [1,\n 2, \"<&>\" ]")
	case k == 4:
		return nil
	case k == 5:
		return r.Intn(2) == 0
	case k == 6:
		return r.Int63()
	}
	return randString(r)
}

type badMarshal struct{ err error }

func (b badMarshal) MarshalJSON() ([]byte, error) { return nil, b.err }

func TestVerifC14(t *testing.T) {
	type made struct {
		b    body.Body
		want []byte
		what string
	}
	check := func(m made) {
		c, err := m.b.Copy()
		if err != nil {
			verifFailf("%s: Copy returns %v", m.what, err)
		}
		if n := c.BytesRemaining(); n != int64(len(m.want)) {
			verifFailf("%s holds %d bytes, the encoder produced %d", m.what, n, len(m.want))
		}
		got, err := io.ReadAll(c)
		if err != nil || !bytes.Equal(got, m.want) {
			verifFailf("%s holds %q, the encoder produced %q", m.what, got, m.want)
		}
	}
	verifRun(t, "C14", false, func(r *rand.Rand, size int, l *verifLog) {
		var all []made
		for i := 0; i < size; i++ {
			var m made
			switch r.Intn(6) {
			case 0, 1:
				v := randJSON(r, 3)
				var buf bytes.Buffer
				e := json.NewEncoder(&buf)
				e.SetEscapeHTML(false)
				pretty := r.Intn(2) == 0
				if pretty {
					e.SetIndent("", "  ")
				}
				if e.Encode(v) != nil {
					continue
				}
				m.want = buf.Bytes()
				m.what = fmt.Sprintf("FromJSON(%#v)", v)
				if pretty {
					m.want = bytes.ReplaceAll(m.want, []byte("\n"), []byte("\r\n"))
					m.what = fmt.Sprintf("FromPrettyJSON(%#v)", v)
				}
				l.add("body %d: %s", i, m.what)
				if p, bad := verifPanics(func() {
					if pretty {
						m.b = body.FromPrettyJSON(v)
					} else {
						m.b = body.FromJSON(v)
					}
				}); bad {
					verifFailf("%s panics: %v", m.what, p)
				}
			case 2, 3:
				msg := wrapperspb.String(randString(r))
				var err error
				if r.Intn(2) == 0 {
					m.what = fmt.Sprintf("FromProto(%q)", msg.Value)
					m.want, err = proto.Marshal(msg)
					m.b = body.FromProto(msg)
				} else {
					o := &prototext.MarshalOptions{Multiline: r.Intn(2) == 0}
					if o.Multiline {
						o.Indent = "\t"
					}
					m.what = fmt.Sprintf("FromProtoText(%q, %+v)", msg.Value, o)
					m.want, err = o.Marshal(msg)
					if r.Intn(3) == 0 {
						m.what = fmt.Sprintf("FromProtoText(%q, nil)", msg.Value)
						m.want, err = prototext.MarshalOptions{Multiline: true, Indent: "  "}.Marshal(msg)
						o = nil
					}
					m.b = body.FromProtoText(msg, o)
				}
				l.add("body %d: %s", i, m.what)
				if err != nil {
					continue
				}
			case 4:
				cause := errors.New("cannot be encoded")
				l.add("a JSON value whose encoder fails")
				v, bad := verifPanics(func() {
					if r.Intn(2) == 0 {
						body.FromJSON([]interface{}{1, badMarshal{cause}})
					} else {
						body.FromPrettyJSON(badMarshal{cause})
					}
				})
				if err, ok := v.(error); !bad || !ok || !errors.Is(err, cause) {
					verifFailf("encoding a value that fails with %q panics with %v", cause, v)
				}
				continue
			case 5:
				msg := wrapperspb.String("\xff\xfe")
				_, cause := proto.Marshal(msg)
				if cause == nil {
					continue
				}
				l.add("a protocol buffer message whose encoder fails")
				v, bad := verifPanics(func() { body.FromProto(msg) })
				if err, ok := v.(error); !bad || !ok || err.Error() != cause.Error() {
					verifFailf("encoding a message that fails with %q panics with %v", cause, v)
				}
				continue
			}
			if s, ok := m.b.(io.Seeker); ok {
				if p, err := s.Seek(0, io.SeekCurrent); p != 0 || err != nil {
					verifFailf("%s stands at %d (%v)", m.what, p, err)
				}
			}
			check(m)
			all = append(all, m)
			for _, m := range all {
				check(m)
			}
		}
	})
}

// TestVerifC12 runs bodies concurrently (under the race detector) and checks
// that every read is atomic, nothing deadlocks and a panicking reader leaves
// no lock behind.
func TestVerifC12(t *testing.T) {
	verifRun(t, "C12", true, func(r *rand.Rand, size int, l *verifLog) {
		family := []string{"bytes", "empty", "at", "seek", "plain"}[r.Intn(5)]
		tokens := 200
		if family == "empty" {
			tokens = 0
		}
		content := make([]byte, 4*tokens)
		for i := 0; i < tokens; i++ {
			copy(content[4*i:], fmt.Sprintf("%04x", i))
		}
		c := &core{r: rand.New(rand.NewSource(r.Int63())), content: content, terminal: io.EOF, seekable: family != "plain"}
		var b body.Body
		var rd io.Reader
		switch family {
		case "bytes":
			b = body.FromBytes(content)
		case "empty":
			b = body.Empty()
		default:
			rd = c.wrap(family == "seek", family == "at", true, false)
			n := int64(len(content))
			if family == "plain" && r.Intn(2) == 0 {
				n = -1
			} else if r.Intn(2) == 0 {
				n += int64(r.Intn(50))
			}
			var err error
			if b, err = body.FromReaderAndLength(rd, n); err != nil {
				panic(verifDiscard{})
			}
		}
		l.add("%s body of %d bytes", family, len(content))
		if rd != nil && r.Intn(3) == 0 {
			panicTrial(r, family, c, b, l)
			return
		}
		l.add("4 goroutines read one body while others copy it, ask it and close their copies")
		var mu sync.Mutex
		var segs [][]byte
		var msgs []string
		var wg sync.WaitGroup
		report := func(format string, args ...interface{}) {
			mu.Lock()
			msgs = append(msgs, fmt.Sprintf(format, args...))
			mu.Unlock()
		}
		for g := 0; g < 4; g++ {
			seed := r.Int63()
			wg.Add(2)
			go func() {
				defer wg.Done()
				rr := rand.New(rand.NewSource(seed))
				for {
					p := make([]byte, 4*(1+rr.Intn(9)))
					n, err := b.Read(p)
					if n > 0 {
						mu.Lock()
						segs = append(segs, p[:n])
						mu.Unlock()
					}
					if err != nil {
						if err != io.EOF {
							report("a concurrent Read returns %v", err)
						}
						return
					}
				}
			}()
			go func() {
				defer wg.Done()
				rr := rand.New(rand.NewSource(seed + 1))
				for i := 0; i < 4; i++ {
					x, err := b.Copy()
					if err != nil {
						report("a concurrent Copy returns %v", err)
						return
					}
					x.BytesRemaining()
					if s, ok := x.(io.Seeker); ok && rr.Intn(2) == 0 {
						s.Seek(int64(rr.Intn(10)), io.SeekCurrent)
					}
					if s, ok := x.(io.ReaderAt); ok && tokens > 20 {
						q := make([]byte, 8)
						if n, err := s.ReadAt(q, 16); n != 8 || err != nil || string(q) != "00040005" {
							report("a concurrent ReadAt returns %d, %v, %q", n, err, q)
						}
					}
					if x.Unwrap() != rd {
						report("a concurrent Unwrap returns another reader")
					}
					y, err := x.Copy()
					if err != nil {
						report("a concurrent Copy returns %v", err)
						return
					}
					x.Close()
					got, err := io.ReadAll(y)
					if err != nil || len(content)-len(got) < 0 || !bytes.Equal(got, content[len(content)-len(got):]) {
						report("a concurrent copy delivers %s, %v", short(got), err)
					}
					if err := y.Close(); err != nil {
						report("a concurrent Close returns %v", err)
					}
				}
			}()
		}
		wg.Wait()
		if len(msgs) > 0 {
			verifFailf("%s", msgs[0])
		}
		seen := make([]bool, tokens)
		for _, s := range segs {
			i := bytes.Index(content, s)
			for i >= 0 && i%4 != 0 {
				j := bytes.Index(content[i+1:], s)
				if j < 0 {
					i = -1
				} else {
					i += 1 + j
				}
			}
			if i < 0 || len(s)%4 != 0 {
				verifFailf("a concurrent Read delivers %q, which is no part of the content", s)
			}
			for k := i / 4; k < (i+len(s))/4; k++ {
				if seen[k] {
					verifFailf("concurrent Reads deliver byte %d twice", 4*k)
				}
				seen[k] = true
			}
		}
		for k, ok := range seen {
			if !ok {
				verifFailf("concurrent Reads lose byte %d", 4*k)
			}
		}
		b.Close()
	})
}

func panicTrial(r *rand.Rand, family string, c *core, b body.Body, l *verifLog) {
	x, err := b.Copy()
	if err != nil {
		panic(verifDiscard{})
	}
	op := r.Intn(3)
	c.boom = true
	switch op {
	case 0:
		l.add("the reader panics during a Read")
		verifPanics(func() { b.Read(make([]byte, 10)) })
	case 1:
		ra, ok := b.(io.ReaderAt)
		if !ok {
			return
		}
		l.add("the reader panics during a ReadAt")
		verifPanics(func() { ra.ReadAt(make([]byte, 10), 3) })
	case 2:
		l.add("the reader panics during the last Close")
		x.Close()
		verifPanics(func() { b.Close() })
	}
	c.boom = false
	done := make(chan bool, 2)
	for _, y := range []body.Body{b, x} {
		y := y
		go func() {
			verifPanics(func() { y.BytesRemaining() })
			verifPanics(func() { y.Unwrap() })
			verifPanics(func() { y.Copy() })
			verifPanics(func() { y.Read(make([]byte, 5)) })
			verifPanics(func() { y.Close() })
			done <- true
		}()
	}
	for i := 0; i < 2; i++ {
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			verifFailf("after the panic a later operation never returns (a lock is still held)")
		}
	}
}
