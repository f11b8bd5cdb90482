// Package use exercises contracts between functions: callers, environments,
// frames, panics, invariants over several objects, histories.
package use

import (
	"bytes"
	"html"
	"io"
	"strings"
	"sync"
)

type Dev interface {
	Do(n int) (int, error)
}

// ---- callers ----

func Half(n int) int { return n / 2 }

func CallHalf(n int) int    { return Half(n) + Half(n) }
func CallHalfNeg(n int) int { return Half(n - 1) }

func SetAll(p []byte) {
	for i := range p {
		p[i] = 9
	}
}
func CallSetAll(p, q []byte) byte {
	SetAll(p)
	return q[0]
}
func SilentWrite(p []byte) { p[0] = 1 }

// ---- the environment ----

func Once(d Dev) (int, error)  { return d.Do(1) }
func Twice(d Dev) (int, error) {
	if n, err := d.Do(1); err != nil {
		return n, err
	}
	return d.Do(2)
}
func Retry(d Dev) error {
	_, err := d.Do(1)
	if err != nil {
		_, err = d.Do(1)
	}
	return err
}
func Swallow(d Dev) error {
	d.Do(1)
	return nil
}
func Loop(d Dev, n int) (done int, err error) {
	for done < n {
		if _, err = d.Do(done); err != nil {
			return
		}
		done++
	}
	return
}
func LoopWrong(d Dev, n int) (done int, err error) {
	for done < n {
		done++
		if _, err = d.Do(done); err != nil {
			return
		}
	}
	return
}
func PassError(d Dev) (err error) {
	defer func() {
		if _, e := d.Do(2); err == nil {
			err = e
		}
	}()
	_, err = d.Do(1)
	return err
}

// ---- panics ----

func Must(n int) int {
	if n < 0 {
		panic("negative")
	}
	return n
}
func CallMust(n int) int { return Must(n) }
func CallMustCaught(n int) (r int) {
	defer func() {
		if recover() != nil {
			r = -1
		}
	}()
	return Must(n)
}
func AfterPanic(d Dev) (ok bool) {
	defer func() { ok = true }()
	d.Do(1)
	return false
}
func Rethrow(d Dev) {
	defer func() {
		if v := recover(); v != nil {
			panic(v)
		}
	}()
	d.Do(1)
}

// ---- readers ----

func ReadAll(r io.Reader, p []byte) (n int, err error) {
	for n < len(p) && err == nil {
		var k int
		k, err = r.Read(p[n:])
		n += k
	}
	return
}
func ReadAllWrong(r io.Reader, p []byte) (n int, err error) {
	for n < len(p) && err == nil {
		var k int
		k, err = r.Read(p)
		n += k
	}
	return
}
func CloseTwice(c io.Closer) error {
	if err := c.Close(); err != nil {
		return err
	}
	return c.Close()
}

// ---- shared state ----

type Hub struct {
	mu    sync.Mutex
	users int
	seen  map[*User]int
}

type User struct {
	hub  *Hub
	name string
}

func (h *Hub) Join(u *User) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if _, ok := h.seen[u]; ok {
		return
	}
	h.users++
	h.seen[u] = h.users
}
func (h *Hub) JoinWrong(u *User) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.users++
	h.seen[u] = h.users
}
func (h *Hub) Leave(u *User) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if _, ok := h.seen[u]; ok {
		h.users--
	}
	delete(h.seen, u)
}
func (h *Hub) LeaveWrong(u *User) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.users--
	delete(h.seen, u)
}

// ---- text ----

func Page(x string) string       { return "<p class=\"" + html.EscapeString(x) + "\">" + html.EscapeString(x) + "</p>" }
func PageSplit(x string) string  { return "<p cla" + "ss=" + cut("\"" + html.EscapeString(x)) + "\">" }
func PageBare(x string) string   { return "<p class=" + html.EscapeString(x) + ">" }
func PageRaw(x string) string    { return "<p>" + x + "</p>" }
func PageScript(x string) string { return "<script>" + html.EscapeString(x) + "</script>" }
func PageCode(x string) string   { return "<p o" + cut("n") + "click=\"" + html.EscapeString(x) + "\">" }
func PageOpen(x string) string   { return "<p title=\"" + html.EscapeString(x) + ">" }
func PageBuilder(x string) string {
	var b strings.Builder
	b.WriteString("<sc")
	b.WriteString("ript>")
	b.WriteString(html.EscapeString(x))
	b.WriteString("</scr")
	b.WriteString("ipt>")
	return b.String()
}

func cut(s string) string { return s }

// ---- storage that changes hands ----

type Pool interface {
	Get() *bytes.Buffer
	Put(*bytes.Buffer)
}

// Frozen holds bytes nobody modifies.
type Frozen struct {
	mu   sync.Mutex
	data []byte
}

func Freeze(p []byte) *Frozen { return &Frozen{data: p} }

func FreezeNew(s string) *Frozen { return Freeze([]byte(s)) }

func FreezeThenWrite(n int) *Frozen {
	p := make([]byte, 4)
	f := Freeze(p)
	p[0] = 1
	return f
}

func FreezeClients(p []byte) *Frozen { return Freeze(p) }

func FreezeGiven(p []byte) *Frozen { return Freeze(p) }

func FreezePooled(pool Pool) *Frozen {
	b := pool.Get()
	defer pool.Put(b)
	b.WriteString("x")
	return Freeze(b.Bytes())
}

func FreezeBuffer() *Frozen {
	var b bytes.Buffer
	b.WriteString("x")
	return Freeze(b.Bytes())
}

func FreezeBufferThenWrite() *Frozen {
	var b bytes.Buffer
	b.WriteString("x")
	f := Freeze(b.Bytes())
	b.WriteString("y")
	return f
}

func FreezeCopied(pool Pool, n int) *Frozen {
	b := pool.Get()
	defer pool.Put(b)
	b.WriteString("x")
	p := b.Bytes()
	if n > 0 {
		p = append([]byte(nil), p...)
	}
	if n <= 0 {
		return nil
	}
	return Freeze(p)
}

func FreezeMaybeCopied(pool Pool, n int) *Frozen {
	b := pool.Get()
	defer pool.Put(b)
	b.WriteString("x")
	p := b.Bytes()
	if n > 0 {
		p = append([]byte(nil), p...)
	}
	return Freeze(p)
}
