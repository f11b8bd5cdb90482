// Package lang exercises govc: the contracts in ../../contracts hold or fail
// as their labels say ("ok…" must be discharged, "bad…" must not be).
package lang

import (
	"errors"
	"sync"
)

// ---- integers ----

func Add(a, b int) int        { return a + b }
func AddSmall(a, b int) int   { return a + b }
func Narrow(a int64) int32    { return int32(a) }
func Byte(a int) byte         { return byte(a) }
func Div(a, b int) (q, r int) { return a / b, a % b }
func DivGuard(a, b int) int {
	if b == 0 {
		return 0
	}
	return a / b
}
func Neg(a int) int           { return -a }
func Shift(a int, k uint) int { return a << k }
func And(a int) int           { return a & 7 }
func Unsigned(a, b uint) uint { return a - b }
func Abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}
func Max(xs ...int) int {
	m := 0
	for _, x := range xs {
		if x > m {
			m = x
		}
	}
	return m
}

// ---- slices ----

func Set(p []byte, i int, v byte) { p[i] = v }
func SetTwo(p, q []byte) byte {
	p[0] = 1
	q[0] = 2
	return p[0]
}
func Cut(p []int, i, j int) []int { return p[i:j] }
func AppendShared(p []int) (a, b []int) {
	a = append(p, 1)
	b = append(p, 2)
	return
}
func AppendClone(p []int) []int { return append([]int(nil), p...) }
func CopyOverlap(p []byte) int {
	return copy(p[1:], p)
}
func Fill(p []byte, v byte) {
	for i := range p {
		p[i] = v
	}
}
func FillOffByOne(p []byte, v byte) {
	for i := 1; i < len(p); i++ {
		p[i] = v
	}
}
func Sum(p []byte) (s int) {
	for _, v := range p {
		s += int(v)
	}
	return
}
func Index(p []byte, v byte) int {
	for i, x := range p {
		if x == v {
			return i
		}
	}
	return -1
}
func LastIndex(p []byte, v byte) int {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == v {
			return i
		}
	}
	return -1
}
func Reverse(p []int) {
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
}
func MakeN(n int) []int { return make([]int, n) }
func ThreeIndex(p []int) []int {
	q := p[:2:2]
	q = append(q, 9)
	return q
}
func ArrayCopy() int {
	a := [3]int{1, 2, 3}
	b := a
	b[0] = 7
	return a[0]
}

// ---- pointers and structs ----

type Pt struct{ X, Y int }
type Box struct {
	p  *Pt
	q  Pt
	xs []int
}

func Swap(a, b *int)          { *a, *b = *b, *a }
func AliasWrite(a, b *Pt) int { a.X = 1; b.X = 2; return a.X }
func CopyStruct(p *Pt) int    { q := *p; q.X = 99; return p.X }
func Embedded(b *Box) int     { p := &b.q; p.X = 5; return b.q.X }
func Deref(p *Pt) int         { return p.X }
func NewPt(x int) *Pt         { return &Pt{X: x} }
func TwoNew() bool            { return new(Pt) == new(Pt) }
func LoopNew(n int) (a, b *Pt) {
	for i := 0; i < n; i++ {
		b = a
		a = &Pt{X: i}
	}
	return
}
func Escape() func() int {
	x := 0
	return func() int { x++; return x }
}
func UseEscape() int { f := Escape(); f(); return f() }
func Captured() int {
	x := 1
	func() { x = 2 }()
	return x
}
func SwapFields(b *Box) { b.q.X, b.q.Y = b.q.Y, b.q.X }

// ---- maps ----

func MapSet(m map[string]int, k string, v int) { m[k] = v }
func MapGet(m map[string]int, k string) (int, bool) {
	v, ok := m[k]
	return v, ok
}
func MapDel(m map[string]int, k string) { delete(m, k) }
func MapCopy(m map[string]int) map[string]int {
	out := make(map[string]int, len(m))
	for k, v := range m {
		out[k] = v
	}
	return out
}
func MapCopySome(m map[string]int) map[string]int {
	out := make(map[string]int, len(m))
	for k, v := range m {
		if v == 0 {
			continue
		}
		out[k] = v
	}
	return out
}
func MapNil()                     { var m map[string]int; m["a"] = 1 }
func MapLen(m map[string]int) int { m["a"] = 1; m["b"] = 2; return len(m) }

// ---- strings ----

func Cat(a, b string) string        { return a + b }
func Sub(s string, i, j int) string { return s[i:j] }
func Bytes(s string) []byte         { return []byte(s) }
func Str(p []byte) string           { return string(p) }
func StrThenWrite(p []byte) string {
	s := string(p)
	if len(p) > 0 {
		p[0]++
	}
	return s
}
func Eq(a, b string) bool { return a == b }

// ---- panics, defer, recover ----

var ErrX = errors.New("x")
var ErrY = errors.New("y")

func Boom(b bool) {
	if b {
		panic(ErrX)
	}
}
func Recovers(b bool) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = x.(error)
		}
	}()
	Boom(b)
	return nil
}
func RecoverTooFar(f func()) (err error) {
	defer func() {
		x := recover()
		if x != nil {
			err = x.(error)
		}
	}()
	f()
	return nil
}
func DeferOrder() (s int) {
	defer func() { s = s*10 + 1 }()
	defer func() { s = s*10 + 2 }()
	return 3
}
func DeferArg() (r int) {
	x := 1
	defer func(y int) { r = y }(x)
	x = 2
	return x
}
func DeferLoop(n int) (r int) {
	for i := 0; i < 2; i++ {
		i := i
		defer func() { r = r*10 + i }()
	}
	return 0
}
func NamedResult() (n int, err error) {
	defer func() {
		if err != nil {
			n = -1
		}
	}()
	return 5, ErrX
}
func IndexPanics(p []int, i int) int { return p[i] }
func AssertType(x interface{}) int   { return x.(int) }
func RePanic() {
	defer func() {
		if x := recover(); x != nil {
			panic(ErrY)
		}
	}()
	panic(ErrX)
}

// ---- interfaces ----

type Shape interface{ Area() int }
type Sq struct{ s int }
type Rect struct{ a, b int }

func (q Sq) Area() int    { return q.s }
func (r *Rect) Area() int { return r.a }

func Kind(x interface{}) int {
	switch x.(type) {
	case nil:
		return 0
	case int:
		return 1
	case error:
		return 2
	case *Rect, Sq:
		return 3
	}
	return 4
}
func TypedNil() bool {
	var r *Rect
	var s Shape = r
	return s == nil
}
func Dyn(b bool) int {
	var s Shape
	if b {
		s = Sq{3}
	} else {
		s = &Rect{4, 5}
	}
	return s.Area()
}
func IfaceEq(a int) bool {
	var x, y interface{} = a, int64(a)
	return x == y
}

// ---- control ----

func Nested(n, m int) (c int) {
outer:
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			if j > i {
				continue outer
			}
			c++
		}
	}
	return
}
func Switch(x int) int {
	switch {
	case x < 0:
		return -1
	case x == 0:
		fallthrough
	case x == 1:
		return 10
	}
	return 20
}
func Goto(n int) int {
	i := 0
top:
	if i < n {
		i++
		goto top
	}
	return i
}
func ShortCircuit(p *Pt) bool { return p != nil && p.X == 1 }
func Shadow(a int) int {
	x := a
	if a > 0 {
		x := 5
		_ = x
	}
	return x
}

// ---- locks ----

type Counter struct {
	mu sync.Mutex
	n  int
	m  int
}

func (c *Counter) Inc() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	c.m++
}
func (c *Counter) Get() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.n
}
func (c *Counter) GetRacy() int { return c.n }
func (c *Counter) GetTwice() int {
	c.mu.Lock()
	a := c.n
	c.mu.Unlock()
	c.mu.Lock()
	b := c.n
	c.mu.Unlock()
	return b - a
}
func (c *Counter) Broken() {
	c.mu.Lock()
	c.n++
	c.mu.Unlock()
}
func (c *Counter) NoUnlock(b bool) {
	c.mu.Lock()
	if b {
		return
	}
	c.mu.Unlock()
}
func (c *Counter) PanicHolds(f func()) {
	c.mu.Lock()
	f()
	c.mu.Unlock()
}
func (c *Counter) Twice() {
	c.mu.Lock()
	c.mu.Lock()
	c.mu.Unlock()
	c.mu.Unlock()
}
func (c *Counter) Two(d *Counter) {
	c.mu.Lock()
	d.mu.Lock()
	d.mu.Unlock()
	c.mu.Unlock()
}
func (c *Counter) EarlyRead() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	p := &c.n
	*p = 7
	*p = c.m
	return *p
}
func (c *Counter) After() {
	c.mu.Lock()
	p := &c.n
	c.mu.Unlock()
	*p = 0
}
