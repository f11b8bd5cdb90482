func lang.Add(a, b) (r) {
  props C01
  ensures [bad] r == a + b
}
func lang.AddSmall(a, b) (r) {
  props C01
  requires 0 <= a && a <= 1000 && 0 <= b && b <= 1000
  ensures [ok] r == a + b
  ensures [bad] r == a + b + 1
  ensures [bad2] r > a
}
func lang.Narrow(a) (r) {
  props C01
  ensures [bad] r == a
  ensures [ok] 0 <= a && a <= 2147483647 ==> r == a
  ensures [ok2] a == 2147483648 ==> r == -2147483648
}
func lang.Byte(a) (r) {
  props C01
  ensures [ok] a == 256 ==> r == 0
  ensures [ok2] a == -1 ==> r == 255
  ensures [bad] r == a
}
func lang.Div(a, b) (q, r) {
  props C01
  requires b != 0
  ensures [ok] a == 7 && b == 2 ==> q == 3 && r == 1
  ensures [ok2] a == -7 && b == 2 ==> q == -3 && r == -1
  ensures [bad] a == -7 && b == 2 ==> q == -4
  ensures [bad2] r >= 0
}
func lang.DivGuard(a, b) (r) {
  props C01
  nopanic
  ensures [ok] b == 0 ==> r == 0
  ensures [bad] b == 1 ==> r == a + 1
}
func lang.Neg(a) (r) {
  props C01
  ensures [bad] r == 0 - a
  ensures [ok] a > 0 ==> r == 0 - a
}
func lang.And(a) (r) {
  props C01
  ensures [inc-ok] 0 <= r && r <= 7
  ensures [bad] r <= 6
}
func lang.Unsigned(a, b) (r) {
  props C01
  ensures [ok] a >= b ==> r == a - b
  ensures [bad] r == a - b
  ensures [bad2] r <= a
}
func lang.Abs(a) (r) {
  props C01
  ensures [bad] r >= 0
  ensures [ok] a > -5 ==> r >= 0
}
func lang.Max(xs) (m) {
  props C01
  loop forall k in 0.._i1 :: xs[k] <= _i2
  ensures [ok] m >= 0
  ensures [ok2] forall k in 0..len(xs) :: xs[k] <= m
  ensures [bad] m > 0
  ensures [bad2] forall k in 0..len(xs) :: xs[k] < m
}
func lang.Set(p, i, v) {
  props C01
  requires 0 <= i && i < len(p)
  modifies p[i:i+1]
  ensures [ok] p[i] == v
  ensures [ok2] forall k in 0..i :: p[k] == old(p[k])
  ensures [bad] p[0] == old(p[0])
}
func lang.SetTwo(p, q) (r) {
  props C01
  requires len(p) > 0 && len(q) > 0
  modifies p[0:1], q[0:1]
  ensures [bad] r == 1
  ensures [ok] r == 1 || r == 2
  ensures [bad2] r == 2
}
func lang.Cut(p, i, j) (q) {
  props C01
  requires 0 <= i && i <= j && j <= len(p)
  ensures [ok] len(q) == j - i
  ensures [ok2] forall k in 0..len(q) :: q[k] == p[i + k]
  ensures [bad] cap(q) == j - i
}
func lang.AppendShared(p) (a, b) {
  props C01
  modifies p[..]
  ensures [ok] len(a) == len(p) + 1 && len(b) == len(p) + 1
  ensures [ok2] b[len(p)] == 2
  ensures [bad] a[len(p)] == 1
}
func lang.AppendClone(p) (q) {
  props C01
  ensures [ok] len(q) == len(p) && forall k in 0..len(p) :: q[k] == p[k]
  ensures [bad] len(q) > 0
}
func lang.CopyOverlap(p) (n) {
  props C01
  requires len(p) == 3
  modifies p[..]
  ensures [ok] n == 2 && p[1] == old(p[0]) && p[2] == old(p[1])
  ensures [bad] p[2] == old(p[0])
}
func lang.Fill(p, v) {
  props C01
  modifies p[..]
  loop forall k in 0.._i1 :: p[k] == v
  ensures [ok] forall k in 0..len(p) :: p[k] == v
  ensures [bad] forall k in 0..len(p) :: p[k] == old(p[k])
}
func lang.FillOffByOne(p, v) {
  props C01
  modifies p[..]
  loop forall k in 1.._i1 :: p[k] == v
  loop len(p) > 0 ==> p[0] == old(p[0])
  ensures [bad] forall k in 0..len(p) :: p[k] == v
  ensures [ok] forall k in 1..len(p) :: p[k] == v
  ensures [ok2] len(p) > 0 ==> p[0] == old(p[0])
}
func lang.Sum(p) (s) {
  props C01
  loop _i1 == 0 ==> _i2 == 0
  ensures [inc-ok] len(p) == 0 ==> s == 0
  ensures [bad] s == 0
}
func lang.Index(p, v) (r) {
  props C01
  loop forall k in 0.._i1 :: p[k] != v
  ensures [ok] r >= 0 ==> r < len(p) && p[r] == v
  ensures [ok2] r < 0 ==> forall k in 0..len(p) :: p[k] != v
  ensures [ok3] forall k in 0..r :: p[k] != v
  ensures [bad] r >= 0 ==> forall k in r+1..len(p) :: p[k] != v
}
func lang.LastIndex(p, v) (r) {
  props C01
  ensures [ok] r >= 0 ==> r < len(p) && p[r] == v
  ensures [bad] forall k in 0..r :: p[k] != v
}
func lang.Reverse(p) {
  props C01
  modifies p[..]
  ensures [bad] forall k in 0..len(p) :: p[k] == old(p[k])
}
func lang.MakeN(n) (p) {
  props C01
  requires 0 <= n && n <= 1000
  ensures [ok] len(p) == n && forall k in 0..n :: p[k] == 0
  ensures [bad] cap(p) > n
}
func lang.ThreeIndex(p) (q) {
  props C01
  requires len(p) > 2
  ensures [ok] len(q) == 3 && q[2] == 9 && q[0] == p[0]
  ensures [bad] p[2] == 9
}
func lang.ArrayCopy() (b) {
  props C01
  ensures [inc-ok] b == 1
  ensures [bad] b == 7
}
func lang.AliasWrite(a, b) (r) {
  props C01
  requires a != nil && b != nil
  modifies a.X, b.X
  ensures [bad] r == 1
  ensures [ok] a == b ==> r == 2
  ensures [ok2] a != b ==> r == 1
}
func lang.CopyStruct(p) (r) {
  props C01
  requires p != nil
  ensures [ok] r == old(p.X)
  ensures [bad] r == 99
}
func lang.Embedded(b) (r) {
  props C01
  requires b != nil
  modifies b.q
  ensures [ok] r == 5
  ensures [bad] r == old(b.q.X)
}
func lang.Deref(p) (r) {
  props C01
  nopanic
  ensures [ok] p != nil ==> r == p.X
}
func lang.NewPt(x) (p) {
  props C01
  ensures [ok] p != nil && fresh(p) && p.X == x && p.Y == 0
  ensures [bad] p.Y == x
}
func lang.TwoNew() (b) {
  props C01
  ensures [ok] !b
  ensures [bad] b
}
func lang.LoopNew(n) (a, b) {
  props C01
  ensures [bad] a == b
  ensures [bad2] a != b
}
func lang.UseEscape() (r) {
  props C01
  ensures [ok] r == 2
  ensures [bad] r == 1
}
func lang.Captured() (r) {
  props C01
  ensures [ok] r == 2
  ensures [bad] r == 1
}
func lang.SwapFields(b) {
  props C01
  requires b != nil
  modifies b.q
  ensures [ok] b.q.X == old(b.q.Y) && b.q.Y == old(b.q.X)
  ensures [bad] b.q.X == old(b.q.X)
}
func lang.MapSet(m, k, v) {
  props C01
  requires m != nil
  modifies m[..]
  ensures [ok] has(m, k) && m[k] == v
  ensures [ok2] forall x string :: x != k ==> (has(m, x) <==> old(has(m, x)))
  ensures [bad] forall x string :: has(m, x) <==> old(has(m, x))
  ensures [bad2] len(m) == old(len(m)) + 1
}
func lang.MapGet(m, k) (v, ok) {
  props C01
  ensures [ok] ok <==> m != nil && has(m, k)
  ensures [ok2] !ok ==> v == 0
  ensures [bad] ok
}
func lang.MapDel(m, k) {
  props C01
  modifies m[..]
  ensures [ok] m != nil ==> !has(m, k)
  ensures [bad] m != nil ==> len(m) == old(len(m)) - 1
}
func lang.MapCopy(m) (q) {
  props C01
  loop forall k string :: has(_d1, k) <==> _v1[k]
  loop forall k string :: has(_d1, k) ==> _d1[k] == m[k]
  ensures [ok] forall k string :: has(q, k) <==> m != nil && has(m, k)
  ensures [ok2] forall k string :: has(q, k) ==> q[k] == m[k]
  ensures [bad] q == m
  ensures [bad2] len(q) > 0
}
func lang.MapCopySome(m) (q) {
  props C01
  loop forall k string :: has(_d1, k) ==> has(m, k) && _d1[k] == m[k]
  ensures [bad] forall k string :: has(q, k) <==> m != nil && has(m, k)
  ensures [ok] forall k string :: has(q, k) ==> m != nil && has(m, k) && q[k] == m[k]
}
func lang.MapNil() {
  props C01
  nopanic
  ensures [ok] true
}
func lang.MapLen(m) (n) {
  props C01
  requires m != nil
  modifies m[..]
  ensures [inc-ok] n >= 2
  ensures [bad] n == old(len(m)) + 2
}
func lang.Cat(a, b) (s) {
  props C01
  ensures [ok] len(s) == len(a) + len(b)
  ensures [bad] len(s) > len(a)
}
func lang.Sub(s, i, j) (t) {
  props C01
  requires 0 <= i && i <= j && j <= len(s)
  ensures [ok] len(t) == j - i
  ensures [bad] t == s
}
func lang.Bytes(s) (p) {
  props C01
  ensures [ok] len(p) == len(s)
  ensures [bad] len(p) > 0
}
func lang.StrThenWrite(p) (s) {
  props C01
  modifies p[0:1]
  ensures [ok] len(s) == len(p)
}
func lang.Boom(b) {
  props C01
  panics when b
  nopanic
  panic-ensures panic == lang.ErrX
  ensures [ok] !b
}
func lang.Recovers(b) (err) {
  props C01
  nopanic
  ensures [ok] b ==> err == lang.ErrX
  ensures [ok2] !b ==> err == nil
  ensures [bad] err == nil
}
func lang.RecoverTooFar(f) (err) {
  props C01
  nopanic
  ensures [ok] true
}
func lang.DeferOrder() (s) {
  props C01
  ensures [ok] s == 321
  ensures [bad] s == 312
}
func lang.DeferArg() (r) {
  props C01
  ensures [ok] r == 1
  ensures [bad] r == 2
}
func lang.DeferLoop(n) (r) {
  props C01
  ensures [inc-ok] r == 10
  ensures [bad] r == 1
}
func lang.NamedResult() (n, err) {
  props C01
  ensures [ok] n == -1 && err == lang.ErrX
  ensures [bad] n == 5
}
func lang.IndexPanics(p, i) (r) {
  props C01
  panics when i < 0 || i >= len(p)
  ensures [ok] r == p[i]
}
func lang.AssertType(x) (r) {
  props C01
  nopanic
  ensures [ok] x is int ==> r == x.(int)
}
func lang.RePanic() {
  props C01
  panics when true
  panic-ensures [ok] panic == lang.ErrY
  panic-ensures [bad] panic == lang.ErrX
}
func lang.Kind(x) (r) {
  props C01
  ensures [ok] x == nil ==> r == 0
  ensures [ok2] x is int ==> r == 1
  ensures [ok3] x is *lang.Rect ==> r == 3
  ensures [bad] r <= 3
  ensures [bad2] x is int ==> r == 2
}
func lang.TypedNil() (b) {
  props C01
  ensures [ok] !b
  ensures [bad] b
}
func lang.Dyn(b) (r) {
  props C01
  ensures [ok] b ==> r == 3
  ensures [ok2] !b ==> r == 4
  ensures [bad] r == 3
}
func lang.IfaceEq(a) (b) {
  props C01
  ensures [ok] !b
  ensures [bad] b
}
func lang.Nested(n, m) (c) {
  props C01
  requires n <= 1000 && m <= 1000
  ensures [inc-ok] n <= 0 ==> c == 0
  ensures [bad] c == 0
}
func lang.Switch(x) (r) {
  props C01
  ensures [ok] x == 0 ==> r == 10
  ensures [bad] x == 0 ==> r == 20
}
func lang.Goto(n) (r) {
  props C01
  loop _i1 <= n
  ensures [inc-ok] n >= 0 ==> r == n
  ensures [bad] r == n
}
func lang.ShortCircuit(p) (b) {
  props C01
  nopanic
  ensures [ok] p == nil ==> !b
  ensures [bad] !b
}
func lang.Shadow(a) (r) {
  props C01
  ensures [ok] r == a
  ensures [bad] a > 0 ==> r == 5
}

type lang.Counter {
  lock mu rank 1
  inv [okinv] self.n == self.m
}
func (*lang.Counter).Inc(c) {
  props C01
  requires c != nil
  assumes c.n < 1000
  ensures [ok] c.n == old(c.n) + 1
  ensures [bad] c.n == old(c.n)
}
func (*lang.Counter).Get(c) (n) {
  props C01
  requires c != nil
  ensures [ok] n == c.n && c.n == old(c.n)
}
func (*lang.Counter).GetRacy(c) (n) {
  props C01
  requires c != nil
}
func (*lang.Counter).GetTwice(c) (n) {
  props C01
  requires c != nil
  ensures [bad] n == 0
}
func (*lang.Counter).Broken(c) {
  props C01
  requires c != nil
}
func (*lang.Counter).NoUnlock(c, b) {
  props C01
  requires c != nil
}
func (*lang.Counter).PanicHolds(c, f) {
  props C01
  requires c != nil && f != nil
  maypanic
}
func (*lang.Counter).Twice(c) {
  props C01
  requires c != nil
}
func (*lang.Counter).Two(c, d) {
  props C01
  requires c != nil && d != nil && c != d
}
func (*lang.Counter).EarlyRead(c) (n) {
  props C01
  requires c != nil
  ensures [ok] n == c.m
}
func (*lang.Counter).After(c) {
  props C01
  requires c != nil
}
