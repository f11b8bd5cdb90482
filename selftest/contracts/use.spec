ghost var calls : map Iface Int
ghost var fails : map Iface Int
ghost var last : map Iface Iface
ghost var closes : map Iface Int
ghost var rpos : map Iface Int
ghost fn rat(Iface, Int) Int
ghost fn tri(Int) Int
axiom tri(0) == 0
axiom forall (i : Int) {tri(i)} :: i > 0 ==> tri(i) == tri(i - 1) + i
lemma by i [oklemma:tri] forall (i : Int) {tri(i)} :: i >= 0 ==> 2 * tri(i) == i * (i + 1)
lemma by i [okbase:tri-wrong-base] forall (i : Int) {tri(i)} :: i >= 0 ==> tri(i) >= 0

extern (use.Dev).Do(d, n) (r, err) {
  maypanic
  modifies calls[d], fails[d], last[d]
  panic-ensures calls[d] == old(calls[d]) + 1
  ensures calls[d] == old(calls[d]) + 1
  ensures err != nil ==> fails[d] == old(fails[d]) + 1 && last[d] == err
  ensures err == nil ==> fails[d] == old(fails[d]) && last[d] == old(last[d])
}
extern (io.Closer).Close(c) (err) {
  requires [okclosed] closes[c] == 0
  modifies closes[c]
  ensures closes[c] == old(closes[c]) + 1
}
extern (io.Reader).Read(r, p) (n, err) {
  maypanic
  modifies p[..], rpos[r]
  ensures 0 <= n && n <= len(p)
  ensures rpos[r] == old(rpos[r]) + n
  ensures forall k in 0..n :: p[k] == rat(r, old(rpos[r]) + k)
}

func use.Half(n) (r) {
  props C01
  nopanic
  requires n >= 0
  ensures [ok] 2 * r <= n && n <= 2 * r + 1
}
func use.CallHalf(n) (r) {
  props C01
  requires n >= 0
  ensures [ok] r <= n && n <= r + 1
  ensures [bad] r == n
}
func use.CallHalfNeg(n) (r) {
  props C01
  requires n >= 0
}
func use.SetAll(p) {
  props C01
  modifies p[..]
  nopanic
  loop forall k in 0.._i1 :: p[k] == 9
  ensures [ok] forall k in 0..len(p) :: p[k] == 9
}
func use.CallSetAll(p, q) (r) {
  props C01
  requires len(q) > 0
  modifies p[..]
  ensures [bad] r == old(q[0])
  ensures [ok] ref(p) != ref(q) ==> r == old(q[0])
  ensures [ok2] ref(p) == ref(q) && off(p) == off(q) && len(p) > 0 ==> r == 9
}
func use.SilentWrite(p) {
  props C01
  requires len(p) > 0
}

func use.Once(d) (n, err) {
  props C01
  requires d != nil
  maypanic
  modifies calls[d], fails[d], last[d]
  ensures [ok] calls[d] == old(calls[d]) + 1
  ensures [ok2] err != nil ==> err == last[d]
  ensures [bad] err == nil
  ensures [bad2] n >= 0
}
func use.Twice(d) (n, err) {
  props C01
  requires d != nil
  maypanic
  modifies calls[d], fails[d], last[d]
  ensures [ok] err == nil ==> calls[d] == old(calls[d]) + 2 && fails[d] == old(fails[d])
  ensures [ok2] err != nil ==> fails[d] == old(fails[d]) + 1 && err == last[d]
  ensures [bad] calls[d] == old(calls[d]) + 2
}
func use.Retry(d) (err) {
  props C01
  requires d != nil
  maypanic
  modifies calls[d], fails[d], last[d]
  ensures [bad] fails[d] > old(fails[d]) ==> err != nil
  ensures [ok] fails[d] > old(fails[d]) + 1 ==> err != nil
}
func use.Swallow(d) (err) {
  props C01
  requires d != nil
  maypanic
  modifies calls[d], fails[d], last[d]
  ensures [bad] fails[d] > old(fails[d]) ==> err != nil
}
func use.Loop(d, n) (done, err) {
  props C01
  requires d != nil && n >= 0
  maypanic
  modifies calls[d], fails[d], last[d]
  loop calls[d] == old(calls[d]) + _i1
  ensures [ok] err == nil ==> done == n && calls[d] == old(calls[d]) + n
  ensures [ok2] err != nil ==> done < n
  ensures [bad] calls[d] == old(calls[d]) + done
}
func use.LoopWrong(d, n) (done, err) {
  props C01
  requires d != nil && n >= 0
  maypanic
  modifies calls[d], fails[d], last[d]
  ensures [bad] err != nil ==> done < n
  ensures [ok] done <= n
}
func use.PassError(d) (err) {
  props C01
  requires d != nil
  maypanic
  modifies calls[d], fails[d], last[d]
  ensures [ok] calls[d] == old(calls[d]) + 2
  ensures [ok2] fails[d] > old(fails[d]) ==> err != nil
  ensures [bad] fails[d] > old(fails[d]) ==> err == last[d]
}
func use.Must(n) (r) {
  props C01
  nopanic
  panics when n < 0
  ensures [ok] r == n
}
func use.CallMust(n) (r) {
  props C01
}
func use.CallMustCaught(n) (r) {
  props C01
  ensures [ok] n >= 0 ==> r == n
  ensures [ok2] n < 0 ==> r == -1
  ensures [bad] r == n
}
func use.AfterPanic(d) (ok) {
  props C01
  requires d != nil
  maypanic
  modifies calls[d], fails[d], last[d]
  panic-ensures [ok] calls[d] == old(calls[d]) + 1
  ensures [bad] fails[d] == old(fails[d])
}
func use.Rethrow(d) {
  props C01
  requires d != nil
  maypanic
  modifies calls[d], fails[d], last[d]
  panic-ensures [ok] calls[d] == old(calls[d]) + 1
  panic-ensures [bad] calls[d] == old(calls[d])
}
func use.ReadAll(r, p) (n, err) {
  props C01
  requires r != nil
  maypanic
  modifies p[..], rpos[r]
  loop rpos[r] == old(rpos[r]) + _i1
  loop forall k in 0.._i1 :: p[k] == rat(r, old(rpos[r]) + k)
  ensures [ok] rpos[r] == old(rpos[r]) + n
  ensures [ok2] forall k in 0..n :: p[k] == rat(r, old(rpos[r]) + k)
  ensures [bad] n == len(p)
}
func use.ReadAllWrong(r, p) (n, err) {
  props C01
  requires r != nil
  maypanic
  modifies p[..], rpos[r]
  loop rpos[r] == old(rpos[r]) + _i1
  loop forall k in 0.._i1 :: p[k] == rat(r, old(rpos[r]) + k)
  ensures [ok] rpos[r] == old(rpos[r]) + n
  ensures [bad] forall k in 0..min(n, len(p)) :: p[k] == rat(r, old(rpos[r]) + k)
}
func use.CloseTwice(c) (err) {
  props C01
  requires c != nil && closes[c] == 0
  modifies closes[c]
}

type use.Hub {
  lock mu rank 1
  inv [okhub] self.seen != nil && self.users == len(self.seen)
}
func (*use.Hub).Join(h, u) {
  props C01
  requires h != nil
  ensures [ok] has(h.seen, u)
  ensures [bad] h.users == old(h.users) + 1
}
func (*use.Hub).JoinWrong(h, u) {
  props C01
  requires h != nil
}
func (*use.Hub).Leave(h, u) {
  props C01
  requires h != nil
  ensures [ok] !has(h.seen, u)
  ensures [bad] h.users == old(h.users) - 1
}
func (*use.Hub).LeaveWrong(h, u) {
  props C01
  requires h != nil
}

ghost fn htmlesc(Str) Str
ghost fn hs(Int, Str) Int
axiom forall (q : Int, a : Str, b : Str) {hs(q, a + b)} :: hs(q, a + b) == hs(hs(q, a), b)
axiom forall (q : Int, x : Str) {hs(q, htmlesc(x))} :: q == 0 || q == 2 || q == 3 ==> hs(q, htmlesc(x)) == q
extern html.EscapeString(s) (t) {
  ensures t == htmlesc(s)
}
type strings.Builder {
  ghost s Str
}
extern (*strings.Builder).WriteString(b, x) (n, err) {
  modifies b.s
  ensures b.s == old(b.s) + x && n == len(x) && err == nil
}
extern (*strings.Builder).String(b) (r) {
  ensures r == b.s
}
func use.Page(x) (s) {
  props C01
  ensures [ok] hs(0, s) == 0
}
func use.PageSplit(x) (s) {
  props C01
  ensures [ok] hs(0, s) == 0
}
func use.PageBare(x) (s) {
  props C01
  ensures [bad] hs(0, s) == 0
}
func use.PageRaw(x) (s) {
  props C01
  ensures [bad] hs(0, s) == 0
}
func use.PageScript(x) (s) {
  props C01
  ensures [bad] hs(0, s) == 0
}
func use.PageCode(x) (s) {
  props C01
  ensures [bad] hs(0, s) == 0
}
func use.PageOpen(x) (s) {
  props C01
  ensures [bad] hs(0, s) == 0
}
func use.PageBuilder(x) (s) {
  props C01
  ensures [bad] hs(0, s) == 0
}

# ---- storage that changes hands ----

type bytes.Buffer {
  ghost n Int
}
extern (use.Pool).Get(o) (b) {
  fresh b
  ensures b != nil && b.n == 0
}
extern (use.Pool).Put(o, b) {
  modifies b.n, storage(b)
}
extern (*bytes.Buffer).Bytes(b) (p) {
  owned p
  ensures len(p) == b.n && p != nil && ownedby(p, b)
}
extern (*bytes.Buffer).WriteString(b, s) (n, err) {
  modifies b.n, storage(b)
  ensures err == nil && n == len(s) && b.n == old(b.n) + n
}
type use.Frozen {
  lock mu rank 1
  const data
  immutable data
}
func use.Freeze(p) (f) {
  props C01
  opaque
  nopanic
  immutable p
  ensures [ok] fresh(f) && same(f.data, p)
}
func use.FreezeNew(s) (f) {
  props C01
  nopanic
  ensures [ok] len(f.data) == len(s) && forall k in 0..len(s) :: f.data[k] == s[k]
  ensures [bad] len(f.data) == 0
}
func use.FreezeThenWrite(n) (f) {
  props C01
  ensures [ok] len(f.data) == 4
}
func use.FreezeClients(p) (f) {
  props C01
  ensures [ok] same(f.data, p)
}
func use.FreezeGiven(p) (f) {
  props C01
  immutable p
  ensures [ok] same(f.data, p)
}
func use.FreezePooled(o) (f) {
  props C01
  requires o != nil
  ensures [ok] len(f.data) == 1
}
func use.FreezeBuffer() (f) {
  props C01
  ensures [ok] len(f.data) == 1
  ensures [bad] len(f.data) == 2
}
func use.FreezeBufferThenWrite() (f) {
  props C01
  ensures [ok] len(f.data) == 1
}
func use.FreezeCopied(o, n) (f) {
  props C01
  requires o != nil
  ensures [ok] f != nil ==> len(f.data) == 1
}
func use.FreezeMaybeCopied(o, n) (f) {
  props C01
  requires o != nil
  ensures [ok] len(f.data) == 1
}
