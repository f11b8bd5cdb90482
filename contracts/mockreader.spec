# ---- the scripted reader used by the tests ----
# (written by tools/mkmock.py)

type mockreader.MockReader {
  lock mu rank 1
  inv [C25:position] self.index <= len(self.expect)
  inv [C25:script] forall i in 0..len(self.expect) :: mscripted(self.expect[i])
}

# what ExpectRead and ExpectReadAt promise about an expectation
define mscripted(x) = x.op == mockreader.ReadOp || x.op == mockreader.ReadAtOp ==> 0 <= x.output0 && x.output0 <= len(x.input0)
# the next expectation accepts a call of this kind with these arguments
define mnext(r) = r != nil && r.index < len(r.expect)
define maccepts(r, kind, n, i1, i2, s) = mnext(r) && r.expect[r.index].op == kind && len(r.expect[r.index].input0) == n &&
  r.expect[r.index].input1 == i1 && r.expect[r.index].input2 == i2 && r.expect[r.index].input3 == s
define mconsumed(r) = r != nil ==> r.index == old(r.index) + ite(old(mnext(r)), 1, 0) && r.expect == old(r.expect)
define mblames(p, r) = p is mockreader.ExpectationFailedError && p.(mockreader.ExpectationFailedError).Index == ite(r == nil, 0, old(r.index)) &&
  (old(mnext(r)) ==> mexp(p.(mockreader.ExpectationFailedError).Expect, old(r.expect[r.index]))) &&
  (!old(mnext(r)) ==> p.(mockreader.ExpectationFailedError).Expect.op == mockreader.UnknownOp)
define mexp(x, @y) = x.op == y.op && x.input1 == y.input1 && x.input2 == y.input2 && x.input3 == y.input3 && x.input0 == y.input0 &&
  x.output0 == y.output0 && x.output1 == y.output1 && x.output2 == y.output2
define mcall(x, kind, n, i1, i2, s) = x.op == kind && len(x.input0) == n && x.input1 == i1 && x.input2 == i2 && x.input3 == s

func (mockreader.Expectation).Matches(x, y) (ok) {
  props C25
  nopanic
  ensures [C25:matches] ok <==> x.op == y.op && x.input1 == y.input1 && x.input2 == y.input2 && x.input3 == y.input3 && len(x.input0) == len(y.input0)
}
func mockreader.New(list) (r) {
  props C25
  requires forall i in 0..len(list) :: mscripted(list[i])
  ensures [C25:script] fresh(r) && r.index == 0 && len(r.expect) == len(list) && forall i in 0..len(list) :: mexp(r.expect[i], list[i])
}

func mockreader.ExpectMark(str) (x) {
  props C25
  ensures [C25:expectation] x.op == mockreader.MarkOp && len(x.input0) == 0 && x.input1 == 0 && x.input2 == 0 && x.input3 == str && x.output0 == 0 && x.output1 == nil && x.output2 == nil
  ensures [C25:script] mscripted(x)
}
func mockreader.ExpectStat(fi, err) (x) {
  props C25
  ensures [C25:expectation] x.op == mockreader.StatOp && len(x.input0) == 0 && x.input1 == 0 && x.input2 == 0 && x.input3 == "" && x.output0 == 0 && x.output1 == fi && x.output2 == err
  ensures [C25:script] mscripted(x)
}
func mockreader.ExpectRead(p, n, err) (x) {
  props C25
  panics when n < 0 || n > len(p)
  ensures [C25:expectation] x.op == mockreader.ReadOp && x.input0 == p && x.input1 == 0 && x.input2 == 0 && x.input3 == "" && x.output0 == n && x.output1 == nil && x.output2 == err
  ensures [C25:script] mscripted(x)
}
func mockreader.ExpectReadAt(p, offset, n, err) (x) {
  props C25
  panics when n < 0 || n > len(p)
  ensures [C25:expectation] x.op == mockreader.ReadAtOp && x.input0 == p && x.input1 == offset && x.input2 == 0 && x.input3 == "" && x.output0 == n && x.output1 == nil && x.output2 == err
  ensures [C25:script] mscripted(x)
}
func mockreader.ExpectSeek(offset, whence, newOffset, err) (x) {
  props C25
  ensures [C25:expectation] x.op == mockreader.SeekOp && len(x.input0) == 0 && x.input1 == offset && x.input2 == whence && x.input3 == "" && x.output0 == newOffset && x.output1 == nil && x.output2 == err
  ensures [C25:script] mscripted(x)
}
func mockreader.ExpectClose(err) (x) {
  props C25
  ensures [C25:expectation] x.op == mockreader.CloseOp && len(x.input0) == 0 && x.input1 == 0 && x.input2 == 0 && x.input3 == "" && x.output0 == 0 && x.output1 == nil && x.output2 == err
  ensures [C25:script] mscripted(x)
}

func (*mockreader.MockReader).Mark(r, str) {
  props C25
  nilable
  let ok = r == nil || old(maccepts(r, mockreader.MarkOp, 0, 0, 0, str))
  let x = old(r.expect[r.index])
  modifies r.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, r) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.MarkOp, 0, 0, 0, str)
  panic-ensures [C25:consumed] mconsumed(r)
  ensures [C25:consumed] mconsumed(r)
}
func (*mockreader.MockReader).Stat(r) (fi, err) {
  props C25
  nilable
  let ok = old(maccepts(r, mockreader.StatOp, 0, 0, 0, ""))
  let x = old(r.expect[r.index])
  modifies r.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, r) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.StatOp, 0, 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(r)
  ensures [C25:consumed] mconsumed(r)
  ensures [C25:results] fi == x.output1 && err == x.output2
}
func (*mockreader.MockReader).Read(r, p) (n, err) {
  props C25
  nilable
  let ok = old(maccepts(r, mockreader.ReadOp, len(p), 0, 0, ""))
  let x = old(r.expect[r.index])
  modifies r.index, p[..]
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, r) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.ReadOp, len(p), 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(r)
  ensures [C25:consumed] mconsumed(r)
  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:bytes] forall k in 0..n :: p[k] == old(r.expect[r.index].input0[k])
  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])
}
func (*mockreader.MockReader).ReadAt(r, p, offset) (n, err) {
  props C25
  nilable
  let ok = old(maccepts(r, mockreader.ReadAtOp, len(p), offset, 0, ""))
  let x = old(r.expect[r.index])
  modifies r.index, p[..]
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, r) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.ReadAtOp, len(p), offset, 0, "")
  panic-ensures [C25:consumed] mconsumed(r)
  ensures [C25:consumed] mconsumed(r)
  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:bytes] forall k in 0..n :: p[k] == old(r.expect[r.index].input0[k])
  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])
}
func (*mockreader.MockReader).Seek(r, offset, whence) (n, err) {
  props C25
  nilable
  let ok = old(maccepts(r, mockreader.SeekOp, 0, offset, whence, ""))
  let x = old(r.expect[r.index])
  modifies r.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, r) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.SeekOp, 0, offset, whence, "")
  panic-ensures [C25:consumed] mconsumed(r)
  ensures [C25:consumed] mconsumed(r)
  ensures [C25:results] n == x.output0 && err == x.output2
}
func (*mockreader.MockReader).Close(r) (err) {
  props C25
  nilable
  let ok = old(maccepts(r, mockreader.CloseOp, 0, 0, 0, ""))
  let x = old(r.expect[r.index])
  modifies r.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, r) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.CloseOp, 0, 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(r)
  ensures [C25:consumed] mconsumed(r)
  ensures [C25:results] err == x.output2
}

func (mockreader.Wrapper000).Read(w, p) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.ReadOp, len(p), 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index, p[..]
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.ReadOp, len(p), 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:bytes] forall k in 0..n :: p[k] == old(w.Inner.expect[w.Inner.index].input0[k])
  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] !(w is fs.File)
  ensures [C25:interfaces] !(w is io.Seeker)
  ensures [C25:interfaces] !(w is io.ReaderAt)
}
func (mockreader.Wrapper000).Close(w) (err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.CloseOp, 0, 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.CloseOp, 0, 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] !(w is fs.File)
  ensures [C25:interfaces] !(w is io.Seeker)
  ensures [C25:interfaces] !(w is io.ReaderAt)
}
func (mockreader.Wrapper001).Read(w, p) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.ReadOp, len(p), 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index, p[..]
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.ReadOp, len(p), 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:bytes] forall k in 0..n :: p[k] == old(w.Inner.expect[w.Inner.index].input0[k])
  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] !(w is fs.File)
  ensures [C25:interfaces] !(w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper001).Close(w) (err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.CloseOp, 0, 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.CloseOp, 0, 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] !(w is fs.File)
  ensures [C25:interfaces] !(w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper001).ReadAt(w, p, offset) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.ReadAtOp, len(p), offset, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index, p[..]
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.ReadAtOp, len(p), offset, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:bytes] forall k in 0..n :: p[k] == old(w.Inner.expect[w.Inner.index].input0[k])
  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] !(w is fs.File)
  ensures [C25:interfaces] !(w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper010).Read(w, p) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.ReadOp, len(p), 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index, p[..]
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.ReadOp, len(p), 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:bytes] forall k in 0..n :: p[k] == old(w.Inner.expect[w.Inner.index].input0[k])
  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] !(w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] !(w is io.ReaderAt)
}
func (mockreader.Wrapper010).Close(w) (err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.CloseOp, 0, 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.CloseOp, 0, 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] !(w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] !(w is io.ReaderAt)
}
func (mockreader.Wrapper010).Seek(w, offset, whence) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.SeekOp, 0, offset, whence, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.SeekOp, 0, offset, whence, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] !(w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] !(w is io.ReaderAt)
}
func (mockreader.Wrapper011).Read(w, p) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.ReadOp, len(p), 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index, p[..]
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.ReadOp, len(p), 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:bytes] forall k in 0..n :: p[k] == old(w.Inner.expect[w.Inner.index].input0[k])
  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] !(w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper011).Close(w) (err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.CloseOp, 0, 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.CloseOp, 0, 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] !(w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper011).Seek(w, offset, whence) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.SeekOp, 0, offset, whence, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.SeekOp, 0, offset, whence, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] !(w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper011).ReadAt(w, p, offset) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.ReadAtOp, len(p), offset, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index, p[..]
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.ReadAtOp, len(p), offset, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:bytes] forall k in 0..n :: p[k] == old(w.Inner.expect[w.Inner.index].input0[k])
  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] !(w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper100).Read(w, p) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.ReadOp, len(p), 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index, p[..]
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.ReadOp, len(p), 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:bytes] forall k in 0..n :: p[k] == old(w.Inner.expect[w.Inner.index].input0[k])
  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] !(w is io.Seeker)
  ensures [C25:interfaces] !(w is io.ReaderAt)
}
func (mockreader.Wrapper100).Close(w) (err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.CloseOp, 0, 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.CloseOp, 0, 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] !(w is io.Seeker)
  ensures [C25:interfaces] !(w is io.ReaderAt)
}
func (mockreader.Wrapper100).Stat(w) (fi, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.StatOp, 0, 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.StatOp, 0, 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] fi == x.output1 && err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] !(w is io.Seeker)
  ensures [C25:interfaces] !(w is io.ReaderAt)
}
func (mockreader.Wrapper101).Read(w, p) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.ReadOp, len(p), 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index, p[..]
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.ReadOp, len(p), 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:bytes] forall k in 0..n :: p[k] == old(w.Inner.expect[w.Inner.index].input0[k])
  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] !(w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper101).Close(w) (err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.CloseOp, 0, 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.CloseOp, 0, 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] !(w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper101).Stat(w) (fi, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.StatOp, 0, 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.StatOp, 0, 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] fi == x.output1 && err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] !(w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper101).ReadAt(w, p, offset) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.ReadAtOp, len(p), offset, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index, p[..]
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.ReadAtOp, len(p), offset, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:bytes] forall k in 0..n :: p[k] == old(w.Inner.expect[w.Inner.index].input0[k])
  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] !(w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper110).Read(w, p) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.ReadOp, len(p), 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index, p[..]
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.ReadOp, len(p), 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:bytes] forall k in 0..n :: p[k] == old(w.Inner.expect[w.Inner.index].input0[k])
  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] !(w is io.ReaderAt)
}
func (mockreader.Wrapper110).Close(w) (err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.CloseOp, 0, 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.CloseOp, 0, 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] !(w is io.ReaderAt)
}
func (mockreader.Wrapper110).Stat(w) (fi, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.StatOp, 0, 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.StatOp, 0, 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] fi == x.output1 && err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] !(w is io.ReaderAt)
}
func (mockreader.Wrapper110).Seek(w, offset, whence) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.SeekOp, 0, offset, whence, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.SeekOp, 0, offset, whence, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] !(w is io.ReaderAt)
}
func (mockreader.Wrapper111).Read(w, p) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.ReadOp, len(p), 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index, p[..]
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.ReadOp, len(p), 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:bytes] forall k in 0..n :: p[k] == old(w.Inner.expect[w.Inner.index].input0[k])
  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper111).Close(w) (err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.CloseOp, 0, 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.CloseOp, 0, 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper111).Stat(w) (fi, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.StatOp, 0, 0, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.StatOp, 0, 0, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] fi == x.output1 && err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper111).Seek(w, offset, whence) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.SeekOp, 0, offset, whence, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.SeekOp, 0, offset, whence, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
func (mockreader.Wrapper111).ReadAt(w, p, offset) (n, err) {
  props C25
  let ok = old(maccepts(w.Inner, mockreader.ReadAtOp, len(p), offset, 0, ""))
  let x = old(w.Inner.expect[w.Inner.index])
  modifies w.Inner.index, p[..]
  panics when !ok
  panic-ensures [C25:failure] mblames(panic, w.Inner) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.ReadAtOp, len(p), offset, 0, "")
  panic-ensures [C25:consumed] mconsumed(w.Inner)
  ensures [C25:consumed] mconsumed(w.Inner)
  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])
  ensures [C25:results] n == x.output0 && err == x.output2
  ensures [C25:bytes] forall k in 0..n :: p[k] == old(w.Inner.expect[w.Inner.index].input0[k])
  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])
  ensures [C25:interfaces] w is io.Reader && w is io.Closer
  ensures [C25:interfaces] (w is fs.File)
  ensures [C25:interfaces] (w is io.Seeker)
  ensures [C25:interfaces] (w is io.ReaderAt)
}
