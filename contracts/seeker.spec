# ---- body over a reader that can only seek ----

type body.seekerCommon {
  lock mu rank 2
  token refcnt
  env closes cerr rerr rfails rpos
  assumes self.refcnt < 2147483647
  inv [C10:count] self.refcnt >= 0
  inv [C10:attached-open] self.refcnt > 0 ==> self.s != nil && closes[self.s] == 0
  inv [C07:length] self.length >= 0
}

type body.seekerBody {
  lock mu rank 1
  holds common when !self.closed
  inv [C10:attached] !self.closed ==> self.common != nil
  inv [C03:cursor] self.offset >= 0
}

define sc_same(c) = c.s == old(c.s) && c.length == old(c.length) && c.refcnt == old(c.refcnt)
define sk_same(b) = b.closed == old(b.closed) && b.common == old(b.common) && b.offset == old(b.offset) && b.err == old(b.err)

func (*body.seekerBody).BytesRemaining(b) (n) {
  props C07 C09 C12
  let c = old(b.common)
  ensures [C09:closed] old(b.closed) ==> n == 0
  ensures [C07:exact] !old(b.closed) ==> n == max(0, old(c.length) - old(b.offset))
  ensures [C07:pure] sk_same(b) && (!b.closed ==> sc_same(c))
}

func (*body.seekerBody).Read(b, p) (n, err) {
  props C03 C08 C09 C10 C12
  modifies p[..], rerr[old(b.common).s], rfails[old(b.common).s], rpos[old(b.common).s]
  let c = old(b.common)
  let r = old(c.s)
  let pos = old(min(b.offset, c.length))
  let live = !old(b.closed) && old(b.err) == nil
  let end = old(min(c.length, rsize(c.s)))
  ensures [C09:closed] old(b.closed) ==> n == 0 && err == fs.ErrClosed && sk_same(b) && same(p, p)
  ensures [C03:sticky] !old(b.closed) && old(b.err) != nil ==> n == 0 && err == old(b.err) && sk_same(b) && sc_same(c)
  ensures [C03:count] 0 <= n && n <= len(p)
  ensures [C03:bytes] live ==> forall k in 0..n :: p[k] == rat(r, pos + k)
  ensures [C03:within-content] live && n > 0 ==> pos + n <= end
  ensures [C03:advance] live ==> b.offset == pos + n || (n == 0 && b.offset == old(b.offset))
  ensures [C03:eof-only-at-end] live && err == io.EOF ==> pos + n >= end
  ensures [C03:reader-error] live && err != nil && err != io.EOF ==> err == rerr[r] && rfails[r] > old(rfails[r])
  ensures [C03:error-not-lost] live && rfails[r] > old(rfails[r]) ==> err == rerr[r]
  ensures [C03:latch] live ==> b.err == err
  ensures [C03 C07 C08:length] live ==> c.length == old(c.length) || (err == io.EOF && c.length < old(c.length) && c.length == b.offset)
  ensures [C03 C08:content-kept] live ==> min(c.length, rsize(r)) == end
  ensures [C08 C10:rest] !old(b.closed) ==> !b.closed && b.common == c && c.s == r && c.refcnt == old(c.refcnt)
}

func (*body.seekerBody).Close(b) (err) {
  props C08 C09 C10 C12
  modifies closes[old(b.common).s], cerr[old(b.common).s]
  let c = old(b.common)
  let r = old(c.s)
  let last = old(c.refcnt) == 1
  ensures [C09:again] old(b.closed) ==> err == fs.ErrClosed
  ensures [C09:closed] b.closed
  ensures [C10:count] !old(b.closed) ==> c.refcnt == old(c.refcnt) - 1
  ensures [C10:earlier] !old(b.closed) && !last ==> err == nil && closes[r] == old(closes[r])
  ensures [C08 C10:others-kept] !old(b.closed) && !last ==> c.s == r && c.length == old(c.length)
  ensures [C10:last] !old(b.closed) && last && r is io.Closer ==> closes[r] == old(closes[r]) + 1 && err == cerr[r]
  ensures [C10:cannot-close] !old(b.closed) && last && !(r is io.Closer) ==> closes[r] == old(closes[r]) && err == nil
  ensures [C10:detached] !old(b.closed) && last ==> c.s == nil
}

func (*body.seekerBody).Seek(b, offset, whence) (pos, err) {
  props C03 C05 C08 C09 C12
  let c = old(b.common)
  let known = 0 <= whence && whence <= 2
  let base = ite(whence == 0, 0, ite(whence == 1, old(b.offset), old(c.length)))
  let target = base + offset
  let open = !old(b.closed)
  ensures [C09:closed] old(b.closed) ==> pos == -1 && err == fs.ErrClosed && sk_same(b)
  ensures [C05:unknown-origin] open && !known ==> pos == -1 && err is UnknownWhenceSeekError && err.(UnknownWhenceSeekError).Whence == whence && sk_same(b)
  ensures [C05:negative-start] open && whence == 0 && offset < 0 ==> pos == -1 && err is NegativeStartOffsetSeekError && err.(NegativeStartOffsetSeekError).Offset == offset && sk_same(b)
  ensures [C05:negative-target] open && (whence == 1 || whence == 2) && target < 0 ==> pos == -1 && err is NegativeComputedOffsetSeekError && err.(NegativeComputedOffsetSeekError).Offset == target && sk_same(b)
  ensures [C05 C03:target] open && known && target >= 0 ==> err == nil && pos == min(target, old(c.length)) && b.offset == pos && b.err == nil
  ensures [C05 C08:rest] open ==> !b.closed && b.common == c && sc_same(c)
}

func (*body.seekerBody).ReadAt(b, p, offset) (n, err) {
  props C06 C08 C09 C10 C12
  modifies p[..], rerr[old(b.common).s], rfails[old(b.common).s], rpos[old(b.common).s]
  let c = old(b.common)
  let r = old(c.s)
  let live = !old(b.closed) && offset >= 0
  let end = old(min(c.length, rsize(c.s)))
  ensures [C09:closed] old(b.closed) ==> n == 0 && err == fs.ErrClosed && same(p, p)
  ensures [C06:negative] !old(b.closed) && offset < 0 ==> n == 0 && err != nil && err != io.EOF && same(p, p)
  ensures [C06:count] 0 <= n && n <= len(p)
  ensures [C06:bytes] live ==> forall k in 0..n :: p[k] == rat(r, offset + k)
  ensures [C06:within-content] live && n > 0 ==> offset + n <= end
  ensures [C06:short-has-error] live && n < len(p) ==> err != nil
  ensures [C06:eof-only-at-end] live && err == io.EOF ==> offset + len(p) >= end
  ensures [C06:reader-error] live && err != nil && err != io.EOF ==> err == rerr[r] && rfails[r] > old(rfails[r])
  ensures [C06:error-not-lost] live && rfails[r] > old(rfails[r]) ==> err == rerr[r]
  loop forall k in 0.._i1 :: p[k] == rat(r, offset + k)
  loop 0 <= _i1 && _i1 <= len(p)
  loop _i1 > 0 ==> offset + _i1 <= end
  loop _e1 == io.EOF ==> offset + _i1 >= end
  loop _e1 == nil || _e1 == io.EOF ==> rfails[r] == old(rfails[r])
  loop _e1 != nil && _e1 != io.EOF ==> _e1 == rerr[r] && rfails[r] > old(rfails[r])
  loop rfails[r] == old(rfails[r])
  ensures [C06 C08:cursor-kept] sk_same(b) && (!b.closed ==> sc_same(c))
}

func (*body.seekerBody).Copy(b) (d, err) {
  props C08 C09 C10 C12
  let c = old(b.common)
  let e = d.(*body.seekerBody)
  ensures [C08:no-error] err == nil
  ensures [C09:closed] old(b.closed) ==> d is *body.closedBody
  ensures [C08:equal] !old(b.closed) ==> d is *body.seekerBody && fresh(ref(d)) && e.common == c && e.err == b.err && e.offset == b.offset && !e.closed
  ensures [C08:original] sk_same(b)
  ensures [C08 C10:shared] !old(b.closed) ==> c.s == old(c.s) && c.length == old(c.length) && c.refcnt == old(c.refcnt) + 1
}

func (*body.seekerBody).Unwrap(b) (r) {
  props C09 C12
  let c = old(b.common)
  ensures [C09:closed] old(b.closed) ==> r == nil
  ensures [C09:very-reader] !old(b.closed) ==> r == old(c.s)
  ensures [C09:pure] sk_same(b) && (!b.closed ==> sc_same(c))
}
