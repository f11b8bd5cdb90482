# ---- body over a random-access reader ----

type body.readerAtCommon {
  lock mu rank 2
  token refcnt
  env closes cerr rerr rfails
  assumes self.refcnt < 2147483647
  inv [C10:count] self.refcnt >= 0
  inv [C10:attached-open] self.refcnt > 0 ==> self.r != nil && self.at == self.r && closes[self.r] == 0
  inv [C07:length] self.length >= 0
}

type body.readerAtBody {
  lock mu rank 1
  holds common when !self.closed
  inv [C10:attached] !self.closed ==> self.common != nil
  inv [C02:cursor] self.offset >= 0
}

define rc_same(c) = c.r == old(c.r) && c.at == old(c.at) && c.length == old(c.length) && c.refcnt == old(c.refcnt)
define ra_same(b) = b.closed == old(b.closed) && b.common == old(b.common) && b.offset == old(b.offset) && b.err == old(b.err)
define unread(r) = rfails[r] == old(rfails[r]) && rerr[r] == old(rerr[r])

func (*body.readerAtBody).BytesRemaining(b) (n) {
  props C07 C09 C12
  let c = old(b.common)
  ensures [C09:closed] old(b.closed) ==> n == 0
  ensures [C07:exact] !old(b.closed) ==> n == max(0, old(c.length) - old(b.offset))
  ensures [C07:pure] ra_same(b) && (!b.closed ==> rc_same(c))
}

func (*body.readerAtBody).Read(b, p) (n, err) {
  props C02 C08 C09 C10 C12
  modifies p[..], rerr[old(b.common).r], rfails[old(b.common).r]
  let c = old(b.common)
  let r = old(c.r)
  let pos = old(min(b.offset, c.length))
  let live = !old(b.closed) && old(b.err) == nil
  let end = old(min(c.length, rsize(c.r)))
  ensures [C09:closed] old(b.closed) ==> n == 0 && err == fs.ErrClosed && ra_same(b) && same(p, p)
  ensures [C02:sticky] !old(b.closed) && old(b.err) != nil ==> n == 0 && err == old(b.err) && ra_same(b) && rc_same(c)
  ensures [C02:count] 0 <= n && n <= len(p)
  ensures [C02:bytes] live ==> forall k in 0..n :: p[k] == rat(r, pos + k)
  ensures [C02:within-content] live && n > 0 ==> pos + n <= end
  ensures [C02:advance] live ==> b.offset == pos + n || (n == 0 && b.offset == old(b.offset))
  ensures [C02:progress] live && len(p) > 0 && n == 0 ==> err != nil
  ensures [C02:eof-only-at-end] live && err == io.EOF ==> pos + n >= end
  ensures [C02:reader-error] live && err != nil && err != io.EOF ==> err == rerr[r] && rfails[r] > old(rfails[r])
  ensures [C02:error-not-lost] live && rfails[r] > old(rfails[r]) ==> err == rerr[r]
  ensures [C02:latch] live ==> b.err == err
  ensures [C02 C07 C08:length] live ==> c.length == old(c.length) || (err == io.EOF && c.length < old(c.length) && c.length == b.offset)
  ensures [C02 C08:content-kept] live ==> min(c.length, rsize(r)) == end
  ensures [C08 C10:rest] !old(b.closed) ==> !b.closed && b.common == c && c.r == r && c.at == old(c.at) && c.refcnt == old(c.refcnt)
}

func (*body.readerAtBody).Close(b) (err) {
  props C08 C09 C10 C12
  modifies closes[old(b.common).r], cerr[old(b.common).r]
  let c = old(b.common)
  let r = old(c.r)
  let last = old(c.refcnt) == 1
  ensures [C09:again] old(b.closed) ==> err == fs.ErrClosed
  ensures [C09:closed] b.closed
  ensures [C10:count] !old(b.closed) ==> c.refcnt == old(c.refcnt) - 1
  ensures [C10:earlier] !old(b.closed) && !last ==> err == nil && closes[r] == old(closes[r])
  ensures [C08 C10:others-kept] !old(b.closed) && !last ==> c.r == r && c.at == old(c.at) && c.length == old(c.length)
  ensures [C10:last] !old(b.closed) && last && r is io.Closer ==> closes[r] == old(closes[r]) + 1 && err == cerr[r]
  ensures [C10:cannot-close] !old(b.closed) && last && !(r is io.Closer) ==> closes[r] == old(closes[r]) && err == nil
  ensures [C10:detached] !old(b.closed) && last ==> c.r == nil && c.at == nil
}

func (*body.readerAtBody).Seek(b, offset, whence) (pos, err) {
  props C02 C05 C08 C09 C12
  let c = old(b.common)
  let known = 0 <= whence && whence <= 2
  let base = ite(whence == 0, 0, ite(whence == 1, old(b.offset), old(c.length)))
  let target = base + offset
  let open = !old(b.closed)
  ensures [C09:closed] old(b.closed) ==> pos == -1 && err == fs.ErrClosed && ra_same(b)
  ensures [C05:unknown-origin] open && !known ==> pos == -1 && err is UnknownWhenceSeekError && err.(UnknownWhenceSeekError).Whence == whence && ra_same(b)
  ensures [C05:negative-start] open && whence == 0 && offset < 0 ==> pos == -1 && err is NegativeStartOffsetSeekError && err.(NegativeStartOffsetSeekError).Offset == offset && ra_same(b)
  ensures [C05:negative-target] open && (whence == 1 || whence == 2) && target < 0 ==> pos == -1 && err is NegativeComputedOffsetSeekError && err.(NegativeComputedOffsetSeekError).Offset == target && ra_same(b)
  ensures [C05 C02:target] open && known && target >= 0 ==> err == nil && pos == min(target, old(c.length)) && b.offset == pos && b.err == nil
  ensures [C05 C08:rest] open ==> !b.closed && b.common == c && rc_same(c)
}

func (*body.readerAtBody).ReadAt(b, p, offset) (n, err) {
  props C06 C08 C09 C10 C12
  modifies p[..], rerr[old(b.common).r], rfails[old(b.common).r]
  let c = old(b.common)
  let r = old(c.r)
  let live = !old(b.closed) && offset >= 0
  let end = old(min(c.length, rsize(c.r)))
  ensures [C09:closed] old(b.closed) ==> n == 0 && err == fs.ErrClosed && same(p, p)
  ensures [C06:negative] !old(b.closed) && offset < 0 ==> n == 0 && err != nil && err != io.EOF && same(p, p)
  ensures [C06:count] 0 <= n && n <= len(p)
  ensures [C06:bytes] live ==> forall k in 0..n :: p[k] == rat(r, offset + k)
  ensures [C06:within-content] live && n > 0 ==> offset + n <= end
  ensures [C06:short-has-error] live && n < len(p) ==> err != nil
  ensures [C06:eof-only-at-end] live && err == io.EOF ==> offset + len(p) >= end
  ensures [C06:reader-error] live && err != nil && err != io.EOF ==> err == rerr[r] && rfails[r] > old(rfails[r])
  ensures [C06:error-not-lost] live && rfails[r] > old(rfails[r]) ==> err == rerr[r]
  ensures [C06 C08:cursor-kept] ra_same(b) && (!b.closed ==> rc_same(c))
}

func (*body.readerAtBody).Copy(b) (d, err) {
  props C08 C09 C10 C12
  let c = old(b.common)
  let e = d.(*body.readerAtBody)
  ensures [C08:no-error] err == nil
  ensures [C09:closed] old(b.closed) ==> d is *body.closedBody
  ensures [C08:equal] !old(b.closed) ==> d is *body.readerAtBody && fresh(ref(d)) && e.common == c && e.err == b.err && e.offset == b.offset && !e.closed
  ensures [C08:original] ra_same(b)
  ensures [C08 C10:shared] !old(b.closed) ==> c.r == old(c.r) && c.at == old(c.at) && c.length == old(c.length) && c.refcnt == old(c.refcnt) + 1
}

func (*body.readerAtBody).Unwrap(b) (r) {
  props C09 C12
  let c = old(b.common)
  ensures [C09:closed] old(b.closed) ==> r == nil
  ensures [C09:very-reader] !old(b.closed) ==> r == old(c.r)
  ensures [C09:pure] ra_same(b) && (!b.closed ==> rc_same(c))
}
