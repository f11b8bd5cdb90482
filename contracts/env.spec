# ---- the environment of package body ----

# what a destination writer has received: number of bytes and the bytes
ghost var wlen : map Iface Int
ghost var wout : map Iface map Int Int

extern (io.Writer).Write(w, p) (n, err) {
  maypanic
  modifies wlen[w], wout[w]
  ensures 0 <= n && n <= len(p)
  ensures wlen[w] == old(wlen[w]) + n
  ensures forall k in 0..n :: wout[w][old(wlen[w]) + k] == old(p[k])
  ensures forall k in 0..old(wlen[w]) :: wout[w][k] == old(wout[w][k])
}

# the assert package is executed from its source
extern assert.Assert(cond, text) {
  inline
}
extern assert.Assertf(cond, format, args) {
  inline
}
extern assert.Raise(text) {
  inline
}
extern assert.Raisef(format, args) {
  inline
}

# ---- readers behind a body ----
# The content of a reader is a fixed sequence of bytes: rat(r, i) is byte i,
# rsize(r) the number of bytes.  r is the dynamic value of the interface.
ghost fn rat(Iface, Int) Int
ghost fn rsize(Iface) Int
ghost var closes : map Iface Int      # Close calls received by the reader
ghost var cerr : map Iface Iface      # what the last Close returned
ghost var rerr : map Iface Iface      # last error, other than EOF, returned by the reader
ghost var rfails : map Iface Int      # how many errors other than EOF it returned
ghost var rpos : map Iface Int        # cursor of a reader with one

axiom forall r Iface :: rsize(r) >= 0 && rsize(r) <= 4611686018427387904

define noted(r, err, before) =
  (err != nil && err != io.EOF ==> rfails[r] == before + 1 && rerr[r] == err) &&
  (err == nil || err == io.EOF ==> rfails[r] == before && rerr[r] == old(rerr[r]))

extern (io.ReaderAt).ReadAt(r, p, off) (n, err) {
  maypanic
  requires [C10:reader-open] closes[r] == 0
  requires [C02 C06:offset] off >= 0
  modifies p[..], rerr[r], rfails[r]
  ensures 0 <= n && n <= len(p)
  ensures n < len(p) ==> err != nil
  ensures n > 0 ==> off + n <= rsize(r)
  ensures forall k in 0..n :: p[k] == rat(r, off + k)
  ensures err == io.EOF ==> off + n >= rsize(r)
  ensures noted(r, err, old(rfails[r]))
}

extern (io.Closer).Close(r) (err) {
  maypanic
  requires [C10:closed-once] closes[r] == 0
  modifies closes[r], cerr[r]
  ensures closes[r] == old(closes[r]) + 1
  ensures cerr[r] == err
}

extern (io.Reader).Read(r, p) (n, err) {
  maypanic
  requires [C10:reader-open] closes[r] == 0
  modifies p[..], rpos[r], rerr[r], rfails[r]
  panic-ensures rpos[r] == old(rpos[r])
  ensures 0 <= n && n <= len(p)
  ensures rpos[r] == old(rpos[r]) + n && rpos[r] >= 0 && rpos[r] <= 4611686018427387904
  ensures n > 0 ==> rpos[r] <= rsize(r)
  ensures forall k in 0..n :: p[k] == rat(r, old(rpos[r]) + k)
  ensures err == io.EOF ==> rpos[r] >= rsize(r)
  ensures noted(r, err, old(rfails[r]))
}

extern (io.Seeker).Seek(r, offset, whence) (pos, err) {
  maypanic
  requires [C10:reader-open] closes[r] == 0
  modifies rpos[r], rerr[r], rfails[r]
  let target = offset + ite(whence == 0, 0, ite(whence == 1, old(rpos[r]), rsize(r)))
  ensures err == nil ==> pos >= 0 && rpos[r] == pos && pos == target
  ensures rpos[r] >= 0
  ensures err != io.EOF
  ensures noted(r, err, old(rfails[r]))
}
