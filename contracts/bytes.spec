# ---- in-memory body ----

type body.bytesBody {
  lock mu rank 1
  immutable data
  inv [C01 C05:cursor-in-range] 0 <= self.offset && self.offset <= len(self.data)
  inv [C01:eof-only-at-end] self.eof && !self.closed ==> self.offset == len(self.data)
  inv [C09:closed-releases-data] self.closed ==> len(self.data) == 0
}

define bb_same_but_cursor(b) = b.data == old(b.data) && b.closed == old(b.closed)
define bb_same(b) = b.data == old(b.data) && b.closed == old(b.closed) && b.offset == old(b.offset) && b.eof == old(b.eof)

func (*body.bytesBody).BytesRemaining(b) (n) {
  props C07 C09 C12
  ensures [C09:closed] old(b.closed) ==> n == 0
  ensures [C07:exact] !old(b.closed) ==> n == old(len(b.data) - b.offset)
  ensures [C07:pure] bb_same(b)
}

func (*body.bytesBody).Read(b, p) (n, err) {
  props C01 C09 C12 C08
  modifies p[0:n]
  let rem = len(b.data) - b.offset
  ensures [C09:closed] old(b.closed) ==> n == 0 && err == fs.ErrClosed && bb_same(b)
  ensures [C01:count] !old(b.closed) ==> n == ite(old(b.eof), 0, min(len(p), old(rem)))
  ensures [C01:bytes] !old(b.closed) ==> forall k in 0..n :: p[k] == old(b.data[b.offset + k])
  ensures [C01:advance] !old(b.closed) ==> b.offset == old(b.offset) + n
  ensures [C01:error] !old(b.closed) ==> (err == nil || err == io.EOF)
  ensures [C01:short-only-with-eof] !old(b.closed) && n < len(p) ==> err == io.EOF
  ensures [C01:eof-only-at-end] err == io.EOF ==> b.offset == len(b.data) && (n < len(p) || old(b.eof))
  ensures [C01 C08:rest] bb_same_but_cursor(b)
  ensures [C01:latch] !old(b.closed) ==> (b.eof <==> err == io.EOF)
}

func (*body.bytesBody).Close(b) (err) {
  props C09 C12
  ensures [C09:first] !old(b.closed) ==> err == nil
  ensures [C09:again] old(b.closed) ==> err == fs.ErrClosed
  ensures [C09:closed] b.closed
}

func (*body.bytesBody).Seek(b, offset, whence) (pos, err) {
  props C05 C09 C12
  let base = ite(whence == 0, 0, ite(whence == 1, b.offset, len(b.data)))
  let badstart = whence == 0 && offset < 0
  let known = 0 <= whence && whence <= 2
  let badpos = known && !(whence == 0 && offset < 0) && old(base) + offset < 0
  ensures [C09:closed] old(b.closed) ==> pos == -1 && err == fs.ErrClosed && bb_same(b)
  ensures [C05:unknown-origin] !old(b.closed) && !known ==> pos == -1 && err is UnknownWhenceSeekError && err.(UnknownWhenceSeekError).Whence == whence && bb_same(b)
  ensures [C05:negative-start] !old(b.closed) && badstart ==> pos == -1 && err is NegativeStartOffsetSeekError && err.(NegativeStartOffsetSeekError).Offset == offset && bb_same(b)
  ensures [C05:negative-target] !old(b.closed) && badpos ==> pos == -1 && err is NegativeComputedOffsetSeekError && err.(NegativeComputedOffsetSeekError).Offset == old(base) + offset && bb_same(b)
  ensures [C05:target] !old(b.closed) && known && old(base) + offset >= 0 ==> err == nil && pos == min(old(base) + offset, len(b.data)) && b.offset == pos && !b.eof
  ensures [C05:rest] bb_same_but_cursor(b)
}

func (*body.bytesBody).ReadAt(b, p, offset) (n, err) {
  props C06 C09 C12
  modifies p[0:n]
  ensures [C09:closed] old(b.closed) ==> n == 0 && err == fs.ErrClosed
  ensures [C06:negative] !old(b.closed) && offset < 0 ==> n == 0 && err != nil && err != io.EOF
  ensures [C06:count] !old(b.closed) && offset >= 0 ==> n == max(0, min(len(p), len(b.data) - offset))
  ensures [C06:bytes] !old(b.closed) && offset >= 0 ==> forall k in 0..n :: p[k] == old(b.data[offset + k])
  ensures [C06:short-has-error] !old(b.closed) && n < len(p) ==> err != nil
  ensures [C06:eof-only-at-end] err == io.EOF ==> offset + len(p) >= len(b.data)
  ensures [C06:only-eof] !old(b.closed) && offset >= 0 ==> err == nil || err == io.EOF
  ensures [C06:cursor-kept] bb_same(b)
}

func (*body.bytesBody).WriteTo(b, w) (n, err) {
  props C01 C09 C12
  requires w != nil
  modifies wlen[w], wout[w]
  ensures [C09:closed] old(b.closed) ==> n == 0 && err == fs.ErrClosed && wlen[w] == old(wlen[w]) && bb_same(b)
  ensures [C01:received] wlen[w] == old(wlen[w]) + n
  ensures [C01:bytes] !old(b.closed) ==> forall k in 0..n :: wout[w][old(wlen[w]) + k] == old(b.data[b.offset + k])
  ensures [C01:advance] !old(b.closed) ==> b.offset == old(b.offset) + n && bb_same_but_cursor(b)
  ensures [C01:complete] err == nil ==> b.offset == len(b.data)
  ensures [C01:partial] !old(b.closed) && b.offset < len(b.data) ==> err != nil && !b.eof
}

func (*body.bytesBody).Copy(b) (c, err) {
  props C08 C09 C12
  ensures [C08:no-error] err == nil
  ensures [C09:closed] old(b.closed) ==> c is *body.closedBody
  ensures [C08:equal] !old(b.closed) ==> c is *body.bytesBody && c.(*body.bytesBody).data == b.data && c.(*body.bytesBody).offset == b.offset && c.(*body.bytesBody).eof == b.eof && !c.(*body.bytesBody).closed && fresh(ref(c))
  ensures [C08:original] bb_same(b)
}

func (*body.bytesBody).Unwrap(b) (r) {
  props C09 C12
  ensures [C09:nil] r == nil
}
