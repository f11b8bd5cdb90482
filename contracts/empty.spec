# ---- the empty body ----

type body.emptyBody {
  lock mu rank 1
}

define eb_same(b) = b.closed == old(b.closed) && b.eof == old(b.eof)

func (*body.emptyBody).BytesRemaining(b) (n) {
  props C07 C09 C12
  ensures [C07 C09:zero] n == 0
}

func (*body.emptyBody).Read(b, p) (n, err) {
  props C01 C09 C12
  ensures [C01 C09:nothing] n == 0
  ensures [C09:closed] old(b.closed) ==> err == fs.ErrClosed && eb_same(b)
  ensures [C01:end] !old(b.closed) ==> err == ite(len(p) > 0 || old(b.eof), io.EOF, nil)
  ensures [C01:latch] !old(b.closed) ==> (b.eof <==> err == io.EOF)
  ensures [C01:rest] b.closed == old(b.closed)
}

func (*body.emptyBody).Close(b) (err) {
  props C09 C12
  ensures [C09:first] !old(b.closed) ==> err == nil
  ensures [C09:again] old(b.closed) ==> err == fs.ErrClosed
  ensures [C09:closed] b.closed
}

func (*body.emptyBody).Seek(b, offset, whence) (pos, err) {
  props C05 C09 C12
  let known = 0 <= whence && whence <= 2
  ensures [C09:closed] old(b.closed) ==> pos == -1 && err == fs.ErrClosed && eb_same(b)
  ensures [C05:unknown-origin] !old(b.closed) && !known ==> pos == -1 && err is UnknownWhenceSeekError && err.(UnknownWhenceSeekError).Whence == whence && eb_same(b)
  ensures [C05:negative-start] !old(b.closed) && whence == 0 && offset < 0 ==> pos == -1 && err is NegativeStartOffsetSeekError && err.(NegativeStartOffsetSeekError).Offset == offset && eb_same(b)
  ensures [C05:negative-target] !old(b.closed) && (whence == 1 || whence == 2) && offset < 0 ==> pos == -1 && err is NegativeComputedOffsetSeekError && err.(NegativeComputedOffsetSeekError).Offset == offset && eb_same(b)
  ensures [C05:target] !old(b.closed) && known && offset >= 0 ==> err == nil && pos == 0 && !b.eof
  ensures [C05:rest] b.closed == old(b.closed)
}

func (*body.emptyBody).ReadAt(b, p, offset) (n, err) {
  props C06 C09 C12
  ensures [C06 C09:nothing] n == 0
  ensures [C09:closed] old(b.closed) ==> err == fs.ErrClosed
  ensures [C06:end] !old(b.closed) && offset >= 0 ==> err == ite(len(p) > 0, io.EOF, nil)
  ensures [C06:cursor-kept] eb_same(b)
}

func (*body.emptyBody).WriteTo(b, w) (n, err) {
  props C01 C09 C12
  requires w != nil
  ensures [C01 C09:nothing] n == 0
  ensures [C09:closed] old(b.closed) ==> err == fs.ErrClosed
  ensures [C01:complete] !old(b.closed) ==> err == nil
  ensures [C01 C09:rest] b.closed == old(b.closed)
}

func (*body.emptyBody).Copy(b) (c, err) {
  props C08 C09 C12
  ensures [C08:no-error] err == nil
  ensures [C09:closed] old(b.closed) ==> c is *body.closedBody
  ensures [C08:equal] !old(b.closed) ==> c is *body.emptyBody && c.(*body.emptyBody).eof == b.eof && !c.(*body.emptyBody).closed && fresh(ref(c))
  ensures [C08:original] eb_same(b)
}

func (*body.emptyBody).Unwrap(b) (r) {
  props C09
  ensures [C09:nil] r == nil
}

# ---- the closed body ----

func (*body.closedBody).BytesRemaining(b) (n) {
  props C07 C09
  ensures [C07 C09:zero] n == 0
}
func (*body.closedBody).Read(b, p) (n, err) {
  props C09
  ensures [C09:closed] n == 0 && err == fs.ErrClosed
}
func (*body.closedBody).Close(b) (err) {
  props C09
  ensures [C09:closed] err == fs.ErrClosed
}
func (*body.closedBody).Seek(b, offset, whence) (pos, err) {
  props C09
  ensures [C09:closed] pos == -1 && err == fs.ErrClosed
}
func (*body.closedBody).ReadAt(b, p, offset) (n, err) {
  props C09
  ensures [C09:closed] n == 0 && err == fs.ErrClosed
}
func (*body.closedBody).WriteTo(b, w) (n, err) {
  props C09
  ensures [C09:closed] n == 0 && err == fs.ErrClosed
}
func (*body.closedBody).Copy(b) (c, err) {
  props C08 C09
  ensures [C08 C09:closed] c is *body.closedBody && err == nil
}
func (*body.closedBody).Unwrap(b) (r) {
  props C09
  ensures [C09:nil] r == nil
}
func body.AlreadyClosed() (b) {
  props C09
  nopanic
  ensures [C09:closed] b is *body.closedBody
}
func body.Empty() (b) {
  props C01
  nopanic
  ensures [C01:fresh-empty] b is *body.emptyBody && fresh(ref(b)) && !b.(*body.emptyBody).eof && !b.(*body.emptyBody).closed
}
func body.FromBytes(data) (b) {
  props C01 C09
  nopanic
  immutable data
  ensures [C01:empty] len(data) == 0 ==> b is *body.emptyBody && fresh(ref(b)) && !b.(*body.emptyBody).eof && !b.(*body.emptyBody).closed
  ensures [C01:holds-bytes] len(data) > 0 ==> b is *body.bytesBody && fresh(ref(b)) && same(b.(*body.bytesBody).data, data)
  ensures [C01:storage] len(data) > 0 ==> okind(b.(*body.bytesBody).data) == 1 && (fresh(b.(*body.bytesBody).data) || arr(b.(*body.bytesBody).data) == arr(data))
  ensures [C01:at-start] len(data) > 0 ==> b.(*body.bytesBody).offset == 0 && !b.(*body.bytesBody).eof && !b.(*body.bytesBody).closed
}
func body.FromString(data) (b) {
  props C01 C09
  nopanic
  ensures [C01:empty] len(data) == 0 ==> b is *body.emptyBody && fresh(ref(b)) && !b.(*body.emptyBody).eof && !b.(*body.emptyBody).closed
  ensures [C01:holds-bytes] len(data) > 0 ==> b is *body.bytesBody && fresh(ref(b)) && same(b.(*body.bytesBody).data, data)
  ensures [C01:at-start] len(data) > 0 ==> b.(*body.bytesBody).offset == 0 && !b.(*body.bytesBody).eof && !b.(*body.bytesBody).closed
}
