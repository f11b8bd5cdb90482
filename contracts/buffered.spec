# ---- body over a plain stream ----

define bc_end(c) = c.start + len(c.bytes)
# stream position of byte 0 of the body: the reader's position minus what was taken
define bc_base(c) = rpos[c.r] - c.start - len(c.bytes)

type body.bufferedCommon {
  lock mu rank 2
  env closes cerr rerr rfails rpos
  attach bodies
  owns bytes
  inv [C10:attached-set] forall b *body.bufferedBody :: has(self.bodies, b) <==> b.att == ref(self)
  inv [C10:no-nil] !has(self.bodies, nil)
  inv [C10:attached-open] len(self.bodies) > 0 ==> self.r != nil && closes[self.r] == 0
  inv [C04:window] len(self.bodies) > 0 ==> forall k in 0..len(self.bytes) :: self.bytes[k] == rat(self.r, rpos[self.r] - len(self.bytes) + k)
  inv [C04:positions] len(self.bodies) > 0 ==> self.start >= 0 && self.length >= -1 && bc_base(self) >= 0 && rpos[self.r] <= 4611686018427387904
  inv [C04 C07:end] len(self.bodies) > 0 && self.err != nil ==> self.length == bc_end(self)
  inv [C04:declared] len(self.bodies) > 0 && self.length >= 0 ==> bc_end(self) <= self.length
  inv [C04 C11:kept] forall b *body.bufferedBody :: has(self.bodies, b) ==> self.start <= b.offset && b.offset <= bc_end(self)
  inv [C04:eof] forall b *body.bufferedBody :: has(self.bodies, b) && b.eof ==> self.err != nil && b.offset == bc_end(self)
  inv [C11:count] len(self.bodies) > 0 ==> self.refcnt == (card b *body.bufferedBody :: has(self.bodies, b) && b.offset == self.start)
  inv [C11:slowest] len(self.bodies) > 0 ==> self.refcnt >= 1
  inv [C10 C11:released] len(self.bodies) == 0 ==> self.r == nil && len(self.bytes) == 0
}

type body.bufferedBody {
  lock mu rank 1
  ghost att Int
  joint offset eof att via common
  inv [C10:attached] !self.closed ==> self.common != nil && self.att == ref(self.common)
  inv [C10:not-attached] self.closed ==> self.att == 0
}

define bf_same(b) = b.closed == old(b.closed) && b.common == old(b.common) && b.offset == old(b.offset) && b.eof == old(b.eof)
define bf_others(b) = forall x *body.bufferedBody :: x != b && x >= 0 ==> x.offset == old(x.offset) && x.eof == old(x.eof) && x.att == old(x.att)
define bc_same(c) = c.r == old(c.r) && c.err == old(c.err) && c.length == old(c.length) && c.start == old(c.start) && same(c.bytes, c.bytes)

func (*body.bufferedBody).BytesRemaining(b) (n) {
  props C07 C09 C12
  let c = old(b.common)
  ensures [C09:closed] old(b.closed) ==> n == 0
  ensures [C07:exact] !old(b.closed) ==> n == ite(old(b.eof), 0, ite(old(c.length) < 0, -1, max(0, old(c.length) - old(b.offset))))
  ensures [C07:pure] bf_same(b) && bf_others(b) && (!b.closed ==> bc_same(c))
}

func (*body.bufferedBody).Read(b, p) (n, err) {
  props C04 C08 C09 C10 C11 C12 C07
  modifies p[..], rerr[old(b.common).r], rfails[old(b.common).r], rpos[old(b.common).r]
  let c = old(b.common)
  let r = old(c.r)
  let pos = old(b.offset)
  let base = old(bc_base(c))
  let open = !old(b.closed)
  loop _i1 == (card x *body.bufferedBody :: _v1[x] && x.offset == _i2)
  loop forall x *body.bufferedBody :: _v1[x] ==> x.offset >= _i2
  loop forall x *body.bufferedBody :: _v1[x] ==> _i1 >= 1
  loop _b1 ==> forall x *body.bufferedBody :: !_v1[x]
  loop !_b1 ==> forall x *body.bufferedBody :: !_v1[x]
  loop !_b1 ==> exists x *body.bufferedBody :: _v1[x] && x.offset == _i1
  loop _b1 ==> exists x *body.bufferedBody :: _v1[x] && x.offset == _i1
  loop _i1 < 0 ==> forall x *body.bufferedBody :: !_v1[x]
  loop _i1 >= 0 ==> exists x *body.bufferedBody :: _v1[x] && x.offset == _i1
  loop _i1 == 9223372036854775807 || exists x *body.bufferedBody :: _v1[x] && x.offset == _i1
  loop _i1 == 9223372036854775807 ==> forall x *body.bufferedBody :: !_v1[x]
  loop _i1 == bc_end(c) || exists x *body.bufferedBody :: _v1[x] && x.offset == _i1
  loop c.err == nil && c.length == old(c.length) && c.r == r && c.start == old(c.start)
  loop rpos[r] - c.start - len(c.bytes) == base && 0 <= rpos[r] && rpos[r] <= 4611686018427387904
  loop forall k in 0..len(c.bytes) :: c.bytes[k] == rat(r, rpos[r] - len(c.bytes) + k)
  loop rerr[r] == old(rerr[r]) && rfails[r] == old(rfails[r])
  loop c.r == r && c.start == old(c.start)
  loop c.err == nil ==> c.length == old(c.length) && rerr[r] == old(rerr[r]) && rfails[r] == old(rfails[r])
  loop c.err != nil ==> c.length == bc_end(c)
  loop c.err != nil && c.err != io.EOF ==> c.err == rerr[r] && rfails[r] > old(rfails[r])
  loop c.err == io.EOF ==> rpos[r] >= rsize(r) && rfails[r] == old(rfails[r])
  loop arr(c.bytes) == arr(_s1) && off(c.bytes) == off(_s1)
  loop len(c.bytes) == _i1
  loop _i1 == c.start + len(c.bytes)
  loop len(c.bytes) + _i1 == len(_s1)
  ensures [C09:closed] old(b.closed) ==> n == 0 && err == fs.ErrClosed && bf_same(b) && same(p, p)
  ensures [C04:latched] open && old(b.eof) ==> n == 0 && err == old(c.err) && err != nil && b.eof && bc_same(c) && rpos[r] == old(rpos[r])
  ensures [C04:count] 0 <= n && n <= len(p)
  ensures [C04:bytes] open ==> forall k in 0..n :: p[k] == rat(r, base + pos + k)
  ensures [C04:advance] open ==> b.offset == pos + n
  ensures [C04:stream-kept] open ==> c.r == r && bc_base(c) == base
  ensures [C04:short-only-at-end] open && n < len(p) ==> err != nil
  ensures [C04:error-is-terminal] open && err != nil ==> err == c.err && b.offset == c.length && bc_end(c) == c.length
  ensures [C04:full-without-error] open && !old(b.eof) && n == len(p) ==> err == nil
  ensures [C04:latch] open ==> (b.eof <==> err != nil)
  ensures [C04:terminal-is-final] open && old(c.err) != nil ==> c.err == old(c.err) && c.length == old(c.length) && rpos[r] == old(rpos[r])
  ensures [C04:terminal-source] open && old(c.err) == nil && c.err != nil ==>
     (c.err == io.EOF && (rpos[r] >= rsize(r) || (old(c.length) >= 0 && c.length == old(c.length)))) || (c.err == rerr[r] && rfails[r] > old(rfails[r]))
  ensures [C04:error-not-lost] open && rfails[r] > old(rfails[r]) ==> c.err == rerr[r]
  ensures [C04:declared-length] open && old(c.length) >= 0 ==> rpos[r] - base <= max(old(c.length), old(rpos[r]) - base)
  ensures [C04 C07:length] open ==> c.length == old(c.length) || (c.err != nil && c.length == bc_end(c))
  ensures [C08:others] bf_others(b)
  ensures [C08 C10:rest] open ==> !b.closed && b.common == c && b.att == old(b.att)
}

func (*body.bufferedBody).Close(b) (err) {
  props C04 C08 C09 C10 C11 C12
  modifies closes[old(b.common).r], cerr[old(b.common).r]
  let c = old(b.common)
  let r = old(c.r)
  let open = !old(b.closed)
  let last = old(len(c.bodies)) == 1
  loop _i1 == (card x *body.bufferedBody :: _v1[x] && x.offset == _i2)
  loop forall x *body.bufferedBody :: _v1[x] ==> x.offset >= _i2
  loop forall x *body.bufferedBody :: _v1[x] ==> _i1 >= 1
  loop _b1 ==> forall x *body.bufferedBody :: !_v1[x]
  loop !_b1 ==> forall x *body.bufferedBody :: !_v1[x]
  loop !_b1 ==> exists x *body.bufferedBody :: _v1[x] && x.offset == _i1
  loop _b1 ==> exists x *body.bufferedBody :: _v1[x] && x.offset == _i1
  loop _i1 < 0 ==> forall x *body.bufferedBody :: !_v1[x]
  loop _i1 >= 0 ==> exists x *body.bufferedBody :: _v1[x] && x.offset == _i1
  loop _i1 == 9223372036854775807 || exists x *body.bufferedBody :: _v1[x] && x.offset == _i1
  loop _i1 == 9223372036854775807 ==> forall x *body.bufferedBody :: !_v1[x]
  loop _i1 == bc_end(c) || exists x *body.bufferedBody :: _v1[x] && x.offset == _i1
  ensures [C09:again] old(b.closed) ==> err == fs.ErrClosed
  ensures [C09:closed] b.closed
  ensures [C10:count] open && !last ==> len(c.bodies) == old(len(c.bodies)) - 1
  ensures [C10:earlier] open && !last ==> err == nil && closes[r] == old(closes[r])
  ensures [C04 C08 C10:others-kept] open && !last ==> c.r == r && c.err == old(c.err) && c.length == old(c.length) && bc_end(c) == old(bc_end(c))
  ensures [C08:others] bf_others(b)
  ensures [C10:last] open && last && r is io.Closer ==> closes[r] == old(closes[r]) + 1 && err == cerr[r]
  ensures [C10:cannot-close] open && last && !(r is io.Closer) ==> closes[r] == old(closes[r]) && err == nil
  ensures [C10 C11:detached] open && last ==> c.r == nil && len(c.bytes) == 0 && len(c.bodies) == 0
}

func (*body.bufferedBody).Copy(b) (d, err) {
  props C04 C08 C09 C10 C11 C12
  let c = old(b.common)
  let e = d.(*body.bufferedBody)
  ensures [C08:no-error] err == nil
  ensures [C09:closed] old(b.closed) ==> d is *body.closedBody
  ensures [C08:equal] !old(b.closed) ==> d is *body.bufferedBody && fresh(ref(d)) && e.common == c && e.eof == b.eof && e.offset == b.offset && !e.closed && e.att == ref(c)
  ensures [C08:original] bf_same(b)
  ensures [C08:others] bf_others(b)
  ensures [C08 C10:shared] !old(b.closed) ==> bc_same(c) && len(c.bodies) == old(len(c.bodies)) + 1
}

func (*body.bufferedBody).Unwrap(b) (r) {
  props C09 C12
  let c = old(b.common)
  ensures [C09:closed] old(b.closed) ==> r == nil
  ensures [C09:very-reader] !old(b.closed) ==> r == old(c.r)
  ensures [C09:pure] bf_same(b) && (!b.closed ==> bc_same(c))
}
