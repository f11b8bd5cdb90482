# ---- bodies over a reader ----

# the last Stat made of a file: how many, what it returned; the size a FileInfo reports
ghost var statn : map Iface Int
ghost var statfi : map Iface Iface
ghost var staterr : map Iface Iface
ghost fn fisize(Iface) Int

extern (fs.File).Stat(f) (fi, err) {
  maypanic
  requires [C10:reader-open] closes[f] == 0
  modifies statn[f], statfi[f], staterr[f]
  panic-ensures statn[f] == old(statn[f]) + 1
  ensures statn[f] == old(statn[f]) + 1 && statfi[f] == fi && staterr[f] == err
  ensures err == nil ==> fi != nil
}
extern (fs.FileInfo).Size(fi) (n) {
  ensures n == fisize(fi)
}

func body.FromReaderAndLength(r, length) (b, err) {
  props C13
  requires r != nil ==> closes[r] == 0 && rpos[r] >= 0 && rpos[r] <= 4611686018427387904
  modifies rpos[r], rerr[r], rfails[r], statn[r], statfi[r], staterr[r]
  mightpanic when r == nil || (length < 0 && r is fs.File)
  abort-ensures [C13:bad-size] r == nil || (length < 0 && r is fs.File && statn[r] == old(statn[r]) + 1 && staterr[r] == nil && fisize(statfi[r]) < 0)
  let dl = length >= 0
  let stat = length < 0 && r is fs.File
  let seek = length < 0 && !(r is fs.File) && r is io.ReadSeeker
  let failed = (stat && staterr[r] != nil) || (seek && rfails[r] > old(rfails[r]))
  let n = ite(dl, length, ite(stat, fisize(statfi[r]), ite(seek, rsize(r), -1)))
  ensures [C13:stat] statn[r] == old(statn[r]) + ite(stat, 1, 0)
  ensures [C13:no-seek] !seek ==> rpos[r] == old(rpos[r]) && rfails[r] == old(rfails[r]) && rerr[r] == old(rerr[r])
  ensures [C13:failure] failed ==> b == nil && err != nil
  ensures [C13:cause] stat && staterr[r] != nil ==> errIs(err, staterr[r])
  ensures [C13:cause] seek && rfails[r] > old(rfails[r]) ==> errIs(err, rerr[r]) && rfails[r] == old(rfails[r]) + 1
  ensures [C13:success] !failed ==> b != nil && err == nil
  ensures [C13:rewound] seek && !failed ==> rpos[r] == 0
  ensures [C13:size] !failed ==> n >= -1 && (stat ==> n >= 0)
  ensures [C13:random-access] !failed && n >= 0 && r is io.ReaderAt ==> b is *body.readerAtBody
  ensures [C13:seekable] !failed && n >= 0 && !(r is io.ReaderAt) && r is io.ReadSeeker ==> b is *body.seekerBody
  ensures [C13:stream] !failed && !(n >= 0 && (r is io.ReaderAt || r is io.ReadSeeker)) ==> b is *body.bufferedBody
  ensures [C13:fresh] !failed ==> fresh(ref(b))
  let x = b.(*body.readerAtBody)
  ensures [C13:new-body] b is *body.readerAtBody ==> !x.closed && x.offset == 0 && x.err == nil && fresh(x.common) && x.common.r == r && x.common.length == n && x.common.refcnt == 1
  let y = b.(*body.seekerBody)
  ensures [C13:new-body] b is *body.seekerBody ==> !y.closed && y.offset == 0 && y.err == nil && fresh(y.common) && y.common.s == r && y.common.length == n && y.common.refcnt == 1
  let z = b.(*body.bufferedBody)
  ensures [C13:new-body] b is *body.bufferedBody ==> !z.closed && z.offset == 0 && !z.eof && fresh(z.common) && z.common.r == r && z.common.length == n && z.common.err == nil && z.common.start == 0 && len(z.common.bytes) == 0 && has(z.common.bodies, z) && len(z.common.bodies) == 1
}

func body.FromReader(r) (b, err) {
  props C13
  requires r != nil ==> closes[r] == 0 && rpos[r] >= 0 && rpos[r] <= 4611686018427387904
  modifies rpos[r], rerr[r], rfails[r], statn[r], statfi[r], staterr[r]
  mightpanic when r == nil || (!(r is body.Body) && r is fs.File)
  abort-ensures [C13:bad-size] r == nil || (!(r is body.Body) && r is fs.File && statn[r] == old(statn[r]) + 1 && staterr[r] == nil && fisize(statfi[r]) < 0)
  let isb = r is body.Body
  ensures [C13:body-unchanged] isb ==> b == r && err == nil
  let stat = !isb && r is fs.File
  let seek = !isb && !(r is fs.File) && r is io.ReadSeeker
  let failed = (stat && staterr[r] != nil) || (seek && rfails[r] > old(rfails[r]))
  let n = ite(stat, fisize(statfi[r]), ite(seek, rsize(r), -1))
  ensures [C13:stat] statn[r] == old(statn[r]) + ite(stat, 1, 0)
  ensures [C13:no-seek] !seek ==> rpos[r] == old(rpos[r]) && rfails[r] == old(rfails[r]) && rerr[r] == old(rerr[r])
  ensures [C13:failure] failed ==> b == nil && err != nil
  ensures [C13:cause] stat && staterr[r] != nil ==> errIs(err, staterr[r])
  ensures [C13:cause] seek && rfails[r] > old(rfails[r]) ==> errIs(err, rerr[r]) && rfails[r] == old(rfails[r]) + 1
  ensures [C13:success] !failed ==> b != nil && err == nil
  ensures [C13:rewound] seek && !failed ==> rpos[r] == 0
  ensures [C13:size] !failed && stat ==> n >= 0
  ensures [C13:random-access] !isb && !failed && n >= 0 && r is io.ReaderAt ==> b is *body.readerAtBody
  ensures [C13:seekable] !isb && !failed && n >= 0 && !(r is io.ReaderAt) && r is io.ReadSeeker ==> b is *body.seekerBody
  ensures [C13:stream] !isb && !failed && !(n >= 0 && (r is io.ReaderAt || r is io.ReadSeeker)) ==> b is *body.bufferedBody
  ensures [C13:fresh] !isb && !failed ==> fresh(ref(b))
  let x = b.(*body.readerAtBody)
  ensures [C13:new-body] !isb && b is *body.readerAtBody ==> !x.closed && x.offset == 0 && x.err == nil && fresh(x.common) && x.common.r == r && x.common.length == n && x.common.refcnt == 1
  let y = b.(*body.seekerBody)
  ensures [C13:new-body] !isb && b is *body.seekerBody ==> !y.closed && y.offset == 0 && y.err == nil && fresh(y.common) && y.common.s == r && y.common.length == n && y.common.refcnt == 1
  let z = b.(*body.bufferedBody)
  ensures [C13:new-body] !isb && b is *body.bufferedBody ==> !z.closed && z.offset == 0 && !z.eof && fresh(z.common) && z.common.r == r && z.common.length == n && z.common.err == nil && z.common.start == 0 && len(z.common.bytes) == 0 && has(z.common.bodies, z) && len(z.common.bodies) == 1
}
