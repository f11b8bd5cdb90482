# ---- response writers that wrap another ----

model wstat = *response.basicWriter.status
model wbytes = *response.basicWriter.bytes
model wnext = *response.basicWriter.next
model wsaw = *response.basicWriter.sawError

# what the wrapped writer has received
ghost var wcalls : map Iface Int            # Write calls,
ghost var wplen : map Iface Int             # the last with this data,
ghost var wpdat : map Iface map Int Int
ghost var wn : map Iface Int                # and this outcome
ghost var werr : map Iface Iface
ghost var nflush : map Iface Int
ghost var nhijack : map Iface Int
ghost var hconn : map Iface Iface
ghost var hbuf : map Iface Int
ghost var herr : map Iface Iface
ghost var nnotify : map Iface Int
ghost var nchan : map Iface Int
ghost var nfrom : map Iface Int             # ReadFrom calls,
ghost var fsrc : map Iface Iface            # the last from this reader
ghost var fn : map Iface Int                # with this outcome
ghost var ferr : map Iface Iface

global !(io.Discard is http.ResponseWriter)

extern (http.ResponseWriter).Write(w, p) (n, err) {
  maypanic
  requires [C20:header-first] nsent[w] >= 1 && !(w is response.Writer)
  modifies body_sent(w), wsaw[w]
  ensures wcalls[w] == old(wcalls[w]) + 1 && wplen[w] == len(p) && wn[w] == n && werr[w] == err
  ensures forall k in 0..len(p) :: wpdat[w][k] == p[k]
  ensures 0 <= n && n <= len(p) && wacc[w] == old(wacc[w]) + n && nfrom[w] == old(nfrom[w])
  panic-ensures wacc[w] == old(wacc[w])
}
extern (http.Flusher).Flush(w) {
  maypanic
  requires [C20:header-first] nsent[w] >= 1 && !(w is response.Writer)
  modifies nflush[w]
  ensures nflush[w] == old(nflush[w]) + 1
}
extern (http.Hijacker).Hijack(w) (conn, buf, err) {
  maypanic
  modifies nhijack[w], hconn[w], hbuf[w], herr[w]
  ensures nhijack[w] == old(nhijack[w]) + 1 && hconn[w] == conn && hbuf[w] == ref(buf) && herr[w] == err
}
extern (http.CloseNotifier).CloseNotify(w) (ch) {
  maypanic
  modifies nnotify[w], nchan[w]
  ensures nnotify[w] == old(nnotify[w]) + 1 && nchan[w] == ref(ch)
}
extern (io.ReaderFrom).ReadFrom(w, r) (n, err) {
  maypanic
  requires [C20:header-first] nsent[w] >= 1 && !(w is response.Writer)
  modifies body_sent(w), wsaw[w]
  panic-ensures wacc[w] == old(wacc[w])
  ensures wcalls[w] == old(wcalls[w]) && wacc[w] == old(wacc[w]) + n
  ensures nfrom[w] == old(nfrom[w]) + 1 && fsrc[w] == r && fn[w] == n && ferr[w] == err
  ensures 0 <= n && n <= 2305843009213693952
}

# a wrapper and the writer behind it: nobody else sends headers to that writer
define winv(w) = w.next != nil && !(w.next is response.Writer) && w.bytes == wacc[w.next] && (w.status == 0 || goodcode(w.status)) &&
  nsent[w.next] == ite(w.status == 0, 0, 1) && (w.status != 0 ==> scode[w.next] == w.status) &&
  (w.status == 0 ==> wstat[w.next] == 0) && 0 <= w.bytes
define wsame(w) = w.status == old(w.status) && w.bytes == old(w.bytes) && w.sawError == old(w.sawError) && nsent[w.next] == old(nsent[w.next])
define sent200(w) = w.status == ite(old(w.status) == 0, 200, old(w.status))
define hides(w) = w.isHEAD || w.status == 204

func (*response.basicWriter).Header(w) (h) {
  also (*response.flushWriter).Header; (*response.fancyWriter).Header
  props C22
  requires winv(w)
  maypanic
  ensures [C22:through] h == hdr(hm(w.next))
}
func (*response.basicWriter).MaybeWriteHeader(w, status) {
  nopanic
  also (*response.flushWriter).MaybeWriteHeader; (*response.fancyWriter).MaybeWriteHeader
  refines (response.Writer).MaybeWriteHeader
  props C20
  requires winv(w)
  panics when !goodcode(status)
  abort-ensures [C20:rejected] wsame(w)
  modifies w.status, header_sent(w.next)
  ensures [C20:one-header] winv(w)
  ensures [C20:only-if-unsent] w.status == ite(old(w.status) == 0, status, old(w.status))
}
func (*response.basicWriter).WriteHeader(w, status) {
  nopanic
  also (*response.flushWriter).WriteHeader; (*response.fancyWriter).WriteHeader
  refines (http.ResponseWriter).WriteHeader
  props C20 C21
  requires winv(w) && w.bytes <= 2305843009213693952
  panics when !goodcode(status) || w.status != 0
  abort-ensures [C20:rejected] w.status == old(w.status) && w.bytes == old(w.bytes) && nsent[w.next] == old(nsent[w.next])
  abort-ensures [C20 C21:second-remembered] w.sawError == (old(w.sawError) || goodcode(status))
  abort-ensures [C20:one-header] winv(w)
  modifies w.status, w.sawError, header_sent(w.next)
  ensures [C20:one-header] winv(w) && w.status == status
  ensures [C21:no-error] w.sawError == old(w.sawError)
}
func (*response.basicWriter).Write(w, p) (n, err) {
  also (*response.flushWriter).Write; (*response.fancyWriter).Write
  props C20 C21
  requires winv(w) && w.bytes <= 2305843009213693952
  maypanic
  modifies w.status, w.bytes, w.sawError, header_sent(w.next)
  modifies body_sent(w.next)
  panic-ensures [C20:one-header] winv(w) && sent200(w)
  ensures [C20:one-header] winv(w) && sent200(w)
  ensures [C21:suppressed] hides(w) ==> n == len(p) && err == nil && w.bytes == old(w.bytes) && w.sawError == old(w.sawError) && wcalls[w.next] == old(wcalls[w.next])
  ensures [C21:forwarded] !hides(w) ==> wcalls[w.next] == old(wcalls[w.next]) + 1 && wplen[w.next] == len(p) && forall k in 0..len(p) :: wpdat[w.next][k] == old(p[k])
  ensures [C21:outcome] !hides(w) ==> n == wn[w.next] && err == werr[w.next]
  ensures [C21:counted] !hides(w) ==> w.bytes == old(w.bytes) + n
  ensures [C21:error-seen] !hides(w) ==> w.sawError == (old(w.sawError) || err != nil)
}
func (*response.basicWriter).Push(w, url, opts) (err) {
  also (*response.flushWriter).Push; (*response.fancyWriter).Push
  props C22
  requires winv(w)
  maypanic
  modifies pushed(w.next)
  let n = old(npush[w.next])
  ensures [C22:through] w.next is http.Pusher ==> npush[w.next] == n + 1 && plog[w.next][n] == url && popt[w.next] == ref(opts) && err == perrs[w.next][n]
  ensures [C22:not-supported] !(w.next is http.Pusher) ==> err == http.ErrNotSupported && npush[w.next] == n
}
func (*response.basicWriter).Status(w) (n) {
  also (*response.flushWriter).Status; (*response.fancyWriter).Status
  refines (response.Writer).Status
  props C20
  ensures [C20:status] n == w.status
}
func (*response.basicWriter).BytesWritten(w) (n) {
  also (*response.flushWriter).BytesWritten; (*response.fancyWriter).BytesWritten
  refines (response.Writer).BytesWritten
  props C21
  ensures [C21:count] n == w.bytes
}
func (*response.basicWriter).SawError(w) (b) {
  also (*response.flushWriter).SawError; (*response.fancyWriter).SawError
  props C21
  ensures [C21:error-seen] b == w.sawError
}
func (*response.basicWriter).Unwrap(w) (r) {
  also (*response.flushWriter).Unwrap; (*response.fancyWriter).Unwrap
  props C22
  ensures [C22:unwraps] r == w.next
}

func (*response.flushWriter).Flush(w) {
  also (*response.fancyWriter).Flush
  props C20 C22
  requires winv(w)
  requires [C22:offered] w.next is http.Flusher
  maypanic
  modifies w.status, header_sent(w.next), nflush[w.next]
  panic-ensures [C20:one-header] winv(w) && sent200(w)
  ensures [C20:one-header] winv(w) && sent200(w)
  ensures [C22:through] nflush[w.next] == old(nflush[w.next]) + 1
}
func (*response.fancyWriter).CloseNotify(w) (ch) {
  props C22
  requires w.next is http.CloseNotifier
  maypanic
  modifies nnotify[w.next], nchan[w.next]
  ensures [C22:through] nnotify[w.next] == old(nnotify[w.next]) + 1 && nchan[w.next] == ref(ch)
}
func (*response.fancyWriter).Hijack(w) (conn, buf, err) {
  props C22
  requires w.next is http.Hijacker
  maypanic
  modifies nhijack[w.next], hconn[w.next], hbuf[w.next], herr[w.next]
  ensures [C22:through] nhijack[w.next] == old(nhijack[w.next]) + 1 && hconn[w.next] == conn && hbuf[w.next] == ref(buf) && herr[w.next] == err
}
func (*response.fancyWriter).ReadFrom(w, r) (n, err) {
  props C20 C21 C22
  requires winv(w) && w.bytes <= 2305843009213693952
  requires w.next is io.ReaderFrom
  maypanic
  modifies w.status, w.bytes, w.sawError, header_sent(w.next)
  modifies body_sent(w.next)
  modifies transferred(io.Discard), header_sent(io.Discard), body_sent(io.Discard)
  panic-ensures [C20:one-header] winv(w) && sent200(w)
  ensures [C20:one-header] winv(w) && sent200(w)
  ensures [C21:drained] hides(w) ==> ntrans[io.Discard] == old(ntrans[io.Discard]) + 1 && tsrc[io.Discard] == r && n == tn[io.Discard] && err == terr[io.Discard]
  ensures [C21:suppressed] hides(w) ==> w.bytes == old(w.bytes) && w.sawError == old(w.sawError) && nfrom[w.next] == old(nfrom[w.next])
  ensures [C21:forwarded] !hides(w) ==> nfrom[w.next] == old(nfrom[w.next]) + 1 && fsrc[w.next] == r
  ensures [C21:outcome] !hides(w) ==> n == fn[w.next] && err == ferr[w.next]
  ensures [C21:counted] !hides(w) ==> w.bytes == old(w.bytes) + n
  ensures [C21:error-seen] !hides(w) ==> w.sawError == (old(w.sawError) || err != nil)
}

define wnew(x, w, r) = x.next == w && x.status == 0 && x.bytes == 0 && !x.sawError && x.isHEAD == (r.Method == "HEAD") && winv(x)
define isfull(w) = w is http.Flusher && w is http.Hijacker && w is http.CloseNotifier && w is io.ReaderFrom
func response.NewWriter(w, r) (ww) {
  props C20 C21 C22
  requires w == nil || w is response.Writer || nsent[w] == 0 && wstat[w] == 0 && wacc[w] == 0
  panics when w == nil || r == nil
  nopanic
  ensures [C22:already-wrapped] w is response.Writer ==> ww == w
  let wrapped = !(w is response.Writer)
  ensures [C22:wrapped] wrapped ==> fresh(ref(ww)) && (ww is *response.basicWriter || ww is *response.flushWriter || ww is *response.fancyWriter)
  ensures [C20 C21 C22:starts-clean] wrapped ==> wnext[ww] == w && wstat[ww] == 0 && wbytes[ww] == 0 && wsync(ww)
  ensures [C20 C21 C22:starts-clean] wrapped && ww is *response.basicWriter ==> wnew(ww.(*response.basicWriter), w, r)
  ensures [C20 C21 C22:starts-clean] wrapped && ww is *response.flushWriter ==> wnew(ww.(*response.flushWriter), w, r)
  ensures [C20 C21 C22:starts-clean] wrapped && ww is *response.fancyWriter ==> wnew(ww.(*response.fancyWriter), w, r)
  assumes wrapped ==> hm(ww) == hm(w)      # its header map is what Header returns (C22 through)
  ensures [C22:flush] (ww is http.Flusher) <==> (w is http.Flusher)
  ensures [C22:full-set] isfull(ww) <==> isfull(w)
  ensures [C22:never-panics] (ww is http.Hijacker ==> w is http.Hijacker) && (ww is http.CloseNotifier ==> w is http.CloseNotifier) && (ww is io.ReaderFrom ==> w is io.ReaderFrom)
}
