# ---- the adaptor ----
extern (response.Writer).MaybeWriteHeader(w, status) {
  panics when !goodcode(status)
  modifies header_sent(w), header_sent(wbase(w))
  ensures wstat[w] == ite(old(wstat[w]) == 0, status, old(wstat[w]))
  ensures keeps_sync(w)
}
extern (response.Writer).Status(w) (n) {
  ensures n == wstat[w]
}
extern (response.Writer).BytesWritten(w) (n) {
  ensures n == wbytes[w]
}

# metrics: a counter vector has one label; its counters are one per label value
ghost fn vecctr(Int, Str) Iface
ghost fn cvec(Iface) Int             # the vector a counter belongs to, 0 for a plain counter
ghost fn clbl(Iface) Str
ghost fn vlabel(Int) Str             # label name of a vector
ghost var registered : map Str Bool
ghost var cadds : map Iface Int      # how often a counter was increased,
ghost var clast : map Iface Flt      # and by how much the last time
ghost var hobs : map Iface Int       # observations of a histogram,
ghost var hlast : map Iface Flt      # and the last value
axiom forall (v : Int, s : Str) {vecctr(v, s)} :: cvec(vecctr(v, s)) == v && clbl(vecctr(v, s)) == s && vecctr(v, s) != nil

extern promauto.NewCounter(opts) (c) {
  requires [C24:registered-once] !registered[opts.Name]
  modifies registered[opts.Name]
  ensures registered[opts.Name] && c != nil && cvec(c) == 0
}
extern promauto.NewCounterVec(opts, labels) (v) {
  fresh v
  requires [C24:registered-once] !registered[opts.Name]
  requires [C24:one-label] len(labels) == 1
  modifies registered[opts.Name]
  ensures registered[opts.Name] && v != nil && vlabel(ref(v)) == labels[0]
}
extern promauto.NewHistogram(opts) (h) {
  fresh h
  requires [C24:registered-once] !registered[opts.Name]
  modifies registered[opts.Name]
  ensures registered[opts.Name] && h != nil
}
extern prometheus.ExponentialBuckets(start, factor, count) (b) {
  fresh b
}

define is_vec(v) = v != nil && vlabel(ref(v)) == "code"
define metrics_ok() = is_vec(handler.PromRequestsTotal) && is_vec(handler.PromLatencyTotal) && is_vec(handler.PromRecvBytesTotal) && is_vec(handler.PromSendBytesTotal) &&
  handler.PromRequestsTotal != handler.PromLatencyTotal && handler.PromRequestsTotal != handler.PromRecvBytesTotal && handler.PromRequestsTotal != handler.PromSendBytesTotal &&
  handler.PromLatencyTotal != handler.PromRecvBytesTotal && handler.PromLatencyTotal != handler.PromSendBytesTotal && handler.PromRecvBytesTotal != handler.PromSendBytesTotal &&
  handler.PromPanicsTotal != nil && cvec(handler.PromPanicsTotal) == 0 &&
  handler.PromLatencyHist != nil && handler.PromRecvBytesHist != nil && handler.PromSendBytesHist != nil &&
  handler.PromLatencyHist != handler.PromRecvBytesHist && handler.PromLatencyHist != handler.PromSendBytesHist && handler.PromRecvBytesHist != handler.PromSendBytesHist

func handler.init() {
  props C24
  requires forall s string :: !registered[s]
  modifies registered
  ensures [C24:metrics] metrics_ok()
  ensures [C23:callback] handler.OnPanic != nil
}

extern (*prometheus.CounterVec).With(v, labels) (c) {
  requires [C24:label] forall k string :: has(labels, k) <==> k == vlabel(ref(v))
  ensures c == vecctr(ref(v), labels[vlabel(ref(v))])
}
extern (*prometheus.CounterVec).WithLabelValues(v, lvs) (c) {
  requires [C24:label] len(lvs) == 1
  ensures c == vecctr(ref(v), lvs[0])
}
extern (prometheus.Counter).Inc(c) {
  requires c != nil
  modifies cadds[c], clast[c]
  ensures cadds[c] == old(cadds[c]) + 1 && clast[c] == float(1)
}
extern (prometheus.Counter).Add(c, x) {
  requires c != nil
  panics when negative(x)
  modifies cadds[c], clast[c]
  ensures cadds[c] == old(cadds[c]) + 1 && clast[c] == x
}
extern (prometheus.Observer).Observe(h, x) {
  requires h != nil
  modifies hobs[h], hlast[h]
  ensures hobs[h] == old(hobs[h]) + 1 && hlast[h] == x
}
extern (prometheus.Histogram).Observe(h, x) {
  requires h != nil
  modifies hobs[h], hlast[h]
  ensures hobs[h] == old(hobs[h]) + 1 && hlast[h] == x
}
# the clock is monotonic: clock is the latest time handed out
ghost var clock : Int
extern time.Now() (t) {
  modifies clock
  ensures t.ext == clock && clock >= old(clock)
}
extern time.Since(t) (d) {
  ensures t.ext <= clock ==> d >= 0
}
extern (time.Time).Sub(t, u) (d) {
  ensures u.ext <= t.ext ==> d >= 0
}
extern (time.Duration).Seconds(d) (x) {
  ensures negative(x) <==> d < 0
}
extern (time.Duration).Milliseconds(d) (n) {
  ensures d >= 0 ==> 0 <= n && n <= d
}
extern (time.Duration).Microseconds(d) (n) {
  ensures d >= 0 ==> 0 <= n && n <= d
}
extern (time.Duration).Nanoseconds(d) (n) {
  ensures n == d
}

# handlers: how often one was asked, with which request, and what came of it
ghost var hcalls : map Iface Int
ghost var hreq : Int
ghost var hcode : Int
ghost var hhdrs : Int
ghost var hbody : Iface
ghost var herror : Iface
ghost var hpanicked : Bool
ghost var hpv : Iface
extern (handler.Handler).Handle(h, req) (resp) {
  maypanic
  modifies hcalls[h], hreq, hcode, hhdrs, hbody, herror, hpanicked, hpv
  panic-ensures hcalls[h] == old(hcalls[h]) + 1 && hreq == ref(req) && hpanicked && hpv == panic
  ensures hcalls[h] == old(hcalls[h]) + 1 && hreq == ref(req) && !hpanicked
  ensures hcode == resp.code && hhdrs == ref(resp.hdrs) && hbody == resp.body && herror == resp.err
}

# the panic callback: how often it was called and with what
mutable handler.OnPanic
ghost var opcalls : Int
ghost var operr : Iface
extern var handler.OnPanic(f, err) {
  modifies opcalls, operr
  ensures opcalls == old(opcalls) + 1 && operr == err
}

func (handler.Adaptor).ServeHTTP(a, w, req) {
  props C23 C24
  requires metrics_ok() && handler.OnPanic != nil && a.Inner != nil && w != nil && req != nil
  requires w is response.Writer ==> wsync(w)
  requires !(w is response.Writer) ==> nsent[w] == 0 && wstat[w] == 0 && wacc[w] == 0
  nopanic
  let own = w is response.Writer
  let b = wbase(w)
  let code = ite(own, wstat[w], scode[w])
  let bytes = ite(own, wbytes[w], wacc[w])
  let failed = hpanicked || spanicked || serr != nil
  let cause = ite(hpanicked, hpv, ite(spanicked, spv, serr))
  let before = ite(hpanicked, ite(own, old(wstat[w]), 0), sstat)
  let label = itoa(code)
  let requests = vecctr(ref(handler.PromRequestsTotal), label)
  let sent = vecctr(ref(handler.PromSendBytesTotal), label)
  let latency = vecctr(ref(handler.PromLatencyTotal), label)
  modifies header_sent(w), header_sent(wbase(w)), body_sent(wbase(w)), wbytes[w], wbytes, npush, plog, perrs, pwhen, popt, ntrans, tsrc, terr, twhen, topen, tn, bclosed, bclerr, hdr(hm(w))[..]
  modifies served, swriter, scoder, shdrs, sbody, serr, spanicked, spv, sstat
  modifies hcalls[a.Inner], hreq, hcode, hhdrs, hbody, herror, hpanicked, hpv, opcalls, operr, cadds, clast, hobs, hlast, clock
  ensures [C23:asked-once] hcalls[a.Inner] == old(hcalls[a.Inner]) + 1 && hreq == ref(req)
  ensures [C23:served-once] served == old(served) + ite(hpanicked, 0, 1)
  ensures [C23:served-on] !hpanicked ==> swriter == w && own || wnext[swriter] == w && !own
  ensures [C23:served] !hpanicked ==> scoder == hcode && shdrs == hhdrs && sbody == hbody
  ensures [C23:callback-once] opcalls == old(opcalls) + ite(failed, 1, 0)
  ensures [C23:callback-cause] failed && cause is error ==> operr == cause
  ensures [C23:callback-cause] failed && !(cause is error) ==> operr is handler.PanicError && operr.(handler.PanicError).Value == cause
  ensures [C23:answered] !own ==> nsent[w] == 1
  ensures [C23:answered] code == ite(before == 0, 500, before)
  ensures [C24:counted-once] cadds[requests] == old(cadds)[requests] + 1
  ensures [C24:counted-once] clast[requests] == float(1)
  ensures [C24:only-that-status] forall (c : Iface) {cadds[c]} :: cvec(c) == ref(handler.PromRequestsTotal) && c != requests ==> cadds[c] == old(cadds[c])
  ensures [C24:sent-bytes] cadds[sent] == old(cadds)[sent] + 1 && clast[sent] == float(bytes) || bytes == 0 && cadds[sent] == old(cadds)[sent]
  ensures [C24:sent-bytes] forall (c : Iface) {cadds[c]} :: cvec(c) == ref(handler.PromSendBytesTotal) && c != sent ==> cadds[c] == old(cadds[c])
  ensures [C24:sent-bytes-observed] hobs[handler.PromSendBytesHist] == old(hobs[handler.PromSendBytesHist]) + 1 && hlast[handler.PromSendBytesHist] == float(bytes)
  ensures [C24:latency] hobs[handler.PromLatencyHist] == old(hobs[handler.PromLatencyHist]) + 1
  ensures [C24:latency] cadds[latency] == old(cadds)[latency] + 1 && clast[latency] == hlast[handler.PromLatencyHist]
  ensures [C24:latency] forall (c : Iface) {cadds[c]} :: cvec(c) == ref(handler.PromLatencyTotal) && c != latency ==> cadds[c] == old(cadds[c])
  ensures [C24:panics] cadds[handler.PromPanicsTotal] == old(cadds[handler.PromPanicsTotal]) + ite(failed, 1, 0)
  ensures [C24:panics] failed ==> clast[handler.PromPanicsTotal] == float(1)
}
func (handler.HandlerFunc).Handle(f, req) (resp) {
  props C23
  maypanic
  requires f != nil
  modifies fcalls, freq, fcode, fhdrs, fbody, ferror
  ensures [C23:asked-once] fcalls == old(fcalls) + 1 && freq == ref(req)
  ensures [C23:served] fcode == resp.code && fhdrs == ref(resp.hdrs) && fbody == resp.body && ferror == resp.err
}
ghost var fcalls : Int
ghost var freq : Int
ghost var fcode : Int
ghost var fhdrs : Int
ghost var fbody : Iface
ghost var ferror : Iface
extern "func func(*http.Request) response.Response"(f, req) (resp) {
  maypanic
  modifies fcalls, freq, fcode, fhdrs, fbody, ferror
  ensures fcalls == old(fcalls) + 1 && freq == ref(req)
  ensures fcode == resp.code && fhdrs == ref(resp.hdrs) && fbody == resp.body && ferror == resp.err
}
