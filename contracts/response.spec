# ---- responses ----

# what a response writer has been given: status lines, header map, pushes, bodies
ghost fn hm(Iface) Int                      # its header map, always the same one
ghost var nsent : map Iface Int             # WriteHeader calls it received
ghost var scode : map Iface Int             # code of the last
ghost var shas : map Iface map Str Bool     # the header map at the last WriteHeader
ghost var slen : map Iface map Str Int
ghost var sval : map Iface map Str map Int Str
ghost var wstat : map Iface Int             # status it reports; 0 before
ghost var wbytes : map Iface Int            # bytes it reports to have written
ghost var wsaw : map Iface Bool             # whether it reports an error
ghost var npush : map Iface Int             # pushes offered to it,
ghost var plog : map Iface map Int Str      # each with its target,
ghost var perrs : map Iface map Int Iface   # its outcome,
ghost var popt : map Iface Int              # options of the last
ghost var pwhen : map Iface map Int Int     # and nsent when it was offered
ghost var ntrans : map Iface Int            # whole bodies copied to it,
ghost var tsrc : map Iface Iface            # the last from this source,
ghost var tn : map Iface Int                # with this outcome,
ghost var terr : map Iface Iface
ghost var twhen : map Iface Int             # when this many headers had been sent
ghost var topen : map Iface Bool            # and the source had not been closed
ghost var bclosed : map Iface Int           # Close calls a body received
ghost var bclerr : map Iface Iface          # what the last returned

define goodcode(c) = 100 <= c && c <= 999

# a writer made by NewWriter (or another implementation of response.Writer) stands
# before the writer wnext[w]; wbase(w) is the one that sends
ghost var wnext : map Iface Iface
ghost var wacc : map Iface Int              # body bytes the sending writer accepted
define wbase(w) = ite(w is response.Writer, wnext[w], w)
# what a wrapper reports is what the writer behind it was sent
define wsync(w) = (wstat[w] == 0 || goodcode(wstat[w])) && nsent[wnext[w]] == ite(wstat[w] == 0, 0, 1) &&
  (wstat[w] != 0 ==> scode[wnext[w]] == wstat[w]) && wbytes[w] == wacc[wnext[w]] && wbytes[w] >= 0
define keeps_sync(w) = w is response.Writer && old(wsync(w)) ==> wsync(w)
define keeps_status(w) = wstat[w] == old(wstat[w]) || old(wstat[w]) == 0 && goodcode(wstat[w])

footprint header_sent(w) = nsent[w], scode[w], shas[w], slen[w], sval[w], wstat[w], wsaw[w]
footprint body_sent(w) = wcalls[w], wplen[w], wpdat[w], wn[w], werr[w], wlen[w], wout[w], wbytes[w], wacc[w], nfrom[w], fsrc[w], fn[w], ferr[w]
footprint transferred(w) = ntrans[w], tsrc[w], terr[w], twhen[w], topen[w], tn[w]
footprint pushed(w) = npush[w], plog[w], perrs[w], pwhen[w], popt[w]

extern (http.ResponseWriter).Header(w) (h) {
  maypanic
  ensures h != nil && h == hdr(hm(w))
}
extern (http.ResponseWriter).WriteHeader(w, code) {
  mightpanic when !goodcode(code) || wstat[w] != 0
  modifies header_sent(w), header_sent(wbase(w))
  panic-ensures wstat[w] == old(wstat[w])
  panic-ensures keeps_sync(w)
  ensures goodcode(code)
  ensures nsent[w] == old(nsent[w]) + 1 && scode[w] == code
  ensures wstat[w] == ite(old(wstat[w]) == 0, code, old(wstat[w]))
  ensures keeps_sync(w)
  let h = hdr(hm(w))
  ensures forall k string :: shas[w][k] <==> has(h, k)
  ensures forall k string :: has(h, k) ==> slen[w][k] == len(h[k]) && forall i in 0..len(h[k]) :: sval[w][k][i] == h[k][i]
}
extern (http.Pusher).Push(w, url, opts) (err) {
  maypanic
  modifies pushed(w)
  let n = old(npush[w])
  ensures npush[w] == n + 1 && popt[w] == ref(opts)
  ensures plog[w][n] == url && perrs[w][n] == err && pwhen[w][n] == nsent[w]
  ensures forall (i : Int) {plog[w][i]} :: i != n ==> plog[w][i] == old(plog[w][i])
  ensures forall (i : Int) {perrs[w][i]} :: i != n ==> perrs[w][i] == old(perrs[w][i])
  ensures forall (i : Int) {pwhen[w][i]} :: i != n ==> pwhen[w][i] == old(pwhen[w][i])
}
extern (body.Body).Close(b) (err) {
  maypanic
  modifies bclosed[b], bclerr[b]
  ensures bclosed[b] == old(bclosed[b]) + 1 && bclerr[b] == err
}

# copying a whole body to a writer, which calls nothing but its Write or ReadFrom
define copied(w, @b, n, err) = ntrans[w] == old(ntrans[w]) + 1 && tsrc[w] == b && terr[w] == err && tn[w] == n && twhen[w] == old(nsent[w]) && (topen[w] <==> old(bclosed[b]) == 0)
define kept_header(@w) = nsent[w] == old(nsent[w]) && scode[w] == old(scode[w]) && shas[w] == old(shas[w]) && slen[w] == old(slen[w]) && sval[w] == old(sval[w])
extern io.Copy(w, b) (n, err) {
  maypanic
  modifies transferred(w), wstat[w], wbytes[w], wsaw[w], header_sent(wbase(w)), body_sent(wbase(w))
  panic-ensures keeps_status(w) && keeps_sync(w)
  ensures copied(w, b, n, err) && keeps_status(w) && keeps_sync(w) && n >= 0
  ensures kept_header(w)
}
extern io.CopyBuffer(w, b, p) (n, err) {
  maypanic
  modifies transferred(w), wstat[w], wbytes[w], wsaw[w], header_sent(wbase(w)), body_sent(wbase(w)), p[..]
  panic-ensures keeps_status(w) && keeps_sync(w)
  ensures copied(w, b, n, err) && keeps_status(w) && keeps_sync(w) && n >= 0
  ensures kept_header(w)
}
extern (io.WriterTo).WriteTo(b, w) (n, err) {
  maypanic
  modifies transferred(w), wstat[w], wbytes[w], wsaw[w], header_sent(wbase(w)), body_sent(wbase(w))
  panic-ensures keeps_status(w) && keeps_sync(w)
  ensures copied(w, b, n, err) && keeps_status(w) && keeps_sync(w) && n >= 0
  ensures kept_header(w)
}
func (*response.Response).Status(r) (n) {
  props C15 C17
  ensures [C15 C17:accessor] n == r.code
}
func (*response.Response).Headers(r) (h) {
  props C15
  ensures [C15:accessor] h == r.hdrs
}
func (*response.Response).Body(r) (b) {
  props C15
  ensures [C15:accessor] b == r.body
}
func (*response.Response).Err(r) (err) {
  props C15
  ensures [C15:accessor] err == r.err
}

func (*response.Response).Copy(r) (c, err) {
  props C16
  maypanic
  modifies bcopies[r.body], blast[r.body], bcerr[r.body]
  let failed = r.body != nil && bcerr[r.body] != nil
  ensures [C16:body-copied-once] r.body != nil ==> bcopies[r.body] == old(bcopies[r.body]) + 1
  ensures [C16:failure] failed ==> c == nil && err == bcerr[r.body]
  ensures [C16:success] !failed ==> fresh(c) && err == nil
  ensures [C16:same-settings] !failed ==> c.code == r.code && c.err == r.err
  ensures [C16:body] !failed ==> c.body == ite(r.body == nil, nil, blast[r.body])
  ensures [C16:same-headers] !failed ==> forall k string :: (has(c.hdrs, k) <==> has(r.hdrs, k)) && (has(c.hdrs, k) ==> len(c.hdrs[k]) == len(r.hdrs[k]) && forall i in 0..len(c.hdrs[k]) :: c.hdrs[k][i] == r.hdrs[k][i])
  ensures [C16:original] r.code == old(r.code) && r.hdrs == old(r.hdrs) && r.body == old(r.body) && r.err == old(r.err) && forall k string :: hkeep(r.hdrs, k)
}

# the last response served: how many were, with what, and how it ended
ghost var served : Int
ghost var swriter : Iface
ghost var scoder : Int
ghost var shdrs : Int
ghost var sbody : Iface
ghost var serr : Iface
ghost var spanicked : Bool
ghost var spv : Iface
ghost var sstat : Int

func (*response.Response).Serve(r, w) (err) {
  props C19 C20 C24
  requires w != nil && (wstat[w] == 0 || goodcode(wstat[w]))
  maypanic
  mightpanic when r.body == nil || !goodcode(r.code) || wstat[w] != 0
  modifies header_sent(w), pushed(w), transferred(w), wbytes[w], header_sent(wbase(w)), body_sent(wbase(w)), bclosed[r.body], bclerr[r.body], hdr(hm(w))[..]
  modifies served, swriter, scoder, shdrs, sbody, serr, spanicked, spv, sstat
  let b = r.body
  let p0 = old(npush[w])
  let offered = npush[w] - p0
  let list = ite(has(r.hdrs, "Push"), len(r.hdrs["Push"]), 0)
  let unpushed = offered > 0 && perrs[w][npush[w] - 1] != nil && !errIs(perrs[w][npush[w] - 1], http.ErrNotSupported)
  loop npush[w] == p0 + _i1
  loop npush[w] == p0 + _i1 + 1
  loop npush[w] >= p0
  loop npush[w] <= p0 + list
  loop forall i in p0..npush[w] :: plog[w][i] == r.hdrs["Push"][i - p0]
  loop forall i in p0..npush[w] :: pwhen[w][i] == nsent[w]
  loop forall i in p0..npush[w] :: perrs[w][i] == nil || errIs(perrs[w][i], http.ErrNotSupported)
  loop nsent[w] == old(nsent[w])
  loop wstat[w] == old(wstat[w])
  loop ntrans[w] == old(ntrans[w])
  loop bclosed[b] == old(bclosed[b])
  loop forall k string :: k != "Push" && _v1[k] ==> has(hdr(hm(w)), k)
  loop forall k string :: k != "Push" && _v1[k] ==> len(hdr(hm(w))[k]) == len(r.hdrs[k]) && forall i in 0..len(r.hdrs[k]) :: hdr(hm(w))[k][i] == r.hdrs[k][i]
  loop forall k string :: k == "Push" || !_v1[k] ==> hkeep(hdr(hm(w)), k)
  panic-ensures [C19:one-status] keeps_status(w)
  panic-ensures [C20 C24:as-reported] keeps_sync(w)
  ensures [C20 C24:as-reported] keeps_sync(w)
  logs served == old(served) + 1 && swriter == w && scoder == r.code && shdrs == ref(r.hdrs) && sbody == r.body && serr == err && !spanicked && sstat == wstat[w]
  panic-logs served == old(served) + 1 && swriter == w && scoder == r.code && shdrs == ref(r.hdrs) && sbody == r.body && spanicked && spv == panic && sstat == wstat[w]
  ensures [C19:pushes] !(w is http.Pusher) ==> offered == 0
  ensures [C19:pushes] w is http.Pusher && !unpushed ==> offered == list
  ensures [C19:pushes] 0 <= offered && offered <= list
  ensures [C19:push-order] forall i in p0..npush[w] :: plog[w][i] == r.hdrs["Push"][i - p0]
  ensures [C19:push-first] forall i in p0..npush[w] :: pwhen[w][i] == old(nsent[w])
  ensures [C19:push-stops] forall i in p0..npush[w]-1 :: perrs[w][i] == nil || errIs(perrs[w][i], http.ErrNotSupported)
  ensures [C19:failed-push] unpushed ==> err == perrs[w][npush[w] - 1] && nsent[w] == old(nsent[w]) && ntrans[w] == old(ntrans[w]) && wstat[w] == old(wstat[w])
  ensures [C19:failed-push] unpushed ==> forall k string :: hkeep(hdr(hm(w)), k)
  ensures [C19:one-status] !unpushed ==> nsent[w] == old(nsent[w]) + 1 && scode[w] == r.code
  ensures [C19:headers-sent] !unpushed ==> forall k string :: k != "Push" && has(r.hdrs, k) ==> shas[w][k] && slen[w][k] == len(r.hdrs[k]) && forall i in 0..len(r.hdrs[k]) :: sval[w][k][i] == r.hdrs[k][i]
  ensures [C19:only-headers] !unpushed ==> forall k string :: k == "Push" || !has(r.hdrs, k) ==> (shas[w][k] <==> old(has(hdr(hm(w)), k)))
  ensures [C19:body-copied] !unpushed ==> ntrans[w] == old(ntrans[w]) + 1 && tsrc[w] == b && twhen[w] == old(nsent[w]) + 1 && (topen[w] <==> old(bclosed[b]) == 0)
  ensures [C19:body-closed-once] bclosed[b] == old(bclosed[b]) + 1
  ensures [C19:first-failure] !unpushed ==> err == ite(terr[w] != nil, terr[w], bclerr[b])
  ensures [C19:one-status] err == nil ==> goodcode(wstat[w])
  ensures [C19:one-status] keeps_status(w)
}
