# ---- response builder ----

extern (http.Header).Set(h, key, value) { 
  inline
}
extern (http.Header).Add(h, key, value) {
  inline
}
extern (http.Header).Del(h, key) {
  inline
}
extern (http.Header).Get(h, key) (v) {
  inline
}
extern (http.Header).Values(h, key) (v) {
  inline
}
extern (textproto.MIMEHeader).Set(h, key, value) {
  inline
}
extern (textproto.MIMEHeader).Add(h, key, value) {
  inline
}
extern (textproto.MIMEHeader).Del(h, key) {
  inline
}
extern (textproto.MIMEHeader).Get(h, key) (v) {
  inline
}
extern (textproto.MIMEHeader).Values(h, key) (v) {
  inline
}

# Clone gives every list that is not empty a full slice of one new array
extern (http.Header).Clone(h) (r) {
  allocates m vals
  ensures ref(r) == ite(h == nil, 0, m)
  ensures forall k string :: has(r, k) <==> has(h, k)
  ensures forall k string :: has(r, k) ==> len(r[k]) == len(h[k]) && cap(r[k]) == len(r[k]) && (len(r[k]) == 0 || arr(r[k]) == vals)
  ensures forall k string :: has(r, k) ==> forall i in 0..len(r[k]) :: r[k][i] == h[k][i]
  ensures len(r) == len(h)
}
mutable response.DefaultPageGenerator

# ---- the bodies a response carries: any implementation of body.Body ----
ghost var brem : map Iface Int        # bytes remaining, -1 unknown
ghost var bcopies : map Iface Int     # copies made of it
ghost var blast : map Iface Iface     # the last copy made
ghost var bcerr : map Iface Iface     # error of the last Copy

extern (body.Body).BytesRemaining(b) (n) {
  ensures n == brem[b] && n >= -1
}
extern (body.Body).Copy(b) (c, err) {
  maypanic
  modifies bcopies[b], blast[b], bcerr[b]
  panic-ensures bcopies[b] == old(bcopies[b]) + 1
  ensures bcopies[b] == old(bcopies[b]) + 1 && blast[b] == c && bcerr[b] == err
  ensures err == nil ==> c != nil
}

# library functions the setters rely on, as unknown functions of their arguments
ghost fn trimspace(Str) Str
extern strings.TrimSpace(s) (t) {
  ensures t == trimspace(s)
}
ghost fn b64(Int, Str) Str
extern (*base64.Encoding).EncodeToString(e, p) (s) {
  ensures s == b64(e, string(p))
}
# parsing a media type: whether it succeeds, the type and its parameters;
# formatting a type with parameters
ghost fn mpok(Str) Bool
ghost fn mptype(Str) Str
ghost fn mpdom(Str) map Str Bool
ghost fn mpvals(Str) map Str Str
ghost fn mfmt(Str, map Str Bool, map Str Str) Str
extern mime.ParseMediaType(v) (t, params, err) {
  fresh params
  ensures err == nil <==> mpok(v)
  ensures err == nil ==> t == mptype(v) && dom(params) == mpdom(v) && vals(params) == mpvals(v)
}
extern mime.FormatMediaType(t, params) (s) {
  ensures s == mfmt(t, dom(params), vals(params))
}

# the content types the setters use are in normal form (checked by running mime on them)
define normalmt(v) = mpok(v) && mfmt(mptype(v), mpdom(v), mpvals(v)) == v
axiom normalmt("application/json") && normalmt("application/vnd.google.protobuf") && normalmt("text/plain; charset=utf-8")

# same values under key k as before the call
define hkeep(@h, k) = (has(h, k) <==> old(has(h, k))) && (has(h, k) ==> len(h[k]) == old(len(h[k])) && (forall i in 0..len(h[k]) :: h[k][i] == old(h[k][i])))
define hone(h, k, v) = has(h, k) && len(h[k]) == 1 && h[k][0] == v
define hlen(@h, k) = ite(has(h, k), len(h[k]), 0)
define happ(@h, k, v) = has(h, k) && len(h[k]) == old(hlen(h, k)) + 1 && h[k][len(h[k]) - 1] == v && (old(has(h, k)) ==> forall i in 0..old(len(h[k])) :: h[k][i] == old(h[k][i]))

define bcode(b) = b.code == 0 || (200 <= b.code && b.code <= 999)
# no two headers share storage that appending to one could overwrite in the other
define hsep(h) = forall (k1 : Str, k2 : Str) {has(h, k1), has(h, k2)} :: k1 != k2 && has(h, k1) && has(h, k2) ==> cap(h[k1]) == len(h[k1]) || arr(h[k1]) != arr(h[k2])
define binv(b) = bcode(b) && hsep(b.hdrs)
# the value under k in h is the one g had before the call
define hmoved(h, @g, k) = (has(h, k) <==> old(has(g, k))) && (has(h, k) ==> len(h[k]) == old(len(g[k])) && (forall i in 0..len(h[k]) :: h[k][i] == old(g[k][i])))
define only_hdrs(b) = same_gen(b) && same_code(b) && same_body(b) && same_err(b)
define same_gen(b) = b.gen == old(b.gen)
define same_code(b) = b.code == old(b.code)
define same_hdrs(b) = forall k string :: hkeep(b.hdrs, k)
define same_hdrs_but(b, x) = forall k string :: k != x ==> hkeep(b.hdrs, k)
define same_body(b) = b.body == old(b.body)
define same_err(b) = b.err == old(b.err)
define same_builder(b) = same_gen(b) && same_code(b) && b.hdrs == old(b.hdrs) && same_hdrs(b) && same_body(b) && same_err(b)


func response.NewBuilder() (b) {
  props C15 C17 C26
  ensures [C26:empty] fresh(b) && b.gen == nil && b.code == 0 && len(b.hdrs) == 0 && b.body == nil && b.err == nil
  ensures [C17:status-in-range] binv(b)
}

func (*response.Builder).PageGenerator(b) (g) {
  props C26
  nopanic
  ensures [C26:default] g == ite(b.gen == nil, response.DefaultPageGenerator, b.gen)
}
func (*response.Builder).Status(b) (n) {
  props C26 C17
  requires binv(b)
  ensures [C26 C17:last-set] n == b.code && bcode(b)
}
func (*response.Builder).Headers(b) (h) {
  props C26 C17
  requires binv(b)
  nopanic
  modifies b.hdrs
  ensures [C26:last-set] h != nil && h == b.hdrs && same_hdrs(b)
  ensures [C26:last-set] old(b.hdrs) != nil ==> h == old(b.hdrs)
  ensures [C26:last-set] old(b.hdrs) == nil ==> fresh(h) && len(h) == 0
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).Body(b) (r) {
  props C26
  ensures [C26:last-set] r == b.body
}
func (*response.Builder).Err(b) (err) {
  props C26
  ensures [C26:last-set] err == b.err
}
func (*response.Builder).WithPageGenerator(b, gen) (r) {
  props C17 C26
  requires binv(b)
  panics when gen == nil
  abort-ensures [C17:rejected] same_builder(b)
  modifies b.gen
  ensures [C26:set] r == b && b.gen == gen
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithStatus(b, code) (r) {
  props C17 C26
  requires binv(b)
  panics when code < 200 || code > 999
  abort-ensures [C17:rejected] same_builder(b)
  modifies b.code
  ensures [C17 C26:accepted] r == b && b.code == code
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithHeaders(b, hdrs) (r) {
  props C16 C26 C17
  requires binv(b)
  modifies b.hdrs
  loop len(_s1) <= len(_s2) && forall k in 0..len(_s1) :: _s1[k] == _s2[k]
  loop forall k in 0.._i1 :: _s1[k] == _s2[k]
  loop forall k string :: has(_d1, k) <==> _v1[k]
  loop forall k string :: _v1[k] ==> len(_d1[k]) == 0 || fresh(_d1[k])
  loop forall k string :: _v1[k] ==> len(_d1[k]) == old(len(hdrs[k]))
  loop forall k string :: _v1[k] ==> cap(_d1[k]) == len(_d1[k])
  loop hsep(_d1)
  loop forall k string :: _v1[k] ==> forall i in 0..len(_d1[k]) :: _d1[k][i] == old(hdrs[k][i])
  ensures [C26:set] r == b
  ensures [C16:private] len(b.hdrs) > 0 ==> fresh(b.hdrs)
  ensures [C16:private] forall k string :: has(b.hdrs, k) ==> len(b.hdrs[k]) == 0 || fresh(b.hdrs[k])
  ensures [C16:same-names] forall k string :: has(b.hdrs, k) <==> old(has(hdrs, k))
  ensures [C16:same-values] forall k string :: has(b.hdrs, k) ==> len(b.hdrs[k]) == old(len(hdrs[k])) && forall i in 0..len(b.hdrs[k]) :: b.hdrs[k][i] == old(hdrs[k][i])
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithHeader(b, name, value, add) (r) {
  props C17 C26
  requires binv(b)
  panics when name == ""
  abort-ensures [C17:rejected] same_builder(b)
  modifies b.hdrs, b.hdrs[..], b.hdrs[canon(name)][0:cap(b.hdrs[canon(name)])]
  ensures [C26:returned] r == b
  ensures [C26:set] !add ==> hone(b.hdrs, canon(name), value)
  ensures [C26:added] add ==> happ(b.hdrs, canon(name), value)
  ensures [C26:others] same_hdrs_but(b, canon(name))
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithoutHeader(b, name) (r) {
  props C17 C26
  requires binv(b)
  panics when name == ""
  abort-ensures [C17:rejected] same_builder(b)
  modifies b.hdrs, b.hdrs[..]
  ensures [C26:removed] r == b && !has(b.hdrs, canon(name))
  ensures [C26:others] same_hdrs_but(b, canon(name))
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithContentType(b, str) (r) {
  props C26 C17
  requires binv(b)
  let norm = mfmt(mptype(str), mpdom(str), mpvals(str))
  panics when !mpok(str) || norm == ""
  abort-ensures [C26:rejected] same_builder(b)
  modifies b.hdrs, b.hdrs[..]
  ensures [C26:set] r == b && hone(b.hdrs, "Content-Type", norm)
  ensures [C26:others] same_hdrs_but(b, "Content-Type")
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithContentLanguage(b, str) (r) {
  props C26 C17
  requires binv(b)
  modifies b.hdrs, b.hdrs[..]
  ensures [C26:set] r == b && hone(b.hdrs, "Content-Language", trimspace(str))
  ensures [C26:others] same_hdrs_but(b, "Content-Language")
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithContentEncoding(b, str) (r) {
  props C26 C17
  requires binv(b)
  modifies b.hdrs, b.hdrs[..]
  ensures [C26:set] r == b && hone(b.hdrs, "Content-Encoding", trimspace(str))
  ensures [C26:others] same_hdrs_but(b, "Content-Encoding")
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithETag(b, tag, strong) (r) {
  props C26 C17
  requires binv(b)
  modifies b.hdrs, b.hdrs[..]
  ensures [C26:set] r == b && (strong ==> hone(b.hdrs, "Etag", "\"" + tag + "\"")) && (!strong ==> hone(b.hdrs, "Etag", "W/\"" + tag + "\""))
  ensures [C26:others] same_hdrs_but(b, "Etag")
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithDigest(b, algo, sum) (r) {
  props C26 C17
  requires binv(b)
  panics when algo == "" || len(sum) == 0
  abort-ensures [C26:rejected] same_builder(b)
  modifies b.hdrs, b.hdrs[..], b.hdrs["Digest"][0:cap(b.hdrs["Digest"])]
  ensures [C26:set] r == b && happ(b.hdrs, "Digest", algo + "=" + b64(base64.StdEncoding, string(sum)))
  ensures [C26:others] same_hdrs_but(b, "Digest")
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithBody(b, x) (r) {
  props C17 C26
  requires binv(b)
  panics when x == nil
  abort-ensures [C17:rejected] same_builder(b)
  modifies b.body
  ensures [C26:set] r == b && b.body == x
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithJSON(b, v) (r) {
  props C26 C17
  requires binv(b)
  mightpanic when true
  abort-ensures [C26:rejected] same_builder(b) && jcount[v] == old(jcount[v]) + 1 && jerr[v] != nil
  modifies b.body, b.hdrs, b.hdrs[..], jcount[v], jerr[v], jlen[v], jat[v], jset[v], jind[v]
  ensures [C26:body] r == b && jcount[v] == old(jcount[v]) + 1 && jset[v] && jind[v] == "" && jerr[v] == nil && holds_n(b.body, jlen[v])
  ensures [C26:body] forall k in 0..jlen[v] :: b.body.(*body.bytesBody).data[k] == jat[v][k]
  ensures [C26:content-type] hone(b.hdrs, "Content-Type", "application/json")
  ensures [C26:others] same_hdrs_but(b, "Content-Type")
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithPrettyJSON(b, v) (r) {
  props C26 C17
  requires binv(b)
  mightpanic when true
  abort-ensures [C26:rejected] same_builder(b) && jcount[v] == old(jcount[v]) + 1 && jerr[v] != nil
  modifies b.body, b.hdrs, b.hdrs[..], jcount[v], jerr[v], jlen[v], jat[v], jset[v], jind[v]
  ensures [C26:body] r == b && jcount[v] == old(jcount[v]) + 1 && jset[v] && jind[v] != "" && jerr[v] == nil && holds_n(b.body, jlen[v] + nlf(jat[v], jlen[v]))
  let d = b.body.(*body.bytesBody).data
  ensures [C26:body] forall k in 0..jlen[v] :: jat[v][k] != 10 ==> d[k + nlf(jat[v], k)] == jat[v][k]
  ensures [C26:body] forall k in 0..jlen[v] :: jat[v][k] == 10 ==> d[k + nlf(jat[v], k)] == 13 && d[k + nlf(jat[v], k) + 1] == 10
  ensures [C26:content-type] hone(b.hdrs, "Content-Type", "application/json")
  ensures [C26:others] same_hdrs_but(b, "Content-Type")
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithProto(b, m) (r) {
  props C26 C17
  requires binv(b)
  mightpanic when true
  abort-ensures [C26:rejected] same_builder(b)
  modifies b.body, b.hdrs, b.hdrs[..], pcount[m], perr[m], plen[m], pat[m]
  ensures [C26:body] r == b && m != nil && pcount[m] == old(pcount[m]) + 1 && perr[m] == nil && holds_n(b.body, plen[m])
  ensures [C26:body] forall k in 0..plen[m] :: b.body.(*body.bytesBody).data[k] == pat[m][k]
  ensures [C26:content-type] hone(b.hdrs, "Content-Type", "application/vnd.google.protobuf")
  ensures [C26:others] same_hdrs_but(b, "Content-Type")
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithProtoText(b, m, o) (r) {
  props C26 C17
  requires binv(b)
  mightpanic when true
  abort-ensures [C26:rejected] same_builder(b)
  modifies b.body, b.hdrs, b.hdrs[..], pcount[m], perr[m], plen[m], pat[m], pmulti[m], pindent[m], pother[m]
  ensures [C26:body] r == b && m != nil && pcount[m] == old(pcount[m]) + 1 && perr[m] == nil && holds_n(b.body, plen[m])
  ensures [C26:body] forall k in 0..plen[m] :: b.body.(*body.bytesBody).data[k] == pat[m][k]
  ensures [C26:options] pmulti[m] == ite(o == nil, true, old(o.Multiline)) && pother[m] == ite(o == nil, false, old(o.EmitASCII || o.AllowPartial || o.EmitUnknown))
  ensures [C26:options] o != nil ==> pindent[m] == old(o.Indent)
  ensures [C26:content-type] hone(b.hdrs, "Content-Type", "text/plain; charset=utf-8")
  ensures [C26:others] same_hdrs_but(b, "Content-Type")
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).WithError(b, err) (r) {
  props C26 C17
  requires binv(b)
  modifies b.err
  ensures [C26:set] r == b && b.err == err
  ensures [C17:status-in-range] binv(b)
}

func (*response.Builder).Copy(b) (c, err) {
  props C16 C17
  requires binv(b)
  maypanic
  modifies bcopies[b.body], blast[b.body], bcerr[b.body]
  loop len(_s1) <= len(_s2) && forall k in 0..len(_s1) :: _s1[k] == _s2[k]
  loop forall k in 0.._i1 :: _s1[k] == _s2[k]
  loop forall k string :: has(_d1, k) <==> _v1[k]
  loop forall k string :: _v1[k] ==> len(_d1[k]) == 0 || fresh(_d1[k])
  loop forall k string :: _v1[k] ==> len(_d1[k]) == old(len(b.hdrs[k]))
  loop forall k string :: _v1[k] ==> cap(_d1[k]) == len(_d1[k])
  loop hsep(_d1)
  loop forall k string :: _v1[k] ==> forall i in 0..len(_d1[k]) :: _d1[k][i] == old(b.hdrs[k][i])
  ensures [C16:body-copied-once] b.body != nil ==> bcopies[b.body] == old(bcopies[b.body]) + 1
  let failed = b.body != nil && bcerr[b.body] != nil
  ensures [C16:failure] failed ==> c == nil && err == bcerr[b.body]
  ensures [C16:success] !failed ==> fresh(c) && err == nil
  ensures [C16:same-settings] !failed ==> c.code == b.code && c.err == b.err && c.gen == b.gen
  ensures [C16:body] !failed ==> c.body == ite(b.body == nil, nil, blast[b.body])
  ensures [C16:private] !failed && len(c.hdrs) > 0 ==> fresh(c.hdrs)
  ensures [C16:private] !failed ==> forall k string :: has(c.hdrs, k) ==> len(c.hdrs[k]) == 0 || fresh(c.hdrs[k])
  ensures [C16:same-names] !failed ==> forall k string :: has(c.hdrs, k) <==> old(has(b.hdrs, k))
  ensures [C16:same-values] !failed ==> forall k string :: has(c.hdrs, k) ==> len(c.hdrs[k]) == old(len(b.hdrs[k])) && forall i in 0..len(c.hdrs[k]) :: c.hdrs[k][i] == old(b.hdrs[k][i])
  ensures [C16:original] same_builder(b)
  ensures [C17:status-in-range] !failed ==> binv(c)
}

func (*response.Builder).Build(b) (r) {
  props C15 C17
  requires binv(b)
  loop len(_s1) <= len(_s2) && forall k in 0..len(_s1) :: _s1[k] == _s2[k]
  loop forall k in 0.._i1 :: _s1[k] == _s2[k]
  loop forall k string :: has(_d1, k) <==> _v1[k]
  loop forall k string :: _v1[k] ==> len(_d1[k]) == 0 || fresh(_d1[k])
  loop forall k string :: _v1[k] ==> len(_d1[k]) == old(len(b.hdrs[k]))
  loop forall k string :: _v1[k] ==> forall i in 0..len(_d1[k]) :: _d1[k][i] == old(b.hdrs[k][i])
  panics when b.body == nil
  abort-ensures [C15:rejected] same_builder(b)
  modifies b.code, b.hdrs, b.hdrs[..], b.body, b.err
  let x = old(b.body)
  ensures [C15:new] fresh(r)
  ensures [C15 C17:status] r.code == ite(old(b.code) == 0, 200, old(b.code)) && 200 <= r.code && r.code <= 999
  ensures [C15:body-and-error] r.body == x && r.err == old(b.err)
  ensures [C15:content-type] old(has(b.hdrs, "Content-Type")) ==> hmoved(r.hdrs, b.hdrs, "Content-Type")
  ensures [C15:content-type] !old(has(b.hdrs, "Content-Type")) ==> hone(r.hdrs, "Content-Type", "application/octet-stream")
  ensures [C15:content-length] old(has(b.hdrs, "Content-Length")) || brem[x] < 0 ==> hmoved(r.hdrs, b.hdrs, "Content-Length")
  ensures [C15:content-length] !old(has(b.hdrs, "Content-Length")) && brem[x] >= 0 ==> hone(r.hdrs, "Content-Length", itoa(brem[x]))
  ensures [C15:other-headers] forall k string :: k != "Content-Type" && k != "Content-Length" ==> hmoved(r.hdrs, b.hdrs, k)
  ensures [C15:reset] b.code == 0 && len(b.hdrs) == 0 && b.body == nil && b.err == nil && same_gen(b)
  ensures [C15:reset] b.hdrs == nil || b.hdrs != r.hdrs
  ensures [C17:status-in-range] binv(b)
}
