# ---- payload constructors ----

# a bytes.Buffer: length, bytes (and the same as a string), and whether it went back to the pool
type bytes.Buffer {
  ghost n Int
  ghost s Str
  ghost d map Int Int
  ghost pooled Bool
}
define kept(b, k) = forall i in 0..k :: b.d[i] == old(b.d[i])

extern bufferpool.Get() (b) {
  fresh b
  ensures b != nil && b.n == 0 && b.s == "" && !b.pooled
}
extern bufferpool.Put(b) {
  requires [C14:pool-discipline] !b.pooled
  modifies b.n, b.d, b.s, b.pooled, storage(b)
  ensures b.pooled
}
extern (*bytes.Buffer).Bytes(b) (p) {
  owned p
  requires [C14:pool-discipline] !b.pooled
  ensures len(p) == b.n && forall k in 0..len(p) :: p[k] == b.d[k]
  ensures p != nil && ownedby(p, b)
  ensures string(p) == b.s
}
extern (*bytes.Buffer).String(b) (r) {
  requires [C14:pool-discipline] !b.pooled
  ensures r == b.s && len(r) == b.n && forall k in 0..len(r) :: r[k] == b.d[k]
}
extern (*bytes.Buffer).Len(b) (n) {
  ensures n == b.n
}
extern (*bytes.Buffer).Grow(b, n) {
  requires n >= 0 && !b.pooled
  modifies storage(b)
}
extern (*bytes.Buffer).Reset(b) {
  requires !b.pooled
  modifies b.n, b.s, storage(b)
  ensures b.n == 0 && b.s == ""
}
extern (*bytes.Buffer).Truncate(b, n) {
  requires 0 <= n && n <= b.n && !b.pooled
  modifies b.n, b.s, storage(b)
  ensures b.n == n && (n == 0 ==> b.s == "")
}
extern (*bytes.Buffer).WriteByte(b, x) (err) {
  requires !b.pooled
  modifies b.n, b.d, b.s, storage(b)
  ensures err == nil && b.n == old(b.n) + 1 && b.d[old(b.n)] == x && kept(b, old(b.n))
  ensures b.s == old(b.s) + chr(x)
}
extern (*bytes.Buffer).Write(b, p) (n, err) {
  requires !b.pooled
  modifies b.n, b.d, b.s, storage(b)
  ensures err == nil && n == len(p) && b.n == old(b.n) + n && kept(b, old(b.n))
  ensures forall k in 0..len(p) :: b.d[old(b.n) + k] == old(p[k])
  ensures b.s == old(b.s) + string(p)
}
extern (*bytes.Buffer).WriteString(b, s) (n, err) {
  requires !b.pooled
  modifies b.n, b.d, b.s, storage(b)
  ensures err == nil && n == len(s) && b.n == old(b.n) + n && kept(b, old(b.n))
  ensures forall k in 0..len(s) :: b.d[old(b.n) + k] == s[k]
  ensures b.s == old(b.s) + s
}
# number of line feeds among the first i bytes
ghost fn nlf(map Int Int, Int) Int
axiom forall (a : map Int Int) {nlf(a, 0)} :: nlf(a, 0) == 0
axiom forall (a : map Int Int, i : Int, j : Int) {nlf(a, i), nlf(a, j)} :: i >= 0 && j == i + 1 ==> nlf(a, j) == nlf(a, i) + ite(a[i] == 10, 1, 0)
lemma by j [C14:newlines-monotone] forall (a : map Int Int, i : Int, j : Int) {nlf(a, i), nlf(a, j)} :: i >= 0 && i < j ==> nlf(a, i) + ite(a[i] == 10, 1, 0) <= nlf(a, j)
lemma by i [C14:newlines-bounded] forall (a : map Int Int, i : Int) {nlf(a, i)} :: i >= 0 ==> 0 <= nlf(a, i) && nlf(a, i) <= i


extern bytes.IndexByte(s, c) (i) {
  pure
  ensures -1 <= i && i < len(s)
  ensures i >= 0 ==> s[i] == c
  ensures forall k in 0..ite(i < 0, len(s), i) :: s[k] != c
}
extern bytes.Count(s, sep) (n) {
  ensures 0 <= n && n <= len(s) + 1
  ensures len(sep) == 1 && sep[0] == 10 ==> forall (m : map Int Int) {nlf(m, len(s))} :: (forall k in 0..len(s) :: m[k] == s[k]) ==> n == nlf(m, len(s))
}
extern bytes.ReplaceAll(s, from, to) (p) {
  fresh p
  ensures len(from) == 1 && from[0] == 10 && len(to) == 2 && to[0] == 13 && to[1] == 10 ==> forall (m : map Int Int) {nlf(m, len(s))} :: (forall k in 0..len(s) :: m[k] == s[k]) ==> len(p) == len(s) + nlf(m, len(s)) && (forall k in 0..len(s) :: m[k] != 10 ==> p[k + nlf(m, k)] == m[k]) && (forall k in 0..len(s) :: m[k] == 10 ==> p[k + nlf(m, k)] == 13 && p[k + nlf(m, k) + 1] == 10)
}

# a JSON encoder: where it writes, and its settings
ghost var jw : map Int Iface
ghost var jhtml : map Int Bool
ghost var jprefix : map Int Str
ghost var jindent : map Int Str
# the last encoding made of a value: how many were made, error, settings, bytes
ghost var jcount : map Iface Int
ghost var jerr : map Iface Iface
ghost var jset : map Iface Bool
ghost var jind : map Iface Str
ghost var jlen : map Iface Int
ghost var jat : map Iface map Int Int

extern json.NewEncoder(w) (e) {
  fresh e
  ensures e != nil && jw[e] == w && jhtml[e] && jprefix[e] == "" && jindent[e] == ""
}
extern (*json.Encoder).SetEscapeHTML(e, on) {
  modifies jhtml[e]
  ensures jhtml[e] == on
}
extern (*json.Encoder).SetIndent(e, prefix, indent) {
  modifies jprefix[e], jindent[e]
  ensures jprefix[e] == prefix && jindent[e] == indent
}
extern (*json.Encoder).Encode(e, v) (err) {
  requires [C14:into-a-buffer] jw[e] is *bytes.Buffer && !jw[e].(*bytes.Buffer).pooled
  let b = jw[e].(*bytes.Buffer)
  modifies b.n, b.d, b.s, storage(b), jcount[v], jerr[v], jlen[v], jat[v], jset[v], jind[v]
  ensures jcount[v] == old(jcount[v]) + 1 && jerr[v] == err
  ensures jset[v] <==> (!jhtml[e] && jprefix[e] == "")
  ensures err == nil ==> jlen[v] >= 1 && jlen[v] <= 281474976710656 && b.n == old(b.n) + jlen[v]
  ensures err == nil ==> forall k in 0..jlen[v] :: 0 <= jat[v][k] && jat[v][k] <= 255
  ensures err == nil ==> forall k in 0..old(b.n) :: b.d[k] == old(b.d[k])
  ensures err == nil ==> forall k in 0..b.n :: k >= old(b.n) ==> b.d[k] == jat[v][k - old(b.n)]
  ensures jind[v] == jindent[e]
  ensures b.n >= 0
}

# the last protocol buffer encoding (binary or text) made of a message
ghost var pcount : map Iface Int
ghost var perr : map Iface Iface
ghost var plen : map Iface Int
ghost var pat : map Iface map Int Int

extern proto.Marshal(m) (p, err) {
  fresh p
  modifies pcount[m], perr[m], plen[m], pat[m]
  ensures pcount[m] == old(pcount[m]) + 1 && perr[m] == err
  ensures err == nil ==> len(p) == plen[m] && forall k in 0..len(p) :: p[k] == pat[m][k]
}

ghost var pmulti : map Iface Bool
ghost var pindent : map Iface Str
ghost var pother : map Iface Bool
extern (prototext.MarshalOptions).Marshal(o, m) (p, err) {
  fresh p
  modifies pcount[m], perr[m], plen[m], pat[m], pmulti[m], pindent[m], pother[m]
  ensures pcount[m] == old(pcount[m]) + 1 && perr[m] == err
  ensures pmulti[m] == o.Multiline && pindent[m] == o.Indent
  ensures pother[m] <==> (o.EmitASCII || o.AllowPartial || o.EmitUnknown)
  ensures err == nil ==> len(p) == plen[m] && forall k in 0..len(p) :: p[k] == pat[m][k]
}

# a new in-memory body holding n bytes, standing at its start
define holds_n(b, n) =
  (n == 0 ==> b is *body.emptyBody && fresh(ref(b)) && !b.(*body.emptyBody).eof && !b.(*body.emptyBody).closed) &&
  (n > 0 ==> b is *body.bytesBody && fresh(ref(b)) && len(b.(*body.bytesBody).data) == n && fresh(b.(*body.bytesBody).data) &&
     b.(*body.bytesBody).offset == 0 && !b.(*body.bytesBody).eof && !b.(*body.bytesBody).closed)

func body.FromJSON(v) (b) {
  props C14
  nopanic
  modifies jcount[v], jerr[v], jlen[v], jat[v], jset[v], jind[v]
  mightpanic when true
  panic-ensures [C14:encoder-error] jcount[v] == old(jcount[v]) + 1 && jerr[v] != nil && panic == jerr[v]
  ensures [C14:encoded-once] jcount[v] == old(jcount[v]) + 1 && jset[v] && jind[v] == "" && jerr[v] == nil
  ensures [C14:length] holds_n(b, jlen[v])
  ensures [C14:bytes] forall k in 0..jlen[v] :: b.(*body.bytesBody).data[k] == jat[v][k]
}

func body.FromPrettyJSON(v) (b) {
  props C14
  nopanic
  modifies jcount[v], jerr[v], jlen[v], jat[v], jset[v], jind[v]
  mightpanic when true
  panic-ensures [C14:encoder-error] jcount[v] == old(jcount[v]) + 1 && jerr[v] != nil && panic == jerr[v]
  loop len(_s1) == _i1 + nlf(jat[v], _i1)
  loop len(_s1) == jlen[v] + nlf(jat[v], jlen[v])
  loop _i2 == _i1 + nlf(jat[v], _i1)
  loop _p1.n == _i1 + nlf(jat[v], _i1)
  loop forall k in 0.._i1 :: jat[v][k] != 10 ==> _p1.d[k + nlf(jat[v], k)] == jat[v][k]
  loop forall k in 0.._i1 :: jat[v][k] == 10 ==> _p1.d[k + nlf(jat[v], k)] == 13 && _p1.d[k + nlf(jat[v], k) + 1] == 10
  loop forall k in 0.._i1 :: jat[v][k] != 10 ==> _s1[k + nlf(jat[v], k)] == jat[v][k]
  loop forall k in 0.._i1 :: jat[v][k] == 10 ==> _s1[k + nlf(jat[v], k)] == 13 && _s1[k + nlf(jat[v], k) + 1] == 10
  ensures [C14:encoded-once] jcount[v] == old(jcount[v]) + 1 && jset[v] && jind[v] != "" && jerr[v] == nil
  ensures [C14:length] holds_n(b, jlen[v] + nlf(jat[v], jlen[v]))
  let d = b.(*body.bytesBody).data
  ensures [C14:bytes] forall k in 0..jlen[v] :: jat[v][k] != 10 ==> d[k + nlf(jat[v], k)] == jat[v][k]
  ensures [C14:crlf] forall k in 0..jlen[v] :: jat[v][k] == 10 ==> d[k + nlf(jat[v], k)] == 13 && d[k + nlf(jat[v], k) + 1] == 10
}

func body.FromProto(m) (b) {
  props C14
  nopanic
  modifies pcount[m], perr[m], plen[m], pat[m]
  mightpanic when true
  panic-ensures [C14:encoder-error] m != nil ==> pcount[m] == old(pcount[m]) + 1 && perr[m] != nil && panic == perr[m]
  ensures [C14:encoded-once] m != nil && pcount[m] == old(pcount[m]) + 1 && perr[m] == nil
  ensures [C14:length] holds_n(b, plen[m])
  ensures [C14:bytes] forall k in 0..plen[m] :: b.(*body.bytesBody).data[k] == pat[m][k]
}

func body.FromProtoText(m, o) (b) {
  props C14
  nopanic
  modifies pcount[m], perr[m], plen[m], pat[m], pmulti[m], pindent[m], pother[m]
  mightpanic when true
  panic-ensures [C14:encoder-error] m != nil ==> pcount[m] == old(pcount[m]) + 1 && perr[m] != nil && panic == perr[m]
  ensures [C14:encoded-once] m != nil && pcount[m] == old(pcount[m]) + 1 && perr[m] == nil
  ensures [C14:options] pmulti[m] == ite(o == nil, true, old(o.Multiline)) && pother[m] == ite(o == nil, false, old(o.EmitASCII || o.AllowPartial || o.EmitUnknown))
  ensures [C14:options] o != nil ==> pindent[m] == old(o.Indent)
  ensures [C14:length] holds_n(b, plen[m])
  ensures [C14:bytes] forall k in 0..plen[m] :: b.(*body.bytesBody).data[k] == pat[m][k]
}
