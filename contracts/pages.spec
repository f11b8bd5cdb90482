# ---- generated pages ----

# a page generator: how often each operation was called, with what, and its answer
ghost var gredirs : map Iface Int
ghost var gerrors : map Iface Int
ghost var gcode : map Iface Int
ghost var gloc : map Iface Str
ghost var gerr : map Iface Iface
ghost var ghdrs : map Iface Int
ghost var gbody : map Iface Iface

extern (response.PageGenerator).GenerateRedirectPage(g, code, loc) (h, b) {
  maypanic
  requires g != nil
  modifies gredirs[g], gcode[g], gloc[g], ghdrs[g], gbody[g]
  panic-ensures gredirs[g] == old(gredirs[g]) + 1
  ensures gredirs[g] == old(gredirs[g]) + 1 && gcode[g] == code && gloc[g] == loc
  ensures ghdrs[g] == ref(h) && gbody[g] == b
  assumes hsep(h)
}
extern (response.PageGenerator).GenerateErrorPage(g, code, err) (h, b) {
  maypanic
  requires g != nil
  modifies gerrors[g], gcode[g], gerr[g], ghdrs[g], gbody[g]
  panic-ensures gerrors[g] == old(gerrors[g]) + 1
  ensures gerrors[g] == old(gerrors[g]) + 1 && gcode[g] == code && gerr[g] == err
  ensures ghdrs[g] == ref(h) && gbody[g] == b
  assumes hsep(h)
}

define generator(b) = ite(b.gen == nil, response.DefaultPageGenerator, b.gen)

func (*response.Builder).RedirectPage(b, code, location) (r) {
  props C17 C18
  requires binv(b) && generator(b) != nil
  let g = old(generator(b))
  let loc = trimspace(location)
  maypanic
  panics when code < 300 || code > 399 || loc == ""
  abort-ensures [C17:rejected] same_builder(b) && gredirs[g] == old(gredirs[g])
  modifies b.code, b.hdrs, b.body, b.err, gredirs[g], gcode[g], gloc[g], ghdrs[g], gbody[g]
  ensures [C17 C18:accepted] r == b && b.code == code
  ensures [C18:asked-once] gredirs[g] == old(gredirs[g]) + 1 && gcode[g] == code && gloc[g] == loc
  ensures [C18:replaced] ref(b.hdrs) == ghdrs[g] && b.body == gbody[g] && b.err == nil && same_gen(b)
  ensures [C17:status-in-range] binv(b)
}
func (*response.Builder).ErrorPage(b, code, err) (r) {
  props C17 C18
  requires binv(b) && generator(b) != nil
  let g = old(generator(b))
  maypanic
  panics when code < 200 || code > 999 || err == nil
  abort-ensures [C17:rejected] same_builder(b) && gerrors[g] == old(gerrors[g])
  modifies b.code, b.hdrs, b.body, b.err, gerrors[g], gcode[g], gerr[g], ghdrs[g], gbody[g]
  ensures [C17 C18:accepted] r == b && b.code == code
  ensures [C18:asked-once] gerrors[g] == old(gerrors[g]) + 1 && gcode[g] == code && gerr[g] == err
  ensures [C18:replaced] ref(b.hdrs) == ghdrs[g] && b.body == gbody[g] && b.err == err && same_gen(b)
  ensures [C17:status-in-range] binv(b)
}

# escaping text for HTML, as an unknown function of the text; hs(q, s) is the
# state of an HTML lexer that reads s from state q (govc/html.go: 0 text, 2 and
# 3 quoted attribute values; these no escaped byte leaves, which is checked
# for all bytes)
ghost fn htmlesc(Str) Str
ghost fn hs(Int, Str) Int
ghost fn statustext(Int) Str
axiom forall (q : Int, a : Str, b : Str) {hs(q, a + b)} :: hs(q, a + b) == hs(hs(q, a), b)
axiom forall (q : Int, x : Str) {hs(q, htmlesc(x))} :: q == 0 || q == 2 || q == 3 ==> hs(q, htmlesc(x)) == q

# shows(t, x): the escaped form of x is part of t
ghost fn shows(Str, Str) Bool
axiom forall (x : Str) {htmlesc(x)} :: shows(htmlesc(x), x)
axiom forall (a : Str, b : Str, x : Str) {shows(a + b, x)} :: shows(a, x) || shows(b, x) ==> shows(a + b, x)

extern html.EscapeString(s) (t) {
  ensures t == htmlesc(s)
}
extern template.HTMLEscapeString(s) (t) {
  ensures t == htmlesc(s)
}
extern http.StatusText(code) (s) {
  ensures s == statustext(code)
}

define page_type(h, type, cache) = hone(h, "Content-Type", type) && hone(h, "Cache-Control", cache)
define page_body(h, b) = b is *body.bytesBody && fresh(ref(b)) && hone(h, "Content-Length", itoa(len(b.(*body.bytesBody).data))) &&
  b.(*body.bytesBody).offset == 0 && !b.(*body.bytesBody).eof && !b.(*body.bytesBody).closed

func (*response.defaultPageGenerator).GenerateRedirectPage(gen, code, location) (h, b) {
  props C18
  ensures [C18:location] hone(h, "Location", location)
  ensures [C18:declared-type] page_type(h, "text/html; charset=utf-8", "max-age=86400, must-revalidate")
  ensures [C18:declared-length] page_body(h, b)
  ensures [C18:headers] fresh(h) && forall k string :: has(h, k) ==> k == "Location" || k == "Content-Type" || k == "Content-Length" || k == "Cache-Control"
  ensures [C18:shown] b is *body.bytesBody && shows(string(b.(*body.bytesBody).data), location)
  ensures [C18:escaped] b is *body.bytesBody && hs(0, string(b.(*body.bytesBody).data)) == 0
}
func (*response.defaultPageGenerator).GenerateErrorPage(gen, code, err) (h, b) {
  props C18
  ensures [C18:declared-type] page_type(h, "text/plain; charset=utf-8", "no-cache")
  ensures [C18:declared-length] page_body(h, b)
  ensures [C18:headers] fresh(h) && forall k string :: has(h, k) ==> k == "Content-Type" || k == "Content-Length" || k == "Cache-Control"
  ensures [C18:code-and-text-only] b is *body.bytesBody && string(b.(*body.bytesBody).data) == itoa(code) + " " + statustext(code) + "\r\n"
}

extern strings.Join(a, sep) (r) {
  pure
  ensures len(a) == 0 ==> r == ""
  ensures len(a) == 1 ==> r == a[0]
  ensures len(a) == 2 ==> r == a[0] + sep + a[1]
  ensures len(a) == 3 ==> r == a[0] + sep + a[1] + sep + a[2]
  ensures len(a) == 4 ==> r == a[0] + sep + a[1] + sep + a[2] + sep + a[3]
}
# text built up piece by piece
type strings.Builder {
  ghost s Str
}
extern (*strings.Builder).WriteString(b, x) (n, err) {
  modifies b.s
  ensures b.s == old(b.s) + x && n == len(x) && err == nil
}
extern (*strings.Builder).WriteByte(b, x) (err) {
  modifies b.s
  ensures b.s == old(b.s) + chr(x) && err == nil
}
extern (*strings.Builder).Write(b, p) (n, err) {
  modifies b.s
  ensures b.s == old(b.s) + string(p) && n == len(p) && err == nil
}
extern (*strings.Builder).String(b) (r) {
  ensures r == b.s
}
extern (*strings.Builder).Len(b) (n) {
  ensures n == len(b.s)
}
extern (*strings.Builder).Grow(b, n) {
  requires n >= 0
}
extern (*strings.Builder).Reset(b) {
  modifies b.s
  ensures b.s == ""
}
