#!/usr/bin/env python3
"""Writes contracts/mockreader.spec: the methods of the mock reader and of its
wrappers share their clauses; only the way to the reader differs."""
out = []
w = out.append
w('''# ---- the scripted reader used by the tests ----
# (written by tools/mkmock.py)

type mockreader.MockReader {
  lock mu rank 1
  inv [C25:position] self.index <= len(self.expect)
  inv [C25:script] forall i in 0..len(self.expect) :: mscripted(self.expect[i])
}

# what ExpectRead and ExpectReadAt promise about an expectation
define mscripted(x) = x.op == mockreader.ReadOp || x.op == mockreader.ReadAtOp ==> 0 <= x.output0 && x.output0 <= len(x.input0)
# the next expectation accepts a call of this kind with these arguments
define mnext(r) = r != nil && r.index < len(r.expect)
define maccepts(r, kind, n, i1, i2, s) = mnext(r) && r.expect[r.index].op == kind && len(r.expect[r.index].input0) == n &&
  r.expect[r.index].input1 == i1 && r.expect[r.index].input2 == i2 && r.expect[r.index].input3 == s
define mconsumed(r) = r != nil ==> r.index == old(r.index) + ite(old(mnext(r)), 1, 0) && r.expect == old(r.expect)
define mblames(p, r) = p is mockreader.ExpectationFailedError && p.(mockreader.ExpectationFailedError).Index == ite(r == nil, 0, old(r.index)) &&
  (old(mnext(r)) ==> mexp(p.(mockreader.ExpectationFailedError).Expect, old(r.expect[r.index]))) &&
  (!old(mnext(r)) ==> p.(mockreader.ExpectationFailedError).Expect.op == mockreader.UnknownOp)
define mexp(x, @y) = x.op == y.op && x.input1 == y.input1 && x.input2 == y.input2 && x.input3 == y.input3 && x.input0 == y.input0 &&
  x.output0 == y.output0 && x.output1 == y.output1 && x.output2 == y.output2
define mcall(x, kind, n, i1, i2, s) = x.op == kind && len(x.input0) == n && x.input1 == i1 && x.input2 == i2 && x.input3 == s

func (mockreader.Expectation).Matches(x, y) (ok) {
  props C25
  nopanic
  ensures [C25:matches] ok <==> x.op == y.op && x.input1 == y.input1 && x.input2 == y.input2 && x.input3 == y.input3 && len(x.input0) == len(y.input0)
}
func mockreader.New(list) (r) {
  props C25
  requires forall i in 0..len(list) :: mscripted(list[i])
  ensures [C25:script] fresh(r) && r.index == 0 && len(r.expect) == len(list) && forall i in 0..len(list) :: mexp(r.expect[i], list[i])
}
''')

def expect(name, params, op, fields, pre=None):
    w(f'func mockreader.{name}({", ".join(params)}) (x) {{\n  props C25')
    if pre:
        w(f'  panics when {pre}')
    d = dict(input0=None, input1='0', input2='0', input3='""', output0='0', output1='nil', output2='nil')
    d.update(fields)
    parts = [f'x.op == mockreader.{op}']
    for k, v in d.items():
        if k == 'input0':
            parts.append('x.input0 == p' if v else 'len(x.input0) == 0')
        else:
            parts.append(f'x.{k} == {v}')
    w(f'  ensures [C25:expectation] {" && ".join(parts)}')
    w('  ensures [C25:script] mscripted(x)')
    w('}')

expect('ExpectMark', ['str'], 'MarkOp', dict(input3='str'))
expect('ExpectStat', ['fi', 'err'], 'StatOp', dict(output1='fi', output2='err'))
expect('ExpectRead', ['p', 'n', 'err'], 'ReadOp', dict(input0='p', output0='n', output2='err'), 'n < 0 || n > len(p)')
expect('ExpectReadAt', ['p', 'offset', 'n', 'err'], 'ReadAtOp', dict(input0='p', input1='offset', output0='n', output2='err'), 'n < 0 || n > len(p)')
expect('ExpectSeek', ['offset', 'whence', 'newOffset', 'err'], 'SeekOp', dict(input1='offset', input2='whence', output0='newOffset', output2='err'))
expect('ExpectClose', ['err'], 'CloseOp', dict(output2='err'))
w('')

METHODS = {
    'Mark': ('str', '', 'MarkOp', ('0', '0', '0', 'str')),
    'Stat': ('', 'fi, err', 'StatOp', ('0', '0', '0', '""')),
    'Read': ('p', 'n, err', 'ReadOp', ('len(p)', '0', '0', '""')),
    'ReadAt': ('p, offset', 'n, err', 'ReadAtOp', ('len(p)', 'offset', '0', '""')),
    'Seek': ('offset, whence', 'n, err', 'SeekOp', ('0', 'offset', 'whence', '""')),
    'Close': ('', 'err', 'CloseOp', ('0', '0', '0', '""')),
}
IFACE = {'Stat': 'fs.File', 'Seek': 'io.Seeker', 'ReadAt': 'io.ReaderAt'}

def method(key, m, recv, inner, also=(), wname=None):
    args, res, op, a = METHODS[m]
    al = ', '.join(a)
    w(f'func {key}.{m}({recv}{", " + args if args else ""}){" (" + res + ")" if res else ""} {{')
    if also:
        w('  also ' + '; '.join(also))
    w('  props C25')
    if recv == 'r':
        w('  nilable')
    nilok = f'{inner} == nil || ' if m == 'Mark' else ''
    w(f'  let ok = {nilok}old(maccepts({inner}, mockreader.{op}, {al}))')
    w(f'  let x = old({inner}.expect[{inner}.index])')
    mods = [inner + '.index']
    if m in ('Read', 'ReadAt'):
        mods.append('p[..]')
    w(f'  modifies {", ".join(mods)}')
    w('  panics when !ok')
    w(f'  panic-ensures [C25:failure] mblames(panic, {inner}) && mcall(panic.(mockreader.ExpectationFailedError).Actual, mockreader.{op}, {al})')
    w(f'  panic-ensures [C25:consumed] mconsumed({inner})')
    w(f'  ensures [C25:consumed] mconsumed({inner})')
    if m in ('Read', 'ReadAt'):
        w('  panic-ensures [C25:untouched] forall k in 0..len(p) :: p[k] == old(p[k])')
        w('  ensures [C25:results] n == x.output0 && err == x.output2')
        w(f'  ensures [C25:bytes] forall k in 0..n :: p[k] == old({inner}.expect[{inner}.index].input0[k])')
        w('  ensures [C25:bytes] forall k in n..len(p) :: p[k] == old(p[k])')
    elif m == 'Stat':
        w('  ensures [C25:results] fi == x.output1 && err == x.output2')
    elif m == 'Seek':
        w('  ensures [C25:results] n == x.output0 && err == x.output2')
    elif m == 'Close':
        w('  ensures [C25:results] err == x.output2')
    if wname:
        bits = [wname[-3:][i] == '1' for i in range(3)]
        w(f'  ensures [C25:interfaces] {recv} is io.Reader && {recv} is io.Closer')
        for b, t in zip(bits, ('interface{Stat() (fs.FileInfo, error)}', 'io.Seeker', 'io.ReaderAt')):
            if t.startswith('interface'):
                t = 'fs.File'
            w(f'  ensures [C25:interfaces] {"" if b else "!"}({recv} is {t})')
    w('}')

for m in METHODS:
    method('(*mockreader.MockReader)', m, 'r', 'r')
w('')
for i in range(8):
    n = f'Wrapper{i:03b}'
    ms = ['Read', 'Close'] + [m for m, b in zip(('Stat', 'Seek', 'ReadAt'), f'{i:03b}') if b == '1']
    for m in ms:
        method(f'(mockreader.{n})', m, 'w', 'w.Inner', wname=n)
import os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'mockreader.spec')
open(p, 'w').write('\n'.join(out) + '\n')
