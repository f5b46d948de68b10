#!/usr/bin/env python3
"""One-off: freeze the coefficient tables of the original commit into harness/src/refdata.rs.

Not run by any check.  usage: gen_tables.py SRC_DIR DUMP  > refdata.rs
DUMP holds lines "doik i k v" etc. printed by the original Gerg2008::new().
"""
import re, sys
src, dump = sys.argv[1], sys.argv[2]
det = open(src + '/detail.rs').read()
ger = open(src + '/gerg2008.rs').read()

def const(s, name):
    m = re.search(r'const %s: [^=]*= \[' % name, s)
    i = j = m.end() - 1
    d = 0
    while True:
        if s[j] == '[': d += 1
        if s[j] == ']':
            d -= 1
            if d == 0: break
        j += 1
    return eval(re.sub(r'//[^\n]*', '', s[i:j + 1]).replace('_', ''))

def fmt(v, integer):
    if isinstance(v, list): return '[' + ', '.join(fmt(x, integer) for x in v) + ']'
    return str(int(v)) if integer else repr(float(v))

def emit(name, v, integer=False):
    t = 'usize' if integer else 'f64'
    w, dims = v, []
    while isinstance(w, list): dims.append(len(w)); w = w[0]
    for d in reversed(dims): t = '[%s; %d]' % (t, d)
    print('pub static %s: %s = %s;' % (name, t, fmt(v, integer)))

def assigns(s, name, rows, cols, pre=r'self\.'):
    t = [[0.0] * cols for _ in range(rows)]
    for a, b, c in re.findall(r'(?<![\w.])' + pre + name + r'\[(\d+)\]\[(\d+)\] = ([-\d_.E+]+);', s):
        t[int(a)][int(b)] = float(c.replace('_', ''))
    return t

print('//! Coefficient tables of the two equations of state, frozen from the original commit (tools/gen_tables.py).')
print('#![allow(clippy::all)]\n#![cfg_attr(rustfmt, rustfmt_skip)]')
for n in ['MMI', 'AN', 'UN', 'EI', 'KI', 'GI', 'QI', 'FI', 'SI', 'WI', 'EIJ', 'UIJ', 'KIJ', 'GIJ', 'TH0I']:
    emit('D_' + n, const(det, n))
for n in ['BN', 'KN', 'FN', 'GN', 'QN', 'SN', 'WN']:
    emit('D_' + n, const(det, n), True)
emit('D_N0I', assigns(det, 'n0i', 21, 7))
for n in ['MMI_GERG', 'DC', 'TC', 'NOIK', 'FIJ', 'TH0I']:
    emit('G_' + n.replace('_GERG', ''), const(ger, n))
for n in ['KPOL', 'KEXP', 'KPOLIJ', 'KEXPIJ', 'MNUMB']:
    emit('G_' + n, const(ger, n), True)
emit('G_N0I', assigns(ger, 'n0i', 22, 8))
for n in ['bvij', 'gvij', 'btij', 'gtij']: emit('G_' + n.upper(), assigns(ger, n, 22, 22))
for n, r in [('nijk', 'N'), ('cijk', 'ETA'), ('eijk', 'EPS'), ('gijk', 'GAM'), ('tijk', 'T')]:
    emit('G_MIX_' + r, assigns(ger, n, 11, 13))
emit('G_MIX_BETA', assigns(ger, 'bijk', 11, 13, ''))
emit('G_MIX_D', assigns(ger, 'dijk', 11, 13), True)
D = {'doik': [[0] * 25 for _ in range(22)], 'coik': [[0] * 25 for _ in range(22)], 'toik': [[0] * 25 for _ in range(22)]}
for l in open(dump):
    p = l.split()
    if p and p[0] in D: D[p[0]][int(p[1])][int(p[2])] = float(p[3])
emit('G_DOIK', D['doik'], True); emit('G_COIK', D['coik'], True); emit('G_TOIK', D['toik'])
