#!/usr/bin/env python3
"""Generates direct.cpp: uniform stubs for the direct API, from the prototypes of ta_func.h."""
import re, sys
src = open(sys.argv[1], encoding='latin1').read()
src = re.sub(r'/\*.*?\*/', ' ', src, flags=re.S); src = re.sub(r'//[^\n]*', ' ', src)
P = {}
for m in re.finditer(r'TA_LIB_API\s+(TA_RetCode|int)\s+TA_(\w+)\s*\(([^)]*)\)\s*;', src):
    P[m.group(2)] = [' '.join(p.split()) for p in m.group(3).split(',')]
names = sorted(n[:-9] for n in P if n.endswith('_Lookback'))
PR = {'inOpen': 'O', 'inHigh': 'H', 'inLow': 'L', 'inClose': 'C', 'inVolume': 'V', 'inOpenInterest': 'I'}
out = ['// generated by gen_direct.py', '#include "direct.h"', 'typedef const void* CP;']
rows = []
def pname(p): return re.sub(r'\[\]', '', p).split()[-1].lstrip('*')
for n in names:
    b = P[n]; i = 2; ins = []
    while pname(b[i]).startswith('in'): ins.append(b[i]); i += 1
    opts = []
    while pname(b[i]).startswith('optIn'): opts.append(b[i]); i += 1
    outs = b[i + 2:]
    kinds = ''.join(PR.get(pname(p), 'R' if 'double' in p else 'N') for p in ins)
    okinds = ''.join('R' if 'double' in p else 'N' for p in outs)
    def ot(p): return p.rsplit(' ', 1)[0]
    O = ['(%s)o[%d]' % ({'double': 'double', 'int': 'int'}.get(ot(p), ot(p)), k) for k, p in enumerate(opts)]
    # an option: double when declared double, otherwise an integer or an enumeration
    O = ['o[%d]' % k if 'double' in p else '(%s)(int)o[%d]' % (ot(p), k) for k, p in enumerate(opts)]
    X = ['(%s*)x[%d]' % ('double' if 'double' in p else 'int', k) for k, p in enumerate(outs)]
    T = lambda real: ['(const %s*)in[%d]' % (real if 'double' in p else 'int', k) for k, p in enumerate(ins)]
    V = ['*(const %s*)in[%d]' % ('double' if 'double' in p else 'int', k) for k, p in enumerate(ins)]
    S = 'struct TA_%s_State' % n
    j = ', '.join
    out.append('static int %s_b(int a, int e, CP* in, const double* o, int* b, int* c, void** x) { (void)o; return TA_%s(%s); }' % (n, n, j(['a', 'e'] + T('double') + O + ['b', 'c'] + X)))
    out.append('static int %s_f(int a, int e, CP* in, const double* o, int* b, int* c, void** x) { (void)o; return TA_S_%s(%s); }' % (n, n, j(['a', 'e'] + T('float') + O + ['b', 'c'] + X)))
    out.append('static int %s_l(const double* o) { (void)o; return TA_%s_Lookback(%s); }' % (n, n, j(O)))
    out.append('static int %s_i(void** s, const double* o) { (void)o; return TA_%s_StateInit(%s); }' % (n, n, j(['(%s**)s' % S] + O)))
    out.append('static int %s_s(void* s, CP* in, void** x) { return TA_%s_State(%s); }' % (n, n, j(['(%s*)s' % S] + V + X)))
    out.append('static int %s_t(void* s, int a, int e, CP* in, int* b, int* c, void** x) { return TA_%s_BatchState(%s); }' % (n, n, j(['(%s*)s' % S, 'a', 'e'] + T('double') + ['b', 'c'] + X)))
    out.append('static int %s_r(void** s) { return TA_%s_StateFree((%s**)s); }' % (n, n, S))
    out.append('static int %s_w(void* s, FILE* f) { return TA_%s_StateSave((%s*)s, f); }' % (n, n, S))
    out.append('static int %s_d(void** s, FILE* f) { return TA_%s_StateLoad((%s**)s, f); }' % (n, n, S))
    out.append('static void %s_x(void* s, uint64_t* size, uint64_t* index, const uint64_t* put) { auto p = (%s*)s; if (put) p->mem_index = (decltype(p->mem_index))*put; *size = p->mem_size; *index = p->mem_index; }' % (n, S))
    rows.append('{"%s", "%s", %d, "%s", %s}' % (n, kinds, len(opts), okinds, j('%s_%s' % (n, c) for c in 'bflistrwdx')))
out.append('const Direct DIRECT[] = {\n' + ',\n'.join(rows) + '};\nconst int NDIRECT = %d;' % len(rows))
open(sys.argv[2], 'w').write('\n'.join(out) + '\n')
