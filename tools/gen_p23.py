#!/usr/bin/env python3
"""Writes h/p23c.cpp: tracepoints on many lines and with many names."""
import os
out = ['// written by tools/gen_p23.py: scopes on many lines of one file, marks and counters with many names', '#include <scalopus_tracing/trace_macro.h>', '', 'int many_points(int what)', '{', '  int n = 0;', '  switch (what)', '  {']
lines = sorted(set(list(range(1000, 1300)) + [1000 + (1 << k) + d for k in range(4, 22) for d in (-1, 0, 1)] + [1000 + m * 1000 for m in range(1, 70, 3)] + [1000 * 10 ** k for k in range(1, 4)]))
out += ['    case 0:']
for l in lines:
    out += ['#line %d' % l, '      { TRACE_SCOPE_RAII("s"); n++; }']
out += ['      break;']
def lit(s):
    return '"' + ''.join(chr(b) if 32 <= b < 127 and chr(b) not in '"\\?' else '\\%03o' % b for b in s) + '"'
one = [bytes([b]) for b in range(1, 256)]
names = []
for n in (2, 3, 4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300):
    names += [b'x' * n, b'x' * (n - 1) + b'y', b'y' + b'x' * (n - 1), b'x' * (n // 2) + b'y' + b'x' * (n - n // 2 - 1)]
names += [b'', b'ab', b'ba', b'abc', b'cab', b'bca', b'acb', b'a/b', b'b/a', b'a/', b'/a', b'counter', b'Counter', b'counter ', b' counter', b'counter1', b'counter2', b'counter10', b'0', b'00', b'000']
names = [n for i, n in enumerate(names) if n not in names[:i]]
one = [n for n in one if n not in names]
for k, group in enumerate((one, names)):
    for m, macro in enumerate(('TRACE_MARK_EVENT_GLOBAL(%s)', 'TRACE_COUNT(%s, 1)')):
        out += ['    case %d:' % (1 + 2 * k + m)]
        for n in group:
            out += ['      { %s; n++; }' % (macro % lit(n))]
        out += ['      break;']
out += ['  }', '  return n;', '}', '']
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'h', 'p23c.cpp'), 'w').write('\n'.join(out))
