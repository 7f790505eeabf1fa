#!/usr/bin/env python3-vt
"""Chooses the operand patterns of the recursive multiplications (C04, C05): draws candidates,
keeps the ones the solver decides within a few seconds, and selects for distinct combinations
of branch outcomes in the Karatsuba and Toom-3 code.  Development tool: its output,
engine/picked.json, is committed; the checks decide those units afresh on every run.

pick.py run SEED TAGS OUT mul|div      benchmark candidates (appends JSON lines to OUT)
pick.py select OUT...          write engine/picked.json"""
import json
import os
import random
import signal
import sys
import time
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import plans
from plans import RADIX, BT, ALL

CAP = 3.5


def dig(t, c):
    R = RADIX[t]
    return {'0': 0, '1': 1, '2': 2, '3': 3, '7': 7, 'F': R - 1, 'E': R - 2, 'h': R // 2, 'H': R // 2 - 1, 'g': R // 2 + 1, 't': R // 3, 'D': R - 3, 'C': R - 4, 'T': R * 2 // 3}[c]


def shape(rnd, n, al, top):
    s = [rnd.choice(al) for _ in range(n - 1)] + [rnd.choice(top)]
    r = rnd.random()
    m = (n + 1) // 2 if rnd.random() < .6 else (n + 2) // 3
    if r < .25:                       # equal parts
        for i in range(m, n):
            s[i] = s[i - m]
        if s[-1] == '0':
            s[-1] = rnd.choice(top)
    elif r < .4:                      # a part of zeros or of largest digits
        k = rnd.randrange(0, n, m)
        for i in range(k, min(n - 1, k + m)):
            s[i] = rnd.choice('0F') if r < .3 else '0'
    elif r < .5:
        k = rnd.randrange(0, n, m)
        for i in range(k, min(n - 1, k + m)):
            s[i] = 'F'
    elif r < .6:                      # parts nearly equal
        for i in range(m, n):
            s[i] = s[i - m]
        s[rnd.randrange(n)] = rnd.choice(al)
        if s[-1] == '0':
            s[-1] = '1'
    return s


def operand(rnd, t, n, style, free):
    if style == 'A':
        s = shape(rnd, n, '0001FFF', '1F')
    else:
        s = shape(rnd, n, rnd.choice(('0001FFFEhHgt', 'FE0', 'FFFEhg1', '0123t')), '1FEhHgt')
    d = [dig(t, c) for c in s]
    for _ in range(free):
        i = rnd.choice((0, rnd.randrange(n), n - 1))
        if d[i].__class__ is int:
            v = d[i]
            d[i] = '*' if style == 'A' else (min(v, RADIX[t] - 2), min(v, RADIX[t] - 2) + 1)
    return d


def candidates(rnd, t):
    """(small, kind, kw)"""
    out = []
    for k in range(80):
        style = 'A' if k % 2 or t in BT and k % 3 else 'B'
        r = rnd.random()
        if r < .35:
            n0, n1 = rnd.randint(4, 7), rnd.randint(4, 7)
        elif r < .6:
            n0, n1 = rnd.randint(8, 13), rnd.randint(4, 7)
        else:
            n0, n1 = rnd.randint(8, 14), rnd.randint(8, 14)
        fa = rnd.choice((0, 1, 1, 1, 2))
        a, b = operand(rnd, t, n0, style, fa), operand(rnd, t, n1, style, 1 - min(1, fa) if style == 'A' else rnd.choice((0, 1)) if fa else 1)
        if rnd.random() < .5:
            a, b = b, a
        out.append((True, 'binop', dict(op='mul', tag=t, a=a, b=b, form=k % 6, lin=1)))
    for k in range(16):
        n0, n1 = rnd.randint(20, 45), rnd.randint(20, 45)
        style = rnd.choice('AB')
        a, b = operand(rnd, t, n0, style, 1), operand(rnd, t, n1, style, 0)
        out.append((False, 'binop', dict(op='mul', tag=t, a=a, b=b, form=k % 6, lin=1)))
    for k in range(40):
        n = rnd.choice((4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14))
        style = 'A' if k % 3 == 0 else 'B'
        out.append((True, 'square', dict(tag=t, a=operand(rnd, t, n, style, 1), lin=1)))
    for k in range(10):
        out.append((False, 'square', dict(tag=t, a=operand(rnd, t, rnd.randint(20, 45), rnd.choice('AB'), 1), lin=1)))
    return out


INTEREST = {'binop': ('karatsuba', 'toom3'), 'square': ('karatsuba', 'toom3'), 'divw': ('3div', '2bz')}


def short(f):
    m = [w for w in ('karatsuba', 'toom3', 'square', 'div_digit_pair', 'div_big', '2bz', '4long', '3div') if w in f]
    return '.'.join(m) + '%x' % (zlib.crc32(f.encode()) & 0xffff)


def divisions(rnd, t):
    """(small, kind, kw)"""
    out = []
    R = RADIX[t]
    nice = '000111FFFFFEEDCChHgtT'
    for k in range(140):
        r = rnd.random()
        if r < .25:
            small, n, m = True, rnd.choice((2, 2, 3, 4)), rnd.randint(1, 5)
        elif r < .8:
            small, n = True, rnd.randint(6, 14)
            m = rnd.randint(3, n + 4)
        else:
            small, n = False, rnd.randint(20, 41)
            m = rnd.randint(10, n + 10)
        al = rnd.choice((nice, '0F', '0FE1', 'FE', 'FEDC', '01'))
        b = [rnd.choice(al) for _ in range(n - 1)] + [rnd.choice('1FEhhhHggtT2')]
        if rnd.random() < .5:
            h = (n + 1) // 2
            for i in range(h if rnd.random() < .6 else n - 1):
                b[i] = rnd.choice('FFFE' if rnd.random() < .8 else '0')
        q = [rnd.choice(rnd.choice((nice, al))) for _ in range(m - 1)] + [rnd.choice('1FEDChgt')]
        s = rnd.random()
        if s < .5 and n <= 4 or s < .1:
            rr = ['*'] * n
        elif s < .7:
            rr = ['0'] * n
            for _ in range(rnd.choice((1, 1, 2))):
                rr[rnd.randrange(n - 1)] = '*'
        elif s < .85:              # the largest remainders
            rr = list(b)
            j = next(i for i in range(n) if rr[i] != '0')
            rr = [dig(t, c) for c in rr]
            rr[j] = (0, max(0, rr[j] - 1))
            for i in range(j):
                rr[i] = R - 1
        else:
            fill = rnd.choice('0F')
            rr = [fill] * (n - 1) + ['0']
            rr[rnd.randrange(n)] = '*'
        if '*' in rr[-1:] and rnd.random() < .3:
            rr[-1] = '0'
        out.append((small, 'divw', dict(op=('divrem', 'remas', 'div', 'rem')[k % 4], tag=t, b=''.join(b), q=''.join(q), r=''.join(rr) if all(x.__class__ is str for x in rr) else rr)))
    return out


def work(prog, so, kind, kw):
    import terms as tm
    import solver
    import execu
    import llparse
    import props
    from check import Ctx, TAGS, Violation, Inconclusive
    tm.reset()
    tm.RADIX = TAGS[kw['tag']][1]
    t0 = time.time()
    c = Ctx(prog, so, t0 + CAP)
    c.x.cov = set()
    r = 'ok'
    try:
        props.UNITS[kind](c, **kw)
        if c.unknown:
            r = 'inc'
    except Violation as e:
        r = 'VIOLATION %s' % (e,)
    except (Inconclusive, execu.Budget, tm.Unsupported, llparse.ParseError, execu.MemErr) as e:
        r = 'inc'
    cov = sorted({'%s:%s:%d' % (short(f), b, int(v)) for f, b, v in c.x.cov if any(w in f for w in INTEREST[kind])})
    return dict(r=r, t=round(time.time() - t0, 2), cov=cov)


def run(seed, tags, out, what):
    import build
    import llparse
    progs = {}
    for small in (False, True):
        b = build.build(['g_mul', 'g_square', 'g_div'], small=small)
        prog = llparse.Program()
        for f in b['lls']:
            prog.add(llparse.Module(open(f).read(), f))
        progs[small] = prog, b['so']
    rnd = random.Random(seed)
    cs = [c for t in tags for c in {'mul': candidates, 'div': divisions}[what](rnd, t)]
    n = 0
    for small, kind, kw in cs:
        while n >= 8:
            os.wait()
            n -= 1
        if os.fork() == 0:
            signal.alarm(int(CAP) + 2)
            prog, so = progs[small]
            r = work(prog, so, kind, kw)
            with open(out, 'a') as f:
                f.write(json.dumps(dict(r, small=small, kind=kind, kw=kw)) + '\n')
            os._exit(0)
        n += 1
    while n:
        os.wait()
        n -= 1


def select(files, per={('binop', True): 16, ('binop', False): 4, ('square', True): 10, ('square', False): 3, ('divw', True): 22, ('divw', False): 6}, cap=3.0):
    rows = [json.loads(l) for f in files for l in open(f)]
    for r in rows:
        if r['r'].startswith('VIOL'):
            print('VIOLATION', r)
    picked = []
    for t in ALL:
        for key, n in per.items():
            rs = [r for r in rows if r['kw']['tag'] == t and (r['kind'], r['small']) == key and r['r'] == 'ok' and r['t'] <= cap]
            seen = set()
            for _ in range(n):
                best = None
                for r in rs:
                    if 'p' not in r:
                        c = r['cov']
                        r['p'] = {(x, y) for i, x in enumerate(c) for y in c[i:]}
                    g = len(r['p'] - seen) + 5
                    sc = g / (.4 + r['t'])
                    if r['kind'] != 'divw' and '*' in (r['kw']['a'] + r['kw'].get('b', [])):
                        sc *= 2
                    if best is None or sc > best[0]:
                        best = sc, r
                if not best:
                    break
                r = best[1]
                rs.remove(r)
                seen |= r['p']
                picked.append(dict(kind=r['kind'], small=r['small'], kw=r['kw'], t=r['t']))
            print(t, key, 'of', len(rs) + n, 'time', round(sum(p['t'] for p in picked if p['kw']['tag'] == t and (p['kind'], p['small']) == key), 1))
    with open(os.path.join(ROOT, 'engine', 'picked.json'), 'w') as f:
        f.write('[\n' + ',\n'.join(json.dumps(p) for p in picked) + '\n]\n')


if __name__ == '__main__':
    if sys.argv[1] == 'run':
        run(int(sys.argv[2]), sys.argv[3].split(','), sys.argv[4], sys.argv[5])
    else:
        select(sys.argv[2:])
