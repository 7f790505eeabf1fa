"""The properties: for every property a list of units (quick / thorough) and the code that
runs one unit.  A unit fixes the digit type, the operand sizes (and, where stated, some of
the operand digits); everything else is symbolic."""
import itertools
import random
import time
import terms as tm
from terms import T, P, padd, psub, pscale, pmul, paddc, pconst
import solver
import execu
from check import *

BT = ['b8', 'b16', 'b32', 'b64']
DT = ['d8', 'd16', 'd32', 'd64']
ALL = BT + DT


# ------------------------------------------------------------------ generic parts
def decode(r, o, n):
    """flat observation (length, digits) of a digit-array result, bounds-safe"""
    if r >= 1 << 40 or r > len(o):
        return [r]
    return [r] + o[:r]


def describe(kind, v):
    if kind == 'panic':
        return 'panics (signal %s)' % v
    if kind == 'hang':
        return 'does not terminate'
    return '%s %s' % (kind, v)


class Unit:
    """shared tail of every unit"""

    def __init__(self, c, mode='value'):
        self.c = c
        self.mode = mode
        self.panic = None         # 1-bit term: when a panic is the specified outcome
        self.nat = None           # inputs -> flat list of ints (native run)
        self.spec = None          # inputs -> 'panic' | predicate over the flat native observation
        c.replay_fn = self.replay

    def observe(self, inp):
        k, v = in_child(lambda: self.nat(inp))
        if k == 'error':
            raise Inconclusive('native run failed: %s' % v)
        return k, v

    def replay(self, inp):
        k, v = self.last = self.observe(inp)
        want = self.spec(inp)
        if k != 'ok':
            if want == 'panic' and k == 'panic':
                return None
            if self.mode == 'canon':
                return None
            return describe(k, v)
        if want == 'panic':
            return None if self.mode == 'canon' else 'returned %s where a panic is required' % (v[:40],)
        return want(v)

    def finish(self, rs, handler):
        c = self.c
        c.nodes += len(rs)
        obs = []
        for S, ret in rs:
            if self.panic is not None and self.mode == 'value':
                c.require(S, self.panic, 'returns normally where a panic is required', val=False)
            o = handler(S, ret)
            obs.append((S, o))
        for o in c.x.outcomes:
            if self.mode == 'canon' and o.kind == 'panic':
                continue
            if self.panic is not None and o.kind == 'panic':
                c.require(o.pc, self.panic, 'panics only when specified (%s)' % o.what)
            else:
                c.never(o.pc, o.what)
        self.validate(obs)
        c.x.outcomes = []

    def one(self, env, obs):
        """run one concrete input through the encoding and through the compiled code"""
        c = self.c
        paths = [k for k, (S, o) in enumerate(obs) if self.holds(S.pclist(), env)]
        outs = [o for o in c.x.outcomes if self.holds(o.pc, env)]
        inp = c.env_inputs(env)
        msg = self.replay(inp)
        if msg:
            raise Violation(dict(desc='witness of a path', inputs=inp, native=msg))
        if len(paths) + len(outs) != 1:
            raise Inconclusive('translator validation: %d paths for input %r' % (len(paths) + len(outs), inp))
        kk, v = self.last
        if outs:
            if kk != 'panic':
                raise Inconclusive('translator validation: encoding says %s, native %s, input %r' % (outs[0].what, kk, inp))
        else:
            want = [tm.eval_t(t, env) for t in obs[paths[0]][1]]
            if kk != 'ok' or list(v) != want:
                raise Inconclusive('translator validation: encoding %s native %s, input %r' % (want, v, inp))
        c.validated += 1
        if len(c.samples) < 2:
            c.samples.append(dict(inputs=inp, native=('panic' if kk == 'panic' else list(v)[:40])))
        return paths[0] if paths else None

    def validate(self, obs, n=3, wit=3):
        """translator validation: on concrete inputs exactly one symbolic path applies, and it
        gives what the compiled code gives; it doubles as the reachability witness"""
        c = self.c
        rnd = random.Random(repr(sorted(c.inputs)) + str(c.seed))
        vs = sorted({m[0] for g in c.groups for p in g for m in p if m != ()})
        hit = set()
        cnt = 0
        for k in range(n + 6):
            if cnt >= n:
                break
            env = {}
            for i in vs:
                a = tm.ATOMS[i]
                env[i] = rnd.choice([a.lo, a.hi, rnd.randint(a.lo, a.hi), rnd.randint(a.lo, a.hi), min(a.hi, a.lo + 1), (a.lo + a.hi + 1) // 2])
            if not all(bool(tm.eval_t(t, env)) == bool(v) for t, v in c.pre):
                continue
            hit.add(self.one(env, obs))
            cnt += 1
            if not vs:
                return
        # witnesses found by the solver, for paths the inputs above did not take
        for k, (S, o) in enumerate(obs):
            if k in hit:
                continue
            if wit <= 0 and cnt:
                break
            wit -= 1
            pc = S.pclist()
            if not pc:
                continue
            st, model = solver.query(pc[-1:], pc[:-1], timeout_ms=2000, want_model=True)
            if st == 'unsat' or model is None:
                continue
            for i in vs:
                model.setdefault(i, tm.ATOMS[i].lo)
            env = c.try_model(model, pc[-1:], pc[:-1])
            if env is None:
                continue
            env = {i: env.get(i, tm.ATOMS[i].lo) for i in vs}
            if not self.holds(pc, env):
                continue
            self.one(env, obs)
            cnt += 1
        if not cnt and obs:
            raise Inconclusive('no input found that satisfies the assumptions of this unit')

    @staticmethod
    def holds(pc, env):
        for t, v in pc:
            if bool(tm.eval_t(t, env)) != bool(v):
                return False
        return True

    def result(self, S, po, L, val, tag, what):
        """obligations on a digit-array result of L digits at po; val: exact value (poly)"""
        c = self.c
        w, base = TAGS[tag]
        ds = c.read(S, po, L, w)
        if self.mode == 'value' and val is not None:
            c.require_eq(S, vpoly(ds, base), val, what + ' has the exact value', bounds(ds))
        require_canonical(c, S, ds, tag, what)
        return ds


def okdigits(tag, want, mode, at=0):
    """native predicate: flat observation [n, d...] is the canonical form of want"""
    base = TAGS[tag][1]

    def f(v):
        ds = v[1:]
        if v[0] != len(ds):
            return 'returned length %d' % v[0]
        if mode == 'canon':
            return canon_native(ds, tag) and '%s: result %s' % (canon_native(ds, tag), ds)
        w = to_digits(want, base)
        return None if ds == w else 'result digits %s, exact %s' % (ds, w)
    return f


def operand(c, name, spec, tag, nz=True):
    """spec: number of symbolic digits, or a pattern, least significant digit first:
    '*' symbolic, 'N' symbolic and at least half the radix, '0'..'9', 'F' largest digit, 'h' half the radix, ...;
    or a list whose elements may also be (lo, hi) or a number"""
    w, base = TAGS[tag]
    if spec.__class__ is int:
        return c.num(name, spec, tag, None if nz else 0)
    ds = []
    g = []
    for i, ch in enumerate(spec):
        lo = 1 if nz and i == len(spec) - 1 else 0
        if ch == '*':
            d = tm.var('%s%d' % (name, i), w, lo, base - 1)
            g.append(d.p)
        elif ch == 'N':
            d = tm.var('%s%d' % (name, i), w, base // 2, base - 1)
            g.append(d.p)
        elif ch == 's' or ch == 'S':      # one of the four smallest, one of the two largest digits
            d = tm.var('%s%d' % (name, i), w, *((lo, 3) if ch == 's' else (base - 2, base - 1)))
            g.append(d.p)
        elif ch.__class__ in (tuple, list):
            d = tm.var('%s%d' % (name, i), w, max(lo, ch[0]), min(base - 1, ch[1]))
            if d.__class__ is not int:
                g.append(d.p)
        elif ch.__class__ is int:
            d = ch % base
        else:
            d = int(ch) if ch.isdigit() else {'F': base - 1, 'h': base // 2, 'E': base - 2, 'H': base // 2 - 1,
                                                't': base // 3, 'g': base // 2 + 1, 'D': base - 3, 'C': base - 4, 'T': base * 2 // 3}[ch]
        ds.append(d)
    c.inputs[name] = ds
    c.groups.append(g)
    return ds


class L:
    """linear expression over operand digits, for the `where` conditions of a unit"""

    def __init__(self, p):
        self.p = p

    def __add__(self, o):
        return L(padd(self.p, lp(o)))
    __radd__ = __add__

    def __sub__(self, o):
        return L(psub(self.p, lp(o)))

    def __rsub__(self, o):
        return L(psub(lp(o), self.p))

    def __mul__(self, k):
        return L(pmul(self.p, lp(k)))
    __rmul__ = __mul__

    def __ge__(self, o):
        return bterm(tm.ge_poly(psub(self.p, lp(o))))

    def __le__(self, o):
        return bterm(tm.ge_poly(psub(lp(o), self.p)))

    def __gt__(self, o):
        return bterm(tm.ge_poly(paddc(psub(self.p, lp(o)), -1)))

    def __lt__(self, o):
        return bterm(tm.ge_poly(paddc(psub(lp(o), self.p), -1)))

    def __eq__(self, o):
        return bterm(tm.eq_poly(psub(self.p, lp(o))))

    __hash__ = None


def lp(x):
    return x.p if x.__class__ is L else pconst(x)


def where(c, cond, tag=None):
    """assume the comma-separated conditions on the operand digits, e.g. 'a1 >= a3 + 2, b0 < 7'"""
    if not cond:
        return
    env = {'__builtins__': {}, 'B': TAGS[tag][1] if tag else 0}
    for k, v in c.inputs.items():
        if v.__class__ is list:
            for i, d in enumerate(v):
                env['%s%d' % (k, i)] = L(P(d))
        else:
            env[k] = L(P(v))
    for e in cond.split(','):
        c.assume(eval(e.strip(), env))


def npat(spec):
    return spec if spec.__class__ is int else len(spec)


def remainder(c, S, VA, VB, V, A=None, base=None):
    """V is VA mod VB: below VB, and VA - V a multiple of VB"""
    c.require(S, lt_poly(V, VB), 'remainder below the divisor')
    if len(VB) == 1 and () in VB:
        # constant divisor: quotient floor(VA / VB)
        q, _, _ = tm.floor_div(VA, VB[()], 0, tm.prange(VA)[1])
        return c.require_eq(S, psub(VA, V), pscale(q, VB[()]), 'dividend minus remainder is a multiple of the divisor')
    if A is None:
        raise Inconclusive('remainder needs a quotient witness')
    # school-book division as the witness: r = VA - n*(q0 + q1*base + ...), 0 <= r < n
    n = T(128, VB, 1, tm.prange(VB)[1], 'x', ())
    r, q = {}, {}
    for d in reversed(A):
        t = padd(pscale(r, base), P(d))
        l, h = tm.prange(t)
        tt = tm.mkT(128, t, max(0, l), min(h, n.hi * base), 'x', ())
        qd, _, _ = tm._divsym(tt, n)
        q = padd(pscale(q, base), qd)
        r = psub(P(tt), pmul(qd, VB))
    # the witness is a remainder by construction: VA - r == n*q
    if psub(VA, r) != pmul(q, VB):
        raise RuntimeError('witness')
    f = {}
    for t, v in S.pclist():
        x = solver.lit_poly_fix(t, v)
        if x:
            f[x[0]] = x[1]
    e = solver.Enc(f)
    c.require_eq(S, e.subst(V), e.subst(r), 'remainder')


# ------------------------------------------------------------------ binary operators
def u_binop(c, op, tag, a, b, form, mode='value', cond=None, lin=0):
    c.x.merge_lin = lin
    u = Unit(c, mode)
    w, base = TAGS[tag]
    A, B = operand(c, 'a', a, tag), operand(c, 'b', b, tag)
    where(c, cond, tag)
    na, nb = len(A), len(B)
    VA, VB = vpoly(A, base), vpoly(B, base)
    nout = na + nb + 2
    pa, pb, po = c.buf(A, w), c.buf(B, w), c.out(nout, w)

    def nat(i):
        r, o = ncall(c.so, op + '_' + tag, [form, ('in', w, i['a']), na, ('in', w, i['b']), nb, ('out', w, nout)])
        return decode(r, o[0], nout)

    def spec(i):
        x, y = from_digits(i['a'], base), from_digits(i['b'], base)
        if op == 'sub' and x < y or op in ('div', 'rem') and y == 0:
            return 'panic'
        v = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'div': lambda: x // y, 'rem': lambda: x % y}[op]()
        return okdigits(tag, v, mode)
    u.nat, u.spec = nat, spec
    if op == 'sub':
        u.panic = lt_poly(VA, VB)
    if op in ('div', 'rem'):
        u.panic = 1 if nb == 0 else 0
    rs = c.run(op + '_' + tag, [form, pa, na, pb, nb, po])

    def handler(S, L):
        if op in ('div', 'rem'):
            ds = c.read(S, po, L, w)
            require_canonical(c, S, ds, tag, op)
            if mode == 'value' and nb:
                V = vpoly(ds, base)
                if op == 'div':
                    # 0 <= a - q*b < b
                    rem = psub(VA, pmul(V, VB))
                    c.require(S, bterm(tm.ge_poly(rem)), 'quotient not too large')
                    c.require(S, lt_poly(rem, VB), 'quotient not too small')
                else:
                    remainder(c, S, VA, VB, V)
            return [L] + ds
        val = {'add': lambda: padd(VA, VB), 'sub': lambda: psub(VA, VB), 'mul': lambda: pmul(VA, VB)}[op]()
        ds = u.result(S, po, L, val, tag, op)
        return [L] + ds
    u.finish(rs, handler)


def u_digop(c, op, tag, a, form, mode='value', nlo=None, nhi=None):
    """right operand: a machine integer (forms 0-2) or a digit (forms 3-5)"""
    u = Unit(c, mode)
    w, base = TAGS[tag]
    A = operand(c, 'a', a, tag)
    na = len(A)
    hi = (1 << w) - 1 if form < 3 else base - 1
    n = c.scalar('n', w, nlo or 0, hi if nhi is None else min(hi, nhi))
    VA, VN = vpoly(A, base), P(n)
    nout = na + 4
    pa, po = c.buf(A, w), c.out(nout, w)

    def nat(i):
        r, o = ncall(c.so, op + '_' + tag, [form, ('in', w, i['a']), na, ('int', w, i['n']), ('out', w, nout)])
        return decode(r, o[0], nout)

    def spec(i):
        x, y = from_digits(i['a'], base), i['n']
        if op == 'subd' and x < y or op in ('divd', 'remd') and y == 0:
            return 'panic'
        v = {'addd': lambda: x + y, 'subd': lambda: x - y, 'muld': lambda: x * y, 'divd': lambda: x // y, 'remd': lambda: x % y}[op]()
        return okdigits(tag, v, mode)
    u.nat, u.spec = nat, spec
    if op == 'subd':
        u.panic = lt_poly(VA, VN)
    if op in ('divd', 'remd'):
        u.panic = tm.t_eq(n, 0, w)
    rs = c.run(op + '_' + tag, [form, pa, na, n, po])

    def handler(S, L):
        if op in ('divd', 'remd'):
            ds = c.read(S, po, L, w)
            require_canonical(c, S, ds, tag, op)
            V = vpoly(ds, base)
            if mode == 'value':
                if op == 'divd':
                    rem = psub(VA, pmul(V, VN))
                    c.require(S, bterm(tm.ge_poly(rem)), 'quotient not too large')
                    c.require(S, lt_poly(rem, VN), 'quotient not too small')
                else:
                    remainder(c, S, VA, VN, V, A, base)
            return [L] + ds
        val = {'addd': lambda: padd(VA, VN), 'subd': lambda: psub(VA, VN), 'muld': lambda: pmul(VA, VN)}[op]()
        ds = u.result(S, po, L, val, tag, op)
        return [L] + ds
    u.finish(rs, handler)


def u_square(c, tag, a, mode='value', cond=None, lin=0):
    c.x.merge_lin = lin
    u = Unit(c, mode)
    w, base = TAGS[tag]
    A = operand(c, 'a', a, tag)
    where(c, cond, tag)
    na = len(A)
    VA = vpoly(A, base)
    nout = 2 * na + 2
    pa, po = c.buf(A, w), c.out(nout, w)

    def nat(i):
        r, o = ncall(c.so, 'square_' + tag, [('in', w, i['a']), na, ('out', w, nout)])
        return decode(r, o[0], nout)
    u.nat = nat
    u.spec = lambda i: okdigits(tag, from_digits(i['a'], base) ** 2, mode)
    rs = c.run('square_' + tag, [pa, na, po])

    def handler(S, L):
        return [L] + u.result(S, po, L, pmul(VA, VA), tag, 'square')
    u.finish(rs, handler)



# ------------------------------------------------------------------ division
def digits_of(c, V, n, tag, hi):
    """the n digits of the number with exact value V (0 <= V <= hi) as terms"""
    w, base = TAGS[tag]
    ds = []
    q, qh = V, hi
    for i in range(n):
        if qh < base:
            q2, qh2 = {}, 0
        else:
            q2, _, qh2 = tm.floor_div(q, base, 0, qh)
        d = psub(q, pscale(q2, base))
        ds.append(tm.mkT(w, d, 0, min(base - 1, qh), 'dig', ()))
        q, qh = q2, qh2
    return ds


def u_divw(c, op, tag, b, q, r, na=None, form=0, mode='value'):
    """witness form: the dividend is q*b + r with r < b and exactly na digits (by default the
    number of digits of the typical value), so quotient and remainder must come out as q and r"""
    u = Unit(c, mode)
    w, base = TAGS[tag]
    B, Q, R = operand(c, 'b', b, tag), operand(c, 'q', q, tag, False), operand(c, 'r', r, tag, False)
    nb = len(B)
    VB, VQ, VR = vpoly(B, base), vpoly(Q, base), vpoly(R, base)
    c.assume(lt_poly(VR, VB))
    VA = padd(pmul(VQ, VB), VR)
    lo, hi = tm.prange(VA)
    if na is None:
        na = len(to_digits((lo + hi) // 2, base))
    if lo >= base ** na or hi < (base ** (na - 1) if na else 0):
        raise Inconclusive('the dividend never has %d digits' % na)
    if hi >= base ** na:
        c.assume(lt_poly(VA, pconst(base ** na)))
    if na and lo < base ** (na - 1):
        c.assume(lt_poly(VA, pconst(base ** (na - 1))), False)
    A = digits_of(c, VA, na, tag, hi if hi < base ** na else base ** na - 1)
    c.inputs['a'] = A
    c.x.divfork = 6
    sz = na + 2
    pa, pb = c.buf(A, w), c.buf(B, w)
    pq, pr, pn = c.out(sz, w), c.out(sz, w), c.out(1, 64)
    name = op + '_' + tag
    if op in ('div', 'rem'):
        def nat(i):
            k, o = ncall(c.so, name, [form, ('in', w, i['a']), na, ('in', w, i['b']), nb, ('out', w, sz)])
            return decode(k, o[0], sz)
        args = [form, pa, na, pb, nb, pq]
    elif op == 'divrem':
        def nat(i):
            k, o = ncall(c.so, name, [('in', w, i['a']), na, ('in', w, i['b']), nb, ('out', w, sz), ('out', w, sz), ('out', 64, 1)])
            return decode(k, o[0], sz) + decode(o[2][0], o[1], sz)
        args = [pa, na, pb, nb, pq, pr, pn]
    else:
        def nat(i):
            k, o = ncall(c.so, name, [('in', w, i['a']), na, ('in', w, i['b']), nb, ('out', w, sz), ('out', 64, 1)])
            return [k] + decode(o[1][0], o[0], sz)
        args = [pa, na, pb, nb, pr, pn]

    def spec(i):
        x, y = from_digits(i['a'], base), from_digits(i['b'], base)
        qd, rd = to_digits(x // y, base), to_digits(x % y, base)

        def f(v):
            if op in ('div', 'rem'):
                return okdigits(tag, x // y if op == 'div' else x % y, mode)(v)
            if v[0] >= 1 << 40:
                return 'division reported failure'
            if op == 'remas':
                return okdigits(tag, x % y, mode)(v[1:])
            n = v[0]
            return okdigits(tag, x // y, mode)(v[:n + 1]) or okdigits(tag, x % y, mode)(v[n + 1:])
        return f
    u.nat, u.spec = nat, spec
    rs = c.run(name, args)

    def handler(S, L):
        out = []
        if op != 'div' and op != 'rem':
            if L == ERR:
                if mode == 'value':
                    c.never(S.pclist(), 'division reports failure')
                return [L]
        if op in ('div', 'divrem'):
            out += [L] + u.result(S, pq, L, VQ, tag, 'quotient')
        if op == 'rem':
            out += [L] + u.result(S, pq, L, VR, tag, 'remainder')
        if op in ('divrem', 'remas'):
            n = cnum(c, S, execu.ld(S, pn, 8, 64))
            if op == 'remas':
                out += [L]
            out += [n] + u.result(S, pr, n, VR, tag, 'remainder')
        return out
    u.finish(rs, handler)


def cnum(c, S, v):
    v = execu.cz(S, v)
    if v.__class__ is T:
        # the length is decided by the path condition
        for k in range(v.lo, min(v.hi, v.lo + 40) + 1):
            if c.x.must(S, tm.t_eq(v, k, 64)):
                return k
        raise Inconclusive('length not determined on a path')
    return v


def u_divzero(c, op, tag, a, form=0, mode='value'):
    """division by zero: reported, whatever the dividend; the dividend survives an Err"""
    u = Unit(c, mode)
    w, base = TAGS[tag]
    A = operand(c, 'a', a, tag)
    na = len(A)
    sz = na + 2
    pa, pb = c.buf(A, w), c.out(0, w)
    pq, pr, pn = c.out(sz, w), c.out(sz, w), c.out(1, 64)
    name = op + '_' + tag
    if op in ('div', 'rem'):
        args = [form, pa, na, pb, 0, pq]
        nargs = [form, ('in', w, None), na, ('in', w, []), 0, ('out', w, sz)]
    elif op in ('divd', 'remd'):
        args = [form, pa, na, 0, pq]
        nargs = [form, ('in', w, None), na, ('int', w, 0), ('out', w, sz)]
    elif op == 'divrem':
        args = [pa, na, pb, 0, pq, pr, pn]
        nargs = [('in', w, None), na, ('in', w, []), 0, ('out', w, sz), ('out', w, sz), ('out', 64, 1)]
    else:
        args = [pa, na, pb, 0, pq, pn]
        nargs = [('in', w, None), na, ('in', w, []), 0, ('out', w, sz), ('out', 64, 1)]
    err = op in ('divrem', 'remas')

    def nat(i):
        ar = [('in', w, i['a']) if x.__class__ is tuple and x[0] == 'in' and x[2] is None else x for x in nargs]
        k, o = ncall(c.so, name, ar)
        if not err:
            return decode(k, o[0], sz)
        return [k] + (decode(o[-1][0], o[0], sz) if k == ERR else [])
    u.nat = nat

    def spec(i):
        if not err:
            return 'panic'

        def f(v):
            if v[0] != ERR:
                return 'division by zero was not reported'
            return None if v[2:] == i['a'] and v[1] == na else 'the dividend was changed to %s' % (v[1:],)
        return f
    u.spec = spec
    if not err:
        u.panic = 1
    rs = c.run(name, args)

    def handler(S, L):
        if not err:
            return [L] + (c.read(S, pq, L, w) if L < sz else [])
        if L != ERR:
            c.never(S.pclist(), 'division by zero is reported')
            return [L]
        n = cnum(c, S, execu.ld(S, pn, 8, 64))
        if n != na:
            c.never(S.pclist(), 'the dividend keeps its length')
            return [L, n]
        ds = c.read(S, pq, n, w)
        c.require_eq(S, vpoly(ds, base), vpoly(A, base), 'the dividend is unchanged', bounds(ds))
        return [L, n] + ds
    u.finish(rs, handler)


# ------------------------------------------------------------------ shifts
def u_shift(c, op, tag, a, ns, form=0, mode='value'):
    w, base = TAGS[tag]
    A = operand(c, 'a', a, tag)
    na = len(A)
    VA = vpoly(A, base)
    S0 = c.S
    for n in ns:
        u = Unit(c, mode)
        c.inputs['n'] = n
        S = S0.fork()
        c.S = S
        sz = na + 3 + (len(to_digits(1 << n, base)) if op == 'shl' and na else 0)
        pa, po = c.buf(A, w), c.out(sz, w)

        def nat(i, n=n, sz=sz):
            r, o = ncall(c.so, op + '_' + tag, [form, ('in', w, i['a']), na, n, ('out', w, sz)])
            return decode(r, o[0], sz)

        def spec(i, n=n):
            x = from_digits(i['a'], base)
            return okdigits(tag, (x << n if x else 0) if op == 'shl' else x >> n, mode)
        u.nat, u.spec = nat, spec
        rs = c.run(op + '_' + tag, [form, pa, na, n, po], S)

        def handler(S, L, n=n, po=po):
            if op == 'shl':
                return [L] + u.result(S, po, L, pscale(VA, 1 << n) if na else {}, tag, 'shifted number')
            ds = c.read(S, po, L, w)
            require_canonical(c, S, ds, tag, 'shifted number')
            if mode == 'value':
                V = vpoly(ds, base)
                if n >= 4096:
                    # 2^n exceeds every representable operand of this size
                    c.require_eq(S, V, {}, 'shifted number is zero', bounds(ds))
                else:
                    rem = psub(VA, pscale(V, 1 << n))
                    c.require(S, bterm(tm.ge_poly(rem)), 'a >= 2^n * result')
                    c.require(S, lt_poly(rem, pconst(1 << n)), 'a < 2^n * (result + 1)')
            return [L] + ds
        u.finish(rs, handler)
    c.S = S0


# ------------------------------------------------------------------ comparison
def u_cmp(c, tag, a, b, mode='value'):
    u = Unit(c, mode)
    w, base = TAGS[tag]
    A, B = operand(c, 'a', a, tag), operand(c, 'b', b, tag)
    na, nb = len(A), len(B)
    VA, VB = vpoly(A, base), vpoly(B, base)
    pa, pb, po = c.buf(A, w), c.buf(B, w), c.out(8, 8)

    def nat(i):
        r, o = ncall(c.so, 'cmp_' + tag, [('in', w, i['a']), na, ('in', w, i['b']), nb, ('out', 8, 8)])
        return o[0]

    def spec(i):
        x, y = from_digits(i['a'], base), from_digits(i['b'], base)
        o = (x > y) - (x < y) + 1
        want = [o, x == y, x != y, x < y, x <= y, x > y, x >= y, o]
        want = [int(k) for k in want]
        return lambda v: None if v == want else 'comparison gives %s, exact %s (cmp ==, !=, <, <=, >, >=, partial_cmp)' % (v, want)
    u.nat, u.spec = nat, spec
    rs = c.run('cmp_' + tag, [pa, na, pb, nb, po])
    lt, gt = lt_poly(VA, VB), lt_poly(VB, VA)
    le, ge = tm.t_not(gt), tm.t_not(lt)
    eq = tm.t_and(le, ge, 1)
    want = [None, eq, tm.t_not(eq), lt, le, gt, ge, None]
    names = ['cmp', '==', '!=', '<', '<=', '>', '>=', 'partial_cmp']

    def handler(S, L):
        v = c.read(S, po, 8, 8)
        for i in range(8):
            x = v[i]
            if i in (0, 7):
                # 0: less, 1: equal, 2: greater
                for val, t in ((0, lt), (1, eq), (2, gt)):
                    got = tm.t_eq(x, val, 8)
                    same = tm.t_not(tm.t_xor(got, t, 1))
                    c.require(S, same, '%s agrees with the values' % names[i])
                    if got.__class__ is int and got:
                        break
            else:
                b = tm.t_ne(x, 0, 8)
                c.require(S, tm.t_not(tm.t_xor(b, want[i], 1)), '%s agrees with the values' % names[i])
                c.require(S, tm.t_ule(x, 1, 8), '%s is a bool' % names[i])
        return v
    u.finish(rs, handler)


# ------------------------------------------------------------------ construction
def u_new(c, tag, n, mode='value'):
    """UBig::new on any digits, leading zeros included"""
    u = Unit(c, mode)
    w, base = TAGS[tag]
    A = [tm.var('a%d' % i, w, 0, base - 1) for i in range(n)]
    c.inputs['a'] = A
    c.groups.append([d.p for d in A])
    sz = n + 1
    pa, po = c.buf(A, w), c.out(sz, w)

    def nat(i):
        r, o = ncall(c.so, 'new_' + tag, [('in', w, i['a']), n, ('out', w, sz)])
        return decode(r, o[0], sz)
    u.nat = nat
    u.spec = lambda i: okdigits(tag, from_digits(i['a'], base), mode)
    rs = c.run('new_' + tag, [pa, n, po])
    u.finish(rs, lambda S, L: [L] + u.result(S, po, L, vpoly(A, base), tag, 'new number'))


def u_from(c, tag, lo=0, hi=None, mode='value'):
    u = Unit(c, mode)
    w, base = TAGS[tag]
    n = c.scalar('n', w, lo, (1 << w) - 1 if hi is None else hi)
    po = c.out(4, w)

    def nat(i):
        r, o = ncall(c.so, 'from_' + tag, [('int', w, i['n']), ('out', w, 4)])
        return decode(r, o[0], 4)
    u.nat = nat
    u.spec = lambda i: okdigits(tag, i['n'], mode)
    rs = c.run('from_' + tag, [n, po])
    u.finish(rs, lambda S, L: [L] + u.result(S, po, L, P(n), tag, 'converted number'))


def u_pow(c, tag, a, ns, form=0, mode='value'):
    w, base = TAGS[tag]
    A = operand(c, 'a', a, tag)
    na = len(A)
    VA = vpoly(A, base)
    S0 = c.S
    for n in ns:
        u = Unit(c, mode)
        c.inputs['n'] = n
        S = c.S = S0.fork()
        sz = na * n + 3
        pa, po = c.buf(A, w), c.out(sz, w)

        def nat(i, n=n, sz=sz):
            r, o = ncall(c.so, 'pow_' + tag, [form, ('in', w, i['a']), na, n, ('out', w, sz)])
            return decode(r, o[0], sz)
        u.nat = nat
        u.spec = lambda i, n=n: okdigits(tag, from_digits(i['a'], base) ** n, mode)
        rs = c.run('pow_' + tag, [form, pa, na, n, po], S)
        V = pconst(1)
        for _ in range(n):
            V = pmul(V, VA)
        u.finish(rs, lambda S, L, V=V, po=po: [L] + u.result(S, po, L, V, tag, 'power'))
    c.S = S0


def u_powx(c, tag, a, lo, hi, form=0, mode='value'):
    """symbolic exponent in lo..=hi, concrete base"""
    u = Unit(c, mode)
    w, base = TAGS[tag]
    A = operand(c, 'a', a, tag)
    na = len(A)
    X = from_digits(A, base)
    n = c.scalar('n', 64, lo, hi)
    sz = len(to_digits(X ** hi, base)) + 3
    pa, po = c.buf(A, w), c.out(sz, w)

    def nat(i):
        r, o = ncall(c.so, 'pow_' + tag, [form, ('in', w, i['a']), na, i['n'], ('out', w, sz)])
        return decode(r, o[0], sz)
    u.nat = nat
    u.spec = lambda i: okdigits(tag, from_digits(i['a'], base) ** i['n'], mode)
    rs = c.run('pow_' + tag, [form, pa, na, n, po])

    def handler(S, L):
        ds = c.read(S, po, L, w)
        require_canonical(c, S, ds, tag, 'power')
        if mode == 'value':
            V = vpoly(ds, base)
            # the exponents of this path; the result must be right for each of them
            k = lo
            while k <= hi:
                e = tm.t_eq(n, k, 64)
                st, _ = solver.query([(e, True)], S.pclist(), timeout_ms=2000)
                if st == 'unsat':
                    k += 1
                    continue
                pc = S.pclist() + [(e, True)]
                c.require(pc, bterm(tm.eq_poly(psub(V, pconst(X ** k)))), 'power has the exact value')
                if c.x.must(S, e):
                    break
                k += 1
        return [L] + ds
    u.finish(rs, handler)


# ------------------------------------------------------------------ text
def inr(x, lo, hi):
    return tm.t_and(tm.t_ule(lo, x, 8), tm.t_ule(x, hi, 8), 1)


def all_of(ts):
    r = 1
    for t in ts:
        r = tm.t_and(r, t, 1)
    return r


def any_of(ts):
    r = 0
    for t in ts:
        r = tm.t_or(r, t, 1)
    return r


def hexval(s):
    return int(s, 16)


def parse_oracle(bs):
    """value, or None for text that is not a number: decimal digits with an optional single
    leading '+', or 0x followed by hexadecimal digits"""
    s = bytes(bs)
    if s[:2] == b'0x':
        h = s[2:]
        if h and all(x in b'0123456789abcdefABCDEF' for x in h):
            return int(h, 16)
        return None
    d = s[1:] if s[:1] == b'+' else s
    if d and all(48 <= x <= 57 for x in d):
        return int(d)
    return None


def u_parse(c, tag, pat, mode='value'):
    """pat: '?' any byte, 'd' any decimal digit, 'x' any hexadecimal digit, else that character.
    The text is a str, so bytes from 0x80 up only occur as (two byte) UTF-8 sequences: '~'"""
    u = Unit(c, mode)
    w, base = TAGS[tag]
    C = []
    k = 0
    for ch in pat:
        if ch == '?':
            C.append(tm.var('c%d' % k, 8, 0, 127))
        elif ch == 'd':
            C.append(tm.var('c%d' % k, 8, 48, 57))
        elif ch == 'x':
            C.append(tm.var('c%d' % k, 8, 48, 102))
            c.assume(tm.t_or(tm.t_ule(C[-1], 57, 8), tm.t_or(inr(C[-1], 65, 70), tm.t_ule(97, C[-1], 8), 1), 1))
        elif ch == '~':
            C.append(tm.var('c%d' % k, 8, 0xc2, 0xdf))
            k += 1
            C.append(tm.var('c%d' % k, 8, 0x80, 0xbf))
        else:
            C.append(ord(ch))
        k += 1
    n = len(C)
    c.inputs['text'] = C
    c.groups.append([x.p for x in C if x.__class__ is T])
    sz = n + 3
    pc, po = c.buf(C, 8), c.out(sz, w)

    def nat(i):
        r, o = ncall(c.so, 'parse_' + tag, [('in', 8, i['text']), n, ('out', w, sz)])
        return decode(r, o[0], sz)

    def spec(i):
        v = parse_oracle(i['text'])

        def f(o):
            if o[0] == ERR:
                return None if v is None or mode == 'canon' else 'rejects %r' % bytes(i['text'])
            if v is None and mode != 'canon':
                return 'accepts %r' % bytes(i['text'])
            return okdigits(tag, v, mode)(o)
        return f
    u.nat, u.spec = nat, spec
    rs = c.run('parse_' + tag, [pc, n, po])
    isdec = [inr(x, 48, 57) for x in C]
    ishex = [tm.t_or(inr(x, 48, 57), tm.t_or(inr(x, 65, 70), inr(x, 97, 102), 1), 1) for x in C]
    eq = lambda i, ch: tm.t_eq(C[i], ord(ch), 8)
    shapes = []          # (condition, value)

    def decval(cs):
        v = {}
        for x in cs:
            v = padd(pscale(v, 10), paddc(P(x), -48))
        return v
    if n >= 1:
        shapes.append((all_of(isdec), lambda: decval(C)))
    if n >= 2:
        shapes.append((all_of([eq(0, '+')] + isdec[1:]), lambda: decval(C[1:])))
    if n >= 3:
        def hv():
            v = {}
            for x in C[2:]:
                d = tm.t_sub(x, tm.t_ite(tm.t_ule(x, 57, 8), 48, tm.t_ite(tm.t_ule(x, 70, 8), 55, 87, 8), 8), 8)
                v = padd(pscale(v, 16), P(d))
            return v
        shapes.append((all_of([eq(0, '0'), eq(1, 'x')] + ishex[2:]), hv))
    valid = any_of([s for s, _ in shapes])

    def handler(S, L):
        if L == ERR:
            if mode == 'value':
                c.require(S, valid, 'text that is a number is accepted', val=False)
            return [L]
        if mode == 'value':
            c.require(S, valid, 'only text that is a number is accepted')
            ds = c.read(S, po, L, w)
            for cond, val in shapes:
                if cond.__class__ is int and not cond:
                    continue
                if cond.__class__ is T and not c.x.feasible(S, cond, True, True):
                    continue
                S2 = S.fork()
                S2.add(cond, True)
                c.require_eq(S2, vpoly(ds, base), val(), 'parsed value', bounds(ds))
        ds = c.read(S, po, L, w)
        require_canonical(c, S, ds, tag, 'parsed number')
        return [L] + ds
    u.finish(rs, handler)


def u_todec(c, tag, a, mode='value'):
    u = Unit(c, mode)
    w, base = TAGS[tag]
    dt = 'd' + tag[1:]
    A = operand(c, 'a', a, tag)
    na = len(A)
    sz = 2 * na + 3
    pa, po = c.buf(A, w), c.out(sz, w)

    def nat(i):
        r, o = ncall(c.so, 'todec_' + tag, [('in', w, i['a']), na, ('out', w, sz)])
        return decode(r, o[0], sz)
    u.nat = nat
    u.spec = lambda i: okdigits(dt, from_digits(i['a'], base), mode)
    rs = c.run('todec_' + tag, [pa, na, po])
    u.finish(rs, lambda S, L: [L] + u.result(S, po, L, vpoly(A, base), dt, 'decimal form'))


def u_text(c, what, tag, a, form=0, mode='value'):
    """Display (what 'display') and LowerHex/UpperHex (what 'hex')"""
    u = Unit(c, mode)
    w, base = TAGS[tag]
    A = operand(c, 'a', a, tag)
    na = len(A)
    sz = na * (20 if what == 'display' else 16) + 8
    pa, po = c.buf(A, w), c.out(sz, 8)
    radix = 16 if what == 'hex' else 10
    pre = b'0x' if what == 'hex' and form >= 2 else b''
    upper = what == 'hex' and form in (1, 3)

    def nat(i):
        args = [('in', w, i['a']), na, ('out', 8, sz)]
        r, o = ncall(c.so, what + '_' + tag, ([form] if what == 'hex' else []) + args)
        return decode(r, o[0], sz)

    def spec(i):
        x = from_digits(i['a'], base)
        s = (pre.decode() + (('%X' if upper else '%x') % x if radix == 16 else '%d' % x)).encode()
        return lambda v: None if bytes(v[1:]) == s and v[0] == len(s) else 'prints %r, exact %r' % (bytes(v[1:]), s)
    u.nat, u.spec = nat, spec
    rs = c.run(what + '_' + tag, ([form] if what == 'hex' else []) + [pa, na, po])
    VA = vpoly(A, base)

    def handler(S, L):
        cs = c.read(S, po, L, 8)
        body = cs[len(pre):]
        for k, ch in enumerate(pre):
            c.require(S, tm.t_eq(cs[k], ch, 8) if k < len(cs) else 0, 'prefix')
        if not body:
            c.never(S.pclist(), 'prints at least one digit')
            return [L] + cs
        n = len(body)
        q, qh = VA, tm.prange(VA)[1]
        for k in range(n):
            # digit k of the number, counted from the right
            q2, _, qh2 = tm.floor_div(q, radix, 0, qh) if qh >= radix else ({}, 0, 0)
            d = tm.mkT(8, psub(q, pscale(q2, radix)), 0, min(radix - 1, qh), 'dig', ())
            ch = tm.t_add(d, 48, 8) if radix == 10 else tm.t_add(d, tm.t_ite(tm.t_ult(d, 10, 8), 48, 55 if upper else 87, 8), 8)
            c.require(S, tm.t_eq(body[n - 1 - k], ch, 8), 'character %d from the right' % k)
            q, qh = q2, qh2
        c.require(S, lt_poly(VA, pconst(radix ** n)), 'no digit is missing')
        if len(body) > 1:
            c.require(S, tm.t_ne(body[0], 48, 8), 'no leading zero')
        return [L] + cs
    u.finish(rs, handler)


# fill, alignment, sign, prefix and zero flag of each form of the harness entries dispspec, hexspec
SPECS = [(' ', '>', '', False, False), (' ', '<', '', False, False), ('*', '^', '', False, False), (' ', '>', '', False, True),
         (' ', '>', '+', False, False), (' ', '>', '+', True, True), ('#', '>', '+', True, False),
         (' ', '>', '', False, False), ('#', '^', '+', True, False)]


def u_fmtspec(c, what, tag, a, form, width, mode='value'):
    """formatting with width, fill, alignment, sign, prefix and zero flag"""
    u = Unit(c, mode)
    w, base = TAGS[tag]
    A = operand(c, 'a', a, tag)
    na = len(A)
    sz = max(width, na * (20 if what == 'dispspec' else 16)) + 8
    pa, po = c.buf(A, w), c.out(sz, 8)
    radix = 16 if what == 'hexspec' else 10
    fill, align, sign, alt, zero = SPECS[form]
    pre = sign + ('0x' if alt and radix == 16 else '')
    upper = form in (1, 3, 6, 8)
    if form == 4:
        width = 0

    def nat(i):
        r, o = ncall(c.so, what + '_' + tag, [form, width, ('in', w, i['a']), na, ('out', 8, sz)])
        return decode(r, o[0], sz)

    def spec(i):
        x = from_digits(i['a'], base)
        s = ('%X' if upper else '%x') % x if radix == 16 else '%d' % x
        if zero:
            s = pre + s.rjust(width - len(pre), '0')
        else:
            pad = max(0, width - len(pre) - len(s))
            left = {'<': 0, '>': pad, '^': pad // 2}[align]
            s = fill * left + pre + s + fill * (pad - left)
        s = s.encode()
        return lambda v: None if bytes(v[1:]) == s and v[0] == len(s) else 'prints %r, exact %r' % (bytes(v[1:]), s)
    u.nat, u.spec = nat, spec
    rs = c.run(what + '_' + tag, [form, width, pa, na, po])
    VA = vpoly(A, base)

    def handler(S, L):
        cs = c.read(S, po, L, 8)
        top = tm.prange(VA)[1]
        qs, q, qh = [], VA, top
        while True:
            if qh < radix:
                qs.append(tm.mkT(8, q, 0, qh, 'dig', ()) if q and set(q) != {()} else q.get((), 0))
                break
            q2, _, qh2 = tm.floor_div(q, radix, 0, qh)
            qs.append(tm.mkT(8, psub(q, pscale(q2, radix)), 0, radix - 1, 'dig', ()))
            q, qh = q2, qh2
        chars = [tm.t_add(d, 48, 8) if radix == 10 else tm.t_add(d, tm.t_ite(tm.t_ult(d, 10, 8), 48, 55 if upper else 87, 8), 8) for d in qs]
        for n in range(1, len(qs) + 1):
            # the numbers of n digits
            S2 = S.fork()
            ok = True
            for cond in [lt_poly(VA, pconst(radix ** n))] + ([lt_poly(pconst(radix ** (n - 1) - 1), VA)] if n > 1 else []):
                if cond.__class__ is int:
                    ok = ok and cond
                elif ok:
                    ok = c.x.feasible(S2, cond, True, True)
                    S2.add(cond, True)
            if not ok:
                continue
            pad = max(0, width - len(pre) - n)
            c.require(S2, int(L == len(pre) + n + pad), 'length of a number of %d digits' % n)
            left = 0 if zero else {'<': 0, '>': pad, '^': pad // 2}[align]
            want = [ord(fill)] * left + [ord(x) for x in pre] + ([48] * pad if zero else []) + [chars[n - 1 - k] for k in range(n)]
            want += [ord(fill)] * (L - len(want))
            for k in range(min(L, len(want))):
                c.require(S2, tm.t_eq(cs[k], want[k], 8), 'character %d of a number of %d digits' % (k, n))
        return [L] + cs
    u.finish(rs, handler)


# ------------------------------------------------------------------ operand forms
def u_forms(c, op, tag, a, b, forms):
    """all operand forms of an operator give the result of the reference form (forms[0])"""
    w, base = TAGS[tag]
    A = operand(c, 'a', a, tag)
    na = len(A)
    dig = op.endswith('d') and op not in ('add',)
    if dig:
        B = c.scalar('n', w, 0, base - 1)
        nb = 0
    else:
        B = operand(c, 'b', b, tag)
        nb = len(B)
    sz = na + nb + 4
    S0 = c.S
    runs = []
    u = Unit(c)
    u.last = None

    def call(form, i):
        tail = [('int', w, i['n'])] if dig else [('in', w, i['b']), nb]
        r, o = ncall(c.so, op + '_' + tag, [form, ('in', w, i['a']), na] + tail + [('out', w, sz)])
        return decode(r, o[0], sz)

    def replay(i):
        rs = [in_child(lambda f=f: call(f, i)) for f in forms]
        u.last = rs
        for f, r in zip(forms, rs):
            if r[0] != rs[0][0] or r[1] != rs[0][1]:
                return 'operand form %d gives %s, form %d gives %s' % (f, describe(*r), forms[0], describe(*rs[0]))
        return None
    c.replay_fn = replay
    for f in forms:
        S = c.S = S0.fork()
        pa = c.buf(A, w)
        tail = [B] if dig else [c.buf(B, w), nb]
        po = c.out(sz, w)
        c.x.outcomes = []
        rs = c.run(op + '_' + tag, [f, pa, na] + tail + [po], S)
        c.nodes += len(rs)
        res = [(s.pclist(), [L] + c.read(s, po, L, w)) for s, L in rs]
        for o in c.x.outcomes:
            if o.kind != 'panic':
                c.never(o.pc, o.what)
            else:
                res.append((o.pc, None))
        c.x.outcomes = []
        runs.append(res)
    for k in range(1, len(forms)):
        for pc0, r0 in runs[0]:
            for pc1, r1 in runs[k]:
                what = 'operand forms %d and %d agree' % (forms[0], forms[k])
                have = set((t.key(), v) for t, v in pc0)
                pc = pc0 + [(t, v) for t, v in pc1 if (t.key(), v) not in have]
                if r0 is None and r1 is None:
                    c.oblig += 1
                    continue
                if r0 is None or r1 is None or len(r0) != len(r1):
                    c.never(pc, what)
                    continue
                for x, y in zip(r0, r1):
                    c.require(pc, tm.t_eq(x, y, w), what)
    # validation
    rnd = random.Random('forms' + str(c.seed))
    vs = sorted({m[0] for g in c.groups for p in g for m in p if m != ()})
    for _ in range(3):
        env = {i: rnd.choice([tm.ATOMS[i].lo, tm.ATOMS[i].hi, rnd.randint(tm.ATOMS[i].lo, tm.ATOMS[i].hi)]) for i in vs}
        inp = c.env_inputs(env)
        msg = replay(inp)
        if msg:
            raise Violation(dict(desc='witness', inputs=inp, native=msg))
        for k, f in enumerate(forms):
            hits = [r for pc, r in runs[k] if Unit.holds(pc, env)]
            if len(hits) != 1:
                raise Inconclusive('translator validation: %d paths' % len(hits))
            kind, v = u.last[k]
            if hits[0] is None:
                if kind != 'panic':
                    raise Inconclusive('translator validation: panic expected')
            elif kind != 'ok' or v != [tm.eval_t(t, env) for t in hits[0]]:
                raise Inconclusive('translator validation: form %d input %r native %r' % (f, inp, v))
            c.validated += 1
        if len(c.samples) < 2:
            c.samples.append(dict(inputs=inp, native=u.last[0][1] or 'panic'))


UNITS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('u_')}
