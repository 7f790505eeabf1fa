"""Bit-vector back end: exact, for units whose symbolic inputs have few bits.

Every atom of terms.py becomes a circuit over the input variables (no abstraction), kept in one
incremental z3 QF_BV solver per unit; a query is a check under assumptions, so what the SAT
solver learns in one query serves the next."""
import time
import z3
import terms as tm
from terms import ATOMS, T, prange, mono_range


class BV:
    def __init__(self):
        self.s = z3.SolverFor('QF_BV')
        self.ctx = z3.main_ctx()
        self.at = {}        # atom -> (bitvector, signed)
        self.mono = {}      # monomial -> (bitvector, lo, hi)
        self.pc = {}        # poly key -> (bitvector, lo, hi)
        self.lits = {}      # key -> literal
        self.vars = {}
        self.n = 0
        self.fresh = 0

    @staticmethod
    def width(lo, hi):
        """two's complement width for [lo, hi]"""
        return max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0) + 1

    @staticmethod
    def ext(b, w):
        """sign extend / truncate a two's complement vector to w bits"""
        n = b.size()
        if n == w:
            return b
        if n < w:
            return z3.SignExt(w - n, b)
        return z3.Extract(w - 1, 0, b)

    def atom(self, i):
        r = self.at.get(i)
        if r is not None:
            return r
        stack = [i]
        while stack:
            j = stack[-1]
            if j in self.at:
                stack.pop()
                continue
            a = ATOMS[j]
            todo = [d for d in tm.atom_deps(a) if d not in self.at]
            if todo:
                stack.extend(todo)
                continue
            self.at[j] = self.define(a)
            stack.pop()
        return self.at[i]

    def bit(self, b):
        """Bool -> 2-bit two's complement 0/1"""
        return z3.If(b, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))

    def new(self, lo, hi, w=None):
        self.fresh += 1
        return z3.BitVec('f%d' % self.fresh, w or self.width(lo, hi))

    def define(self, a):
        k = a.kind
        if k == 'var':
            w = self.width(a.lo, a.hi)
            v = z3.BitVec('v%d' % a.id, w)
            self.s.add(v >= a.lo, v <= a.hi)
            self.vars[a.id] = v
            return v
        if k == 'floor':
            p, lo, hi = self.poly(a.p)
            m = a.m
            ql, qh = lo // m, hi // m
            if m & (m - 1) == 0:
                sh = m.bit_length() - 1
                n = p.size()
                if sh >= n:
                    return z3.Extract(n - 1, n - 1, p) if False else z3.SignExt(1, z3.Extract(n - 1, n - 1, p))
                return z3.Extract(n - 1, sh, p) if n > sh else p
            if ql == qh:
                return z3.BitVecVal(ql, self.width(ql, qh))
            q = self.new(ql, qh)
            W = max(self.width(ql * m, qh * m + m), p.size()) + 1
            e = self.ext(p, W) - self.ext(q, W) * z3.BitVecVal(m, W)
            self.s.add(q >= ql, q <= qh, e >= 0, e < m)
            return q
        if k == 'ge':
            p, lo, hi = self.poly(a.p)
            n = p.size()
            return self.zbit(~z3.Extract(n - 1, n - 1, p))
        if k == 'eq':
            p, lo, hi = self.poly(a.p)
            return self.bit(p == 0)
        if k == 'div':
            p, lo, hi = self.poly(a.p)
            d = a.m
            dp, dl, dh = self.poly(d.p)
            if lo < 0 or dl < 0:
                raise tm.Unsupported('bv: signed division')
            q = self.new(0, hi)
            W = self.width(0, hi) + self.width(0, dh) + 1
            Q, D, N = self.ext(q, W), self.ext(dp, W), self.ext(p, W)
            e = N - Q * D
            self.s.add(z3.If(D == 0, q == 0, z3.And(q >= 0, q <= N if W == q.size() else self.ext(q, W) <= N, e >= 0, e < D)))
            return q
        if k == 'def':
            return self.poly(a.p)[0]
        if k == 'itedef':
            c, px, py = a.p
            x, y = self.poly(px)[0], self.poly(py)[0]
            w = max(x.size(), y.size())
            return z3.If(self.boolean(c), self.ext(x, w), self.ext(y, w))
        if k == 'opq':
            x, y = (self.term(z) for z in a.t.a)
            w = max(x.size(), y.size())
            x, y = self.ext(x, w), self.ext(y, w)
            return x & y if a.t.op == 'and' else x | y if a.t.op == 'or' else x ^ y
        if k == 'bdef':
            xs = [self.boolean(z) for z in a.t.a]
            o = a.t.op
            b = (z3.And(xs[0], xs[1]) if o == 'and' else z3.Or(xs[0], xs[1]) if o == 'or' else z3.Xor(xs[0], xs[1])
                 if o == 'xor' else z3.If(xs[0], xs[1], xs[2]))
            return self.bit(b)
        raise tm.Unsupported('bv: ' + k)

    def zbit(self, b):
        return z3.ZeroExt(1, b)

    def m(self, m):
        """(vector, lo, hi) of a monomial"""
        if len(m) == 1:
            v = self.atom(m[0])
            a = ATOMS[m[0]]
            return v, a.lo, a.hi
        r = self.mono.get(m)
        if r is None:
            x, xl, xh = self.m(m[:-1])
            y, yl, yh = self.m(m[-1:])
            c = [xl * yl, xl * yh, xh * yl, xh * yh]
            lo, hi = min(c), max(c)
            w = self.width(lo, hi)
            r = self.mono[m] = (self.ext(x, w) * self.ext(y, w), lo, hi)
        return r

    def poly(self, p):
        """(two's complement vector, lo, hi)"""
        k = tm.pkey(p)
        r = self.pc.get(k)
        if r is not None:
            return r
        lo = hi = p.get((), 0)
        ts = []
        for m, c in p.items():
            if m == ():
                continue
            v, l, h = self.m(m)
            ts.append((c, v))
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        if len(p) <= 40:
            l, h = prange(p)
            lo, hi = max(lo, l), min(hi, h)
        w = self.width(lo, hi)
        acc = None
        for c, v in sorted(ts, key=lambda x: abs(x[0])):
            e = self.ext(v, w)
            if c == -1:
                e = -e
            elif c != 1:
                a = abs(c)
                if a & (a - 1) == 0:
                    sh = a.bit_length() - 1
                    if sh >= w:
                        continue
                    e = z3.Concat(z3.Extract(w - 1 - sh, 0, e), z3.BitVecVal(0, sh)) if sh else e
                else:
                    e = e * z3.BitVecVal(a, w)
                if c < 0:
                    e = -e
            acc = e if acc is None else acc + e
        c0 = p.get((), 0)
        if acc is None:
            acc = z3.BitVecVal(c0, w)
        elif c0:
            acc = acc + z3.BitVecVal(c0, w)
        r = self.pc[k] = (acc, lo, hi)
        return r

    def term(self, t):
        if t.__class__ is int:
            return z3.BitVecVal(t, self.width(t, t))
        return self.poly(t.p)[0]

    def boolean(self, t):
        if t.__class__ is int:
            return z3.BoolVal(bool(t))
        return self.poly(t.p)[0] != 0

    def lit(self, t, val):
        k = t.key()
        b = self.lits.get(k)
        if b is None:
            self.n += 1
            b = z3.Bool('b%d' % self.n)
            self.s.add(b == self.boolean(t))
            self.lits[k] = b
        return b if val else z3.Not(b)

    def check(self, lits, timeout_ms):
        self.s.set('timeout', int(timeout_ms))
        r = self.s.check(*lits)
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            m = self.s.model()
            out = {}
            for i, v in self.vars.items():
                x = m.eval(v, model_completion=True)
                out[i] = x.as_signed_long()
            return 'sat', out
        return 'unknown', None


ENABLED = False
_bv = None
MAXBITS = 0


def setup(bits):
    """called per unit, with the number of input bits"""
    global ENABLED, _bv
    ENABLED = bits <= MAXBITS
    _bv = None


def query(goal, pc, timeout_ms, stats):
    global _bv
    if _bv is None:
        _bv = BV()
    t0 = time.time()
    try:
        lits = [_bv.lit(t, v) for t, v in pc if t.__class__ is T] + [_bv.lit(t, v) for t, v in goal]
        st, model = _bv.check(lits, timeout_ms)
    except z3.Z3Exception as e:
        _bv = None
        return 'unknown', None
    dt = time.time() - t0
    stats.queries += 1
    stats.time += dt
    stats.max_time = max(stats.max_time, dt)
    setattr(stats, st, getattr(stats, st) + 1)
    return st, model
