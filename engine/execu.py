"""Symbolic executor for LLVM IR (llparse) over exact integer terms (terms).

Memory: objects (id << 32 is the base address) holding cells offset -> (value, size).
Control: symbolic branches are decided by the solver under the path condition; both sides are
explored when both are feasible, and merged again at the immediate post-dominator when the
states have the same shape (same pointers, lengths and allocation sizes).
"""
import random
import re
import sys
import time
import terms as tm
from terms import T, NeedConcrete, Unsupported, P, LO, HI, ATOMS, psub, pscale, pkey
import solver
from solver import lit_poly_fix
import llparse

sys.setrecursionlimit(20000)

MASK64 = (1 << 64) - 1


class MemErr(Exception):
    pass


class Budget(Exception):
    pass


class Obj:
    __slots__ = ('size', 'cells', 'kind', 'tok')

    def __init__(self, size, cells, kind, tok):
        self.size, self.cells, self.kind, self.tok = size, cells, kind, tok


class Tok:
    __slots__ = ()


class State:
    __slots__ = ('mem', 'tok', 'pc', 'npc', 'facts', 'conc', 'nobj', 'frame', 'x', 'wit')

    def __init__(self, x):
        self.mem = {}
        self.tok = Tok()
        self.pc = None            # (t, val, parent)
        self.npc = 0
        self.facts = {}
        self.conc = {}
        self.nobj = 1
        self.frame = []
        self.x = x
        self.wit = ()             # concrete inputs (environments) that take this path

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.tok = Tok()
        self.tok = Tok()
        s.pc, s.npc = self.pc, self.npc
        s.facts = dict(self.facts)
        s.conc = dict(self.conc)
        s.nobj = self.nobj
        s.frame = list(self.frame)
        s.x = self.x
        s.wit = self.wit
        return s

    def add(self, t, val):
        """append the literal t == val (t a 1-bit term)"""
        if t.__class__ is int:
            return
        while t.op == 'not' or (t.op == 'id' and t.a and t.a[0].__class__ is T and t.a[0].w == 1):
            if t.op == 'not':
                val = not val
            t = t.a[0]
            if t.__class__ is int:
                return
        if t.op == 'and' and val and t.w == 1 and len(t.a) == 2:
            self.add(t.a[0], True)
            self.add(t.a[1], True)
            return
        if t.op == 'or' and not val and t.w == 1:
            self.add(t.a[0], False)
            self.add(t.a[1], False)
            return
        f = lit_poly_fix(t, val)
        if f:
            if self.facts.get(f[0]) == f[1]:
                return
            self.facts[f[0]] = f[1]
        self.pc = (t, bool(val), self.pc)
        self.npc += 1
        if self.wit:
            self.wit = [e for e in self.wit if bool(tm.eval_t(t, e)) == bool(val)]

    def pclist(self, upto=None):
        out = []
        n = self.pc
        while n is not upto:
            out.append((n[0], n[1]))
            n = n[2]
        out.reverse()
        return out

    # ---------------------------------------------------------- memory
    def new(self, size, kind):
        i = self.nobj
        self.nobj = i + 1
        self.mem[i] = Obj(size, {}, kind, self.tok)
        return i << 32

    def alloca(self, size):
        p = self.new(size, 's')
        self.frame.append(p >> 32)
        return p

    def lifetime(self, p):
        if p.__class__ is int:
            o = self.mem.get(p >> 32)
            if o is not None and o.cells and o.kind == 's':
                self.mem[p >> 32] = Obj(o.size, {}, 's', self.tok)

    def obj(self, i):
        o = self.mem.get(i)
        if o is None:
            o = self.x.glob(i)
            if o is None:
                raise MemErr('access to freed or unknown object %d' % i)
        return o

    def wobj(self, i):
        o = self.mem.get(i)
        if o is None:
            if self.x.glob(i) is not None:
                raise MemErr('write to constant')
            raise MemErr('write to freed or unknown object %d' % i)
        if o.tok is not self.tok:
            o = self.mem[i] = Obj(o.size, dict(o.cells), o.kind, self.tok)
        return o


def ptrsplit(S, a, write):
    if a.__class__ is T:
        v = S.conc.get(a.key())
        if v is None:
            raise NeedConcrete('val', a, 64)
        a = v
    return a >> 32, a & 0xffffffff


def ld(S, a, size, w):
    if a.__class__ is T:
        v = S.conc.get(a.key())
        if v is None:
            r = lut(S, a, size)
            if r is not None:
                return r if w == size * 8 else low(r, size * 8, w)
            raise NeedConcrete('val', a, 64)
        a = v
    o = S.obj(a >> 32)
    off = a & 0xffffffff
    c = o.cells.get(off)
    if c is not None and c[1] == size:
        v = c[0]
    else:
        if off + size > o.size:
            raise MemErr('read out of bounds: offset %d size %d of %d' % (off, size, o.size))
        v = gather(S, o, off, size)
    if w != size * 8:
        return low(v, size * 8, w)
    return v


def low(v, w0, w):
    if v.__class__ is int:
        return v & ((1 << w) - 1)
    if v.hi < (1 << w):
        return v if v.w == w else T(w, v.p, v.lo, v.hi, 'id', (v,))
    return tm.t_trunc(v, w0, w)


def gather(S, o, off, size):
    parts = []
    i = off
    end = off + size
    cells = o.cells
    while i < end:
        c = cells.get(i)
        if c is not None:
            n = min(c[1], end - i)
            v = c[0]
            if n < c[1]:
                v = tm.t_extract(v, c[1] * 8, 0, n * 8)
            parts.append((v, n * 8))
            i += n
            continue
        for k in range(1, 16):
            c = cells.get(i - k)
            if c is not None:
                if c[1] > k:
                    n = min(c[1] - k, end - i)
                    parts.append((tm.t_extract(c[0], c[1] * 8, k * 8, n * 8), n * 8))
                    i += n
                else:
                    c = None
                break
        else:
            c = None
        if c is None:
            if o.kind == 'h':
                S.x.nundef += 1
                parts.append((tm.var('undef%d' % S.x.nundef, 8), 8))
            else:
                parts.append((0, 8))
            i += 1
    if len(parts) == 1:
        return parts[0][0]
    # adjacent byte extracts of one term glue back together
    return tm.t_concat(parts)


def clear(cells, off, size):
    """make room for a cell at [off, off+size)"""
    for k in range(off - 15, off + size):
        c = cells.get(k)
        if c is None:
            continue
        n = c[1]
        if k + n <= off:
            continue
        del cells[k]
        if k < off:
            cells[k] = (tm.t_extract(c[0], n * 8, 0, (off - k) * 8), off - k)
        if k + n > off + size:
            m = k + n - (off + size)
            cells[off + size] = (tm.t_extract(c[0], n * 8, (n - m) * 8, m * 8), m)


def st(S, a, v, size, w):
    if a.__class__ is T:
        a = S.conc.get(a.key(), a)
        if a.__class__ is T:
            raise NeedConcrete('val', a, 64)
    o = S.wobj(a >> 32)
    off = a & 0xffffffff
    c = o.cells.get(off)
    if c is None or c[1] != size:
        if off + size > o.size:
            raise MemErr('write out of bounds: offset %d size %d of %d' % (off, size, o.size))
        clear(o.cells, off, size)
    o.cells[off] = (v, size)


def ldagg(S, a, ty):
    if ty[0] in ('i', 'ptr'):
        return ld(S, a, llparse.t_size(ty), llparse.bits(ty))
    if ty[0] == 'st':
        return tuple(ldagg(S, gep(S, a, llparse.f_off(ty, i), 1), t) for i, t in enumerate(ty[1]))
    if ty[0] == 'arr':
        sz = llparse.t_size(ty[2])
        return tuple(ldagg(S, gep(S, a, i * sz, 1), ty[2]) for i in range(ty[1]))
    raise Unsupported('load of %r' % (ty,))


class VB(tuple):
    """a vector of integers, as its bytes (elements of less than a byte: as the elements)"""
    __slots__ = ()


def vb(v, n, ew):
    """the bytes of a vector of n elements of ew bits (constants come as elements)"""
    if v.__class__ is VB:
        return v
    if ew < 8:
        return VB(v)
    return VB((x >> 8 * k) & 255 if x.__class__ is int else vtrunc(x, ew, 8 * k) for x in v for k in range(ew // 8))


def vtrunc(x, w, k):
    if k:
        x = tm.t_lshr(x, k, w)
    return x & 255 if x.__class__ is int else tm.t_trunc(x, w, 8) if w > 8 else x


def vcat(bs, w):
    """the bytes bs, lowest first, as one integer of w bits"""
    r = bs[0] if bs[0].__class__ is int else bs[0] if w == 8 else tm.t_zext(bs[0], 8, w)
    for k, b in enumerate(bs[1:], 1):
        b = b << 8 * k if b.__class__ is int else tm.t_shl(tm.t_zext(b, 8, w), 8 * k, w)
        r = r | b if r.__class__ is b.__class__ is int else tm.t_or(r, b, w, True)
    return r


def velems(v, n, ew):
    v = vb(v, n, ew)
    return list(v) if ew <= 8 else [vcat(v[i:i + ew // 8], ew) for i in range(0, len(v), ew // 8)]


def ldvec(S, a, n, ew):
    if ew % 8:
        raise Unsupported('load of a vector of %d bits' % ew)
    return VB(ld(S, gep(S, a, i, 1), 1, 8) for i in range(n * ew // 8))


def vbin(f, bitwise, a, b, n, ew):
    """f(x, y, w) on the elements; and, or, xor byte by byte"""
    if bitwise:
        w = min(ew, 8)
        return VB(f(x, y, w) for x, y in zip(vb(a, n, ew), vb(b, n, ew)))
    return vb(tuple(f(x, y, ew) for x, y in zip(velems(a, n, ew), velems(b, n, ew))), n, ew)


def vicmp(f, a, b, n, ew):
    return VB(f(x, y) for x, y in zip(velems(a, n, ew), velems(b, n, ew)))


def vbits(v, n, ew):
    """bitcast of a vector to an integer"""
    if ew >= 8:
        return vcat(vb(v, n, ew), n * ew)
    r = 0
    for k, x in enumerate(vb(v, n, ew)):
        x = x << ew * k if x.__class__ is int else tm.t_shl(tm.t_zext(x, ew, n * ew), ew * k, n * ew)
        r = r | x if r.__class__ is x.__class__ is int else tm.t_or(r, x, n * ew, True)
    return r


def vsplit(x, w):
    """bitcast of an integer to a vector of whole bytes"""
    return vb((x,), 1, w)


def stagg(S, a, v, ty):
    if v.__class__ is VB:
        for i, x in enumerate(v):
            st(S, gep(S, a, i, 1), x, 1, 8)
        return
    if ty[0] in ('i', 'ptr'):
        return st(S, a, v, llparse.t_size(ty), llparse.bits(ty))
    if ty[0] == 'st':
        for i, t in enumerate(ty[1]):
            stagg(S, gep(S, a, llparse.f_off(ty, i), 1), v[i], t)
        return
    if ty[0] == 'arr' or (ty[0] == 'vec' and ty[2][0] in ('i', 'ptr')):
        sz = llparse.t_size(ty[2])
        for i in range(ty[1]):
            stagg(S, gep(S, a, i * sz, 1), v[i], ty[2])
        return
    raise Unsupported('store of %r' % (ty,))


def gep(S, a, b, sz):
    if b.__class__ is T:
        b = S.conc.get(b.key(), b)
    if a.__class__ is T:
        a = S.conc.get(a.key(), a)
    if a.__class__ is b.__class__ is int:
        return (a + b * sz) & MASK64
    if b.__class__ is T:
        p, l, h = tm.sval(b, 64)
        p, l, h = tm.pscale(p, sz), l * sz, h * sz
    else:
        b = (b - (1 << 64) if b >> 63 else b) * sz
        p, l, h = tm.pconst(b), b, b
    return tm.wrap(tm.padd(P(a), p), LO(a) + l, HI(a) + h, 64, 'gep', ())


def insval(agg, v, ix):
    if len(ix) == 1:
        l = list(agg)
        l[ix[0]] = v
        return tuple(l)
    l = list(agg)
    l[ix[0]] = insval(agg[ix[0]], v, ix[1:])
    return tuple(l)


def memcpy(S, d, s, n):
    n = cz(S, n)
    if n.__class__ is T:
        raise NeedConcrete('val', n, 64)
    if n == 0:
        return
    so, soff = ptrsplit(S, s, False)
    do, doff = ptrsplit(S, d, True)
    src = S.obj(so)
    if soff + n > src.size:
        raise MemErr('memcpy reads out of bounds')
    new = []
    end = soff + n
    sc = src.cells
    if len(sc) < n + 16:
        items = [(k, c) for k, c in sc.items() if k < end and k + c[1] > soff]
    else:
        items = []
        for k in range(soff - 15, end):
            c = sc.get(k)
            if c is not None and k + c[1] > soff:
                items.append((k, c))
    for k, (v, sz) in items:
        a, b = max(k, soff), min(k + sz, end)
        if b - a != sz:
            v = tm.t_extract(v, sz * 8, (a - k) * 8, (b - a) * 8)
        new.append((doff + a - soff, (v, b - a)))
    dst = S.wobj(do)
    if doff + n > dst.size:
        raise MemErr('memcpy writes out of bounds')
    if dst.cells:
        clear(dst.cells, doff, n)
    dst.cells.update(new)


def memset(S, d, v, n):
    n = cz(S, n)
    if n.__class__ is T:
        raise NeedConcrete('val', n, 64)
    if n == 0:
        return
    do, doff = ptrsplit(S, d, True)
    dst = S.wobj(do)
    if doff + n > dst.size:
        raise MemErr('memset writes out of bounds')
    clear(dst.cells, doff, n)
    # use wide cells for zero fills of aligned ranges; reads re-extract as needed
    for k in range(doff, doff + n):
        dst.cells[k] = (v, 1)


def cz(S, x):
    if x.__class__ is T:
        return S.conc.get(x.key(), x)
    return x


def boolval(S, c):
    """decided value of the 1-bit term c, or c"""
    if c.__class__ is int:
        return c
    f = lit_poly_fix(c, True)
    if f:
        v = S.facts.get(f[0])
        if v is not None:
            return int(v == f[1])
    v = S.conc.get(c.key())
    if v is not None:
        return v
    return c


def sel(S, c, a, b, w, kind):
    c = boolval(S, c)
    if c.__class__ is int:
        return a if c else b
    if kind == 2:
        if a == b:
            return a
        raise NeedConcrete('val', c, 1)
    if a.__class__ is b.__class__ is int:
        if a == b:
            return a
        if kind == 1 or (w == 64 and (a > 1 or b > 1)):
            raise NeedConcrete('val', c, 1)
    elif kind == 1:
        raise NeedConcrete('val', c, 1)
    return tm.t_ite(c, a, b, w)


def x_shl(a, b, w):
    return tm.t_shl(a, cz(CUR[0], b), w)


def x_lshr(a, b, w):
    return tm.t_lshr(a, cz(CUR[0], b), w)


def x_ashr(a, b, w):
    return tm.t_ashr(a, cz(CUR[0], b), w)


def x_udiv(a, b, w):
    if b.__class__ is int and b == 0:
        raise MemErr('division by zero (undefined)')
    b = cz(CUR[0], b)
    if b.__class__ is T:
        v = quotient(CUR[0], a, b, w)
        if v is not None:
            return v
    return tm.t_udiv(a, b, w)


def x_urem(a, b, w):
    if b.__class__ is int and b == 0:
        raise MemErr('division by zero (undefined)')
    b = cz(CUR[0], b)
    if b.__class__ is T:
        v = quotient(CUR[0], a, b, w)
        if v is not None:
            return tm.mkT(w, psub(P(a), pscale(b.p, v)), 0, min(b.hi - 1, HI(a)), 'urem', (a, b))
    return tm.t_urem(a, b, w)


def quotient(S, a, b, w):
    """the quotient by a symbolic divisor on this path when it takes few values (one path each:
    with a concrete quotient everything stays linear)"""
    k = S.x.divfork
    if not k:
        return None
    key = ('div', pkey(P(a)), b.key())
    v = S.conc.get(key)
    if v is not None:
        return None if v == 'sym' else v
    if LO(a) // b.hi == HI(a) // max(1, b.lo):
        return None
    c = set()
    for e in S.wit:
        y = tm.eval_t(b, e)
        if not y:
            return None
        c.add(tm.eval_t(a, e) // y)
        if len(c) > k:
            S.conc[key] = 'sym'
            return None
    if not c:
        return None
    raise NeedConcrete('div', (a, b, key, c), w)


def udivc(a, b):
    if b == 0:
        raise MemErr('division by zero (undefined)')
    return a // b


def uremc(a, b):
    if b == 0:
        raise MemErr('division by zero (undefined)')
    return a % b


def t_sdivc(a, b, w):
    a, b = tm.sval(a, w)[1], tm.sval(b, w)[1]
    if b == 0:
        raise MemErr('division by zero (undefined)')
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return q & ((1 << w) - 1)


def t_sremc(a, b, w):
    a, b = tm.sval(a, w)[1], tm.sval(b, w)[1]
    if b == 0:
        raise MemErr('division by zero (undefined)')
    r = abs(a) % abs(b)
    return (-r if a < 0 else r) & ((1 << w) - 1)


def t_ordisj(a, b, w):
    return tm.t_or(a, b, w, True)


def ctlz(S, x, w):
    if x.__class__ is int:
        return w - x.bit_length()
    v = S.conc.get(('ctlz', x.key()))
    if v is not None:
        return v
    return tm.t_ctlz(x, w)


def ctpop(S, x, w):
    x = cz(S, x)
    if x.__class__ is int:
        return bin(x).count('1')
    v = S.conc.get(('ctpop', x.key()))
    if v is not None:
        return v
    if w > 16:
        raise NeedConcrete('pop', x, w)
    # sum of bits
    r = {}
    hi = 0
    for i in range(x.hi.bit_length()):
        b = tm.t_extract(x, w, i, 1)
        r = tm.padd(r, P(b))
        hi += 1
    return tm.mkT(w, r, 0, hi, 'ctpop', (x,))


def bitrev(x, w):
    if x.__class__ is int:
        return int(format(x, '0%db' % w)[::-1], 2)
    return tm.t_concat([(tm.t_extract(x, w, w - 1 - i, 1), 1) for i in range(w)])


def bswap(x, w):
    return tm.t_concat([(tm.t_extract(x, w, w - 8 - i, 8), 8) for i in range(0, w, 8)])


def t_abs(x, w):
    c = tm.t_slt(x, 0, w)
    return tm.t_ite(c, tm.t_sub(0, x, w), x, w)


def ldrel(S, base, off):
    v = ld(S, gep(S, base, off, 1), 4, 32)
    if v.__class__ is T:
        raise NeedConcrete('val', v, 32)
    return (base + (v - (1 << 32) if v >> 31 else v)) & MASK64


def lut(S, a, size):
    """load from a constant table at a symbolic index: closed form, or None"""
    if a.lo >> 32 != a.hi >> 32:
        return None
    o = S.obj(a.lo >> 32)
    from math import gcd
    g = 0
    for m, c in a.p.items():
        if m != ():
            g = gcd(g, c)
    lo = a.lo
    c0 = a.p.get((), 0)
    lo += (c0 - lo) % g
    n = (a.hi - lo) // g + 1
    if n > 512:
        return None
    vals = []
    for i in range(n):
        off = (lo + i * g) & 0xffffffff
        if off + size > o.size:
            # the index interval may be wider than the feasible indices
            break
        c = o.cells.get(off)
        v = c[0] if c is not None and c[1] == size else gather(S, o, off, size)
        if v.__class__ is not int:
            return None
        vals.append(v)
    if len(vals) < n:
        # out-of-range indices must be infeasible
        cnd = tm.t_ult(a, lo + len(vals) * g, 64)
        if not S.x.must(S, cnd):
            return None
        n = len(vals)
    if n == 0:
        return None
    idx = {m: c // g for m, c in tm.paddc(a.p, -lo).items()}
    w = size * 8
    vl, vh = min(vals), max(vals)
    if vl == vh:
        return vl
    # affine
    for m in [0] + [k for k in (10, 16, 100, 8, 4, 2) if k < n]:
        if m == 0:
            c1 = vals[1] - vals[0]
            if all(vals[i] == vals[0] + c1 * i for i in range(n)):
                return tm.mkT(w, tm.paddc(tm.pscale(idx, c1), vals[0]), vl, vh, 'lut', (a,))
        else:
            c1 = vals[m] - vals[0]
            c2 = vals[1] - vals[0]
            if all(vals[i] == vals[0] + c1 * (i // m) + c2 * (i % m) for i in range(n)):
                q, _, _ = tm.floor_div(idx, m, 0, n - 1)
                r = tm.psub(idx, tm.pscale(q, m))
                return tm.mkT(w, tm.paddc(tm.padd(tm.pscale(q, c1), tm.pscale(r, c2)), vals[0]), vl, vh, 'lut', (a,))
    # piecewise affine
    pieces = [(0, vals[0], 0)]
    i = 0
    while i < n:
        s = vals[i + 1] - vals[i] if i + 1 < n else 0
        j = i
        while j + 1 < n and vals[j + 1] - vals[j] == s:
            j += 1
        pieces.append((i, vals[i], s))
        i = j + 1
    pieces = pieces[1:]
    if len(pieces) > 10:
        return None
    r = 0
    first = True
    it = tm.T(64, idx, 0, n - 1, 'idx', (a,))
    for k, (b, v0, s) in enumerate(pieces):
        e = pieces[k + 1][0] if k + 1 < len(pieces) else n
        p = tm.paddc(tm.pscale(idx, s), v0 - s * b)
        xs = [vals[i] for i in range(b, e)]
        val = tm.mkT(w, p, min(xs), max(xs), 'lutp', (a,)) if s else v0
        if first:
            r = val
            first = False
        else:
            r = tm.t_ite(tm.t_ult(it, b, 64), r, val, w)
    return r


CUR = [None]
RV = [None]
CA = [None]
CF = [None]


class Outcome:
    """a path that did not return normally"""

    def __init__(self, kind, S, what):
        self.kind, self.pc, self.what = kind, S.pclist(), what


def bit(p):
    """1-bit term from a 0/1 polynomial"""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return T(1, p, 0, 1, 'cmp', ())


def ge(p, k):
    return tm.ge_poly(tm.paddc(p, k))


class Exec:
    def __init__(self, prog, deadline=None, merge=True, feas_ms=1500):
        self.prog = prog
        self.merge_on = merge
        self.deadline = deadline
        self.feas_ms = feas_ms
        self.nundef = 0
        self.steps = 0
        self.max_steps = 30_000_000
        self.cur = None           # the state being executed
        self.outcomes = []
        self.paths = 0
        self.forks = 0
        self.merges = 0
        self.globs = {}
        self.called = set()
        self.depth = 0
        self.max_outcomes = 4000
        env = dict(tm.__dict__)
        env.update({k: v for k, v in globals().items() if not k.startswith('__')})
        prog.env = env
        self.feas_cache = {}
        self.cov = None           # a set: branch outcomes seen (tools/pick.py)
        self.escalate = True
        self.divfork = 0
        self.groups = []
        self.rnd = random.Random(7)

    # ---------------------------------------------------------- helpers
    def glob(self, i):
        o = self.globs.get(i)
        if o is None:
            if i not in self.prog.gsym:
                return None
            r = self.prog.global_init(i)
            if r is None:
                mod, name = self.prog.gsym[i]
                # a global defined in a module that has not been loaded yet
                if self.prog.on_missing and self.prog.on_missing(name):
                    r = self.prog.global_init(i)
            if r is None:
                return None
            o = self.globs[i] = Obj(r[0], r[1], 'g', None)
        return o

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
        if self.steps > self.max_steps:
            raise Budget('steps')

    def feasible(self, S, c, val, full=False):
        """False only if pc /\\ (c == val) is unsatisfiable"""
        self.check_time()
        val = bool(val)
        for e in S.wit:
            if bool(tm.eval_t(c, e)) == val:
                return True
        pc = S.pclist()
        st, model = solver.query([(c, val)], pc, timeout_ms=self.feas_ms, want_model=True,
                                 levels=(0, 1, 2, 4, 1000) if full else (0, 1, 3))
        if st == 'unsat':
            return False
        if model and self.witness(S, model, pc, c, val):
            return True
        if S.wit and self.escalate:
            return self.harder(S, c, val, pc)
        return True

    def harder(self, S, c, val, pc):
        """no sample takes this side and the abstraction allows it: look for an input that does
        (one operand fixed, so that the rest is linear), or prove that there is none"""
        if self.fixsearch(S, c, val, pc, 2):
            return True
        st, model = solver.query([(c, val)], pc, timeout_ms=self.feas_ms, want_model=True, levels=(1000,), exact=True, final_timeout_ms=self.hard_ms)
        if st == 'unsat':
            return False
        if model and self.witness(S, model, pc, c, val):
            return True
        self.fixsearch(S, c, val, pc, 5)
        return True

    def fixsearch(self, S, c, val, pc, n):
        rnd = self.rnd
        for k in range(n):
            e = rnd.choice(S.wit)
            for g in self.groups:
                vs = [m[0] for p in g for m in p if m != ()]
                if not vs:
                    continue
                fix = {}
                for i in vs:
                    a = ATOMS[i]
                    v = e[i] if k % 2 == 0 and i in e else rnd.choice([a.lo, a.hi, a.lo + 1, (a.lo + a.hi) // 2, rnd.randint(a.lo, a.hi)])
                    fix[i] = min(max(v, a.lo), a.hi)
                st, model = solver.query([(c, val)], pc, timeout_ms=300, want_model=True, levels=(3, 1000), fix=fix)
                if model:
                    model.update(fix)
                    if self.witness(S, model, pc, c, val):
                        return True
        return False

    hard_ms = 4000

    def witness(self, S, model, pc, c, val):
        """turn a model of an abstraction into a concrete input taking this side, if it is one"""
        mv = {i: v for i, v in model.items() if ATOMS[i].kind == 'var' and ATOMS[i].lo <= v <= ATOMS[i].hi}
        for base in [{}] + [{i: v for i, v in e.items() if ATOMS[i].kind == 'var'} for e in S.wit[:3]]:
            e = dict(base)
            e.update(mv)
            if bool(tm.eval_t(c, e)) == val and all(bool(tm.eval_t(t, e)) == v for t, v in pc):
                S.wit = list(S.wit) + [e]
                return True
        return False

    def must(self, S, c):
        if c.__class__ is int:
            return bool(c)
        return not self.feasible(S, c, False, full=True)

    def outcome(self, kind, S, what):
        self.outcomes.append(Outcome(kind, S, what))
        if len(self.outcomes) > self.max_outcomes:
            raise Budget('too many abnormal paths')

    # ---------------------------------------------------------- entry point
    def run(self, name, args, S):
        fn = self.prog.find(name)
        if fn is None:
            raise Unsupported('no function ' + name)
        res = self.run_fn(fn, args, S)
        self.paths += len(res)
        return res

    def run_fn(self, fn, args, S):
        self.depth += 1
        if self.depth > 60:
            raise Budget('call depth')
        self.called.add(fn.name)
        saved = S.frame
        S.frame = []
        R = [0] * (len(fn.regs) + 400)
        for (r, ty), a in zip(fn.params, args):
            R[r] = a
        rets = []
        self.exec_until(fn, S, R, fn.order[0], None, rets)
        out = []
        for S2, R2, v in rets:
            for i in S2.frame:
                S2.mem.pop(i, None)
            S2.frame = list(saved)
            out.append((S2, v))
        self.depth -= 1
        return out

    # ---------------------------------------------------------- core
    def take(self, blk, succ, R, S):
        ph = succ.phis.get(blk.name)
        if ph:
            fn = self.fncur
            code = ph if ph.__class__ is _Ph else None
            if code is None:
                code = succ.phis[blk.name] = compile_phi(fn, succ, ph)
            code.f(R)

    def exec_until(self, fn, S, R, blk, stop, rets):
        out = []
        work = [(S, R, blk, 0)]
        while work:
            S, R, blk, si = work.pop()
            while True:
                if blk is stop and si == 0:
                    out.append((S, R))
                    break
                segs = blk.segs
                if segs is None:
                    segs = fn.segments(blk)
                    if len(R) < len(fn.regs):
                        R.extend([0] * (len(fn.regs) - len(R)))
                sg = segs[si]
                self.steps += sg.n
                if self.steps & 0x3ff < sg.n:
                    self.check_time()
                if sg.code is not None:
                    CUR[0] = self.cur = S
                    try:
                        sg.code(R, S)
                    except NeedConcrete as e:
                        for S2 in self.concretize(S, e):
                            work.append((S2, list(R), blk, si))
                        break
                    except MemErr as e:
                        self.outcome('ub', S, '%s in %s' % (e, fn.name))
                        break
                ctl = sg.ctl
                k = ctl[0]
                if k == 'next':
                    si += 1
                    continue
                if k == 'br':
                    t = ctl[1]
                    if t.phidst:
                        self.fncur = fn
                        self.take(blk, t, R, S)
                    blk = t
                    si = 0
                    continue
                if k == 'cbr':
                    c = R[ctl[1]]
                    if c.__class__ is not int:
                        c = boolval(S, c)
                    if c.__class__ is int:
                        t = ctl[2] if c else ctl[3]
                        if self.cov is not None:
                            self.cov.add((fn.name, blk.idx, bool(c)))
                        if t.phidst:
                            self.fncur = fn
                            self.take(blk, t, R, S)
                        blk = t
                        si = 0
                        continue
                    r = self.branch(fn, S, R, blk, c, ctl[2], ctl[3], stop, rets)
                    if r is None:
                        break
                    if r.__class__ is list:
                        work.extend(r)
                        break
                    S, R, blk = r
                    si = 0
                    continue
                if k == 'call':
                    rs = self.call(fn, S, R, ctl)
                    if rs is None:
                        break
                    d = ctl[1]
                    if len(rs) == 1:
                        S, v = rs[0]
                        if d is not None:
                            R[d] = v
                        si += 1
                        continue
                    for S2, v in rs:
                        R2 = list(R)
                        if d is not None:
                            R2[d] = v
                        work.append((S2, R2, blk, si + 1))
                    break
                if k == 'switch':
                    v = R[ctl[1]]
                    if v.__class__ is T:
                        v = S.conc.get(v.key(), v)
                    if v.__class__ is int:
                        t = ctl[3]
                        for kk, bb in ctl[4]:
                            if kk == v:
                                t = bb
                                break
                        if t.phidst:
                            self.fncur = fn
                            self.take(blk, t, R, S)
                        blk = t
                        si = 0
                        continue
                    work.extend(self.switch(fn, S, R, blk, v, ctl))
                    break
                if k == 'ret':
                    rets.append((S, R, RV[0] if ctl[1] is not None else None))
                    break
                if k == 'unreachable':
                    self.outcome('ub', S, 'unreachable executed in %s' % fn.name)
                    break
                raise Unsupported(str(ctl))
        return out

    def branch(self, fn, S, R, blk, c, tt, ff, stop, rets):
        """both sides of a symbolic branch; returns (S,R,blk) | list of work items | None"""
        self.fncur = fn
        if self.cov is not None:
            self.cov.add((fn.name, blk.idx, 2))
        nt = tt.ipdom is None and not is_live(fn, tt)
        nf = ff.ipdom is None and not is_live(fn, ff)
        ft = self.feasible(S, c, True, nt)
        if not ft:
            S.add(c, False)
            self.take(blk, ff, R, S)
            return S, R, ff
        if not self.feasible(S, c, False, nf):
            S.add(c, True)
            self.take(blk, tt, R, S)
            return S, R, tt
        self.forks += 1
        base = S.pc
        S2 = S.fork()
        R2 = list(R)
        S.add(c, True)
        S2.add(c, False)
        self.take(blk, tt, R, S)
        self.fncur = fn
        self.take(blk, ff, R2, S2)
        if nt or nf:
            # one side can only panic: run it to its end, go on with the other
            if nt:
                self.exec_until(fn, S, R, tt, None, rets)
                if nf:
                    self.exec_until(fn, S2, R2, ff, None, rets)
                    return None
                return S2, R2, ff
            self.exec_until(fn, S2, R2, ff, None, rets)
            return S, R, tt
        p = blk.ipdom
        if p is None or not self.merge_on:
            return [(S2, R2, ff, 0), (S, R, tt, 0)]
        A = self.exec_until(fn, S, R, tt, p, rets)
        B = self.exec_until(fn, S2, R2, ff, p, rets)
        res = self.merge_lists(fn, p, c, base, A, B)
        if len(res) == 1:
            return res[0][0], res[0][1], p
        return [(s, r, p, 0) for s, r in res]

    def switch(self, fn, S, R, blk, v, ctl):
        work = []
        w = ctl[2]
        targets = {}
        for kk, bb in ctl[4]:
            targets.setdefault(bb.idx, (bb, []))[1].append(kk)
        allk = [kk for kk, _ in ctl[4]]
        for bb, ks in targets.values():
            for kk in ks:
                c = tm.t_eq(v, kk, w)
                if c.__class__ is int and not c:
                    continue
                if c.__class__ is T and not self.feasible(S, c, True):
                    continue
                S2 = S.fork()
                R2 = list(R)
                S2.add(c, True)
                S2.conc[v.key()] = kk
                self.fncur = fn
                self.take(blk, bb, R2, S2)
                work.append((S2, R2, bb, 0))
        # default
        S2 = S
        ok = True
        for kk in allk:
            c = tm.t_eq(v, kk, w)
            if c.__class__ is int:
                if c:
                    ok = False
                continue
            if ok and not self.feasible(S2, c, False):
                ok = False
            S2.add(c, False)
        if ok:
            self.fncur = fn
            self.take(blk, ctl[3], R, S2)
            work.append((S2, R, ctl[3], 0))
        self.forks += len(work) - 1
        return work

    def concretize(self, S, e):
        t, w = e.t, e.w
        out = []
        if e.kind == 'ctlz':
            k = t.key()
            for n in range(w + 1):
                lo, hi = ((1 << (w - n - 1)), (1 << (w - n)) - 1) if n < w else (0, 0)
                lo2, hi2 = max(lo, t.lo), min(hi, t.hi)
                if lo2 > hi2:
                    continue
                c1 = tm.t_ule(lo2, t, w)
                c2 = tm.t_ule(t, hi2, w)
                c = tm.t_and(c1, c2, 1)
                if c.__class__ is int and not c:
                    continue
                if c.__class__ is T and not self.feasible(S, c, True):
                    continue
                S2 = S.fork()
                S2.add(c, True)
                S2.conc[('ctlz', k)] = n
                out.append(S2)
        elif e.kind == 'div':
            a, b, key, c = t
            pa, pb = P(a), b.p
            lo, hi = min(c), max(c)
            while hi - lo < self.divfork:
                # below lo*b, or at least (hi+1)*b?
                if lo and self.feasible(S, bit(ge(psub(pscale(pb, lo), pa), -1)), True):
                    lo = min(lo - 1, tm.eval_t(a, S.wit[-1]) // max(1, tm.eval_t(b, S.wit[-1]))) if S.wit else lo - 1
                    continue
                if self.feasible(S, bit(ge(psub(pa, pscale(pb, hi + 1)), 0)), True):
                    hi = max(hi + 1, tm.eval_t(a, S.wit[-1]) // max(1, tm.eval_t(b, S.wit[-1]))) if S.wit else hi + 1
                    continue
                break
            else:
                S.conc[key] = 'sym'
                return [S]
            for v in range(lo, hi + 1):
                S2 = S.fork()
                ok = True
                for t2 in (bit(ge(psub(pa, pscale(pb, v)), 0)), bit(ge(psub(pscale(pb, v + 1), pa), -1))):
                    if t2.__class__ is int:
                        ok = ok and bool(t2)
                    elif ok and self.feasible(S2, t2, True):
                        S2.add(t2, True)
                    else:
                        ok = False
                if ok:
                    S2.conc[key] = v
                    out.append(S2)
        elif e.kind == 'pop':
            # only "is it a power of two" matters in practice: fork on the value if small
            raise Unsupported('population count of a symbolic value')
        elif w == 1:
            for v in (1, 0):
                if not self.feasible(S, t, bool(v)):
                    continue
                S2 = S.fork()
                S2.add(t, bool(v))
                S2.conc[t.key()] = v
                out.append(S2)
        else:
            from math import gcd
            g = 0
            for m, c in t.p.items():
                if m != ():
                    g = gcd(g, c)
            for v in self.values(S, t, w, g):
                c = tm.t_eq(t, v, w)
                S2 = S.fork()
                S2.add(c, True)
                S2.conc[t.key()] = v
                out.append(S2)
        self.forks += max(0, len(out) - 1)
        return out

    def values(self, S, t, w, g):
        """all values the term t can take on this path (possibly some more)"""
        seen = {tm.eval_t(t, e) for e in S.wit}
        if len(seen) > 40:
            raise Unsupported('value needed concretely has many candidates')
        lo, hi = t.lo, t.hi
        lo += (t.p.get((), 0) - lo) % g
        hi -= (hi - lo) % g
        vals = sorted(v for v in seen if lo <= v <= hi)
        gaps = []
        x = lo
        for v in vals:
            if x < v:
                gaps.append((x, v - g))
            x = v + g
        if x <= hi:
            gaps.append((x, hi))
        out = list(vals)
        while gaps:
            a, b = gaps.pop()
            if a > b:
                continue
            c = tm.t_eq(t, a, w) if a == b else tm.t_and(tm.t_ule(a, t, w), tm.t_ule(t, b, w), 1)
            if c.__class__ is int:
                if not c:
                    continue
                f = True
            else:
                n = len(S.wit)
                f = self.feasible(S, c, True)
                if not f:
                    continue
                if len(S.wit) > n:
                    v = tm.eval_t(t, S.wit[-1])
                    out.append(v)
                    gaps += [(a, v - g), (v + g, b)]
                    if len(out) > 300:
                        raise Unsupported('value needed concretely has many candidates')
                    continue
            if a == b:
                out.append(a)
                if len(out) > 300:
                    raise Unsupported('value needed concretely has many candidates')
                continue
            m = a + (b - a) // (2 * g) * g
            gaps += [(a, m), (m + g, b)]
        return sorted(out)

    # ---------------------------------------------------------- calls
    def call(self, fn, S, R, ctl):
        args = CA[0]
        name = ctl[2]
        if name is None:
            f = CF[0]
            if f.__class__ is T:
                raise Unsupported('symbolic function pointer')
            g = self.prog.gsym.get(f >> 32)
            if g is None:
                self.outcome('ub', S, 'call through bad pointer in ' + fn.name)
                return None
            mod, name = g
        else:
            mod = ctl[4]
        h = HOOKS.get(name)
        if h is None:
            h = find_hook(name)
            HOOKS[name] = h
        if h:
            try:
                r = h(self, S, args)
            except NeedConcrete as e:
                out = []
                for S2 in self.concretize(S, e):
                    CA[0] = args
                    CUR[0] = S2
                    r = self.call(fn, S2, R, ctl)
                    if r:
                        out += r
                return out
            except MemErr as e:
                self.outcome('ub', S, '%s in %s' % (e, name))
                return None
            return r
        if ctl[3] or self.noreturn(name, mod):
            self.outcome('panic', S, panic_text(S, name, args))
            return None
        f = self.prog.find(name, mod)
        if f is None:
            raise Unsupported('no body for ' + name)
        if f.noreturn:
            self.outcome('panic', S, panic_text(S, name, args))
            return None
        args = [a for a in args]
        r = self.run_fn(f, args, S)
        if not r:
            return None
        if len(r) > 1 and self.merge_on:
            pass
        return r

    def noreturn(self, name, mod):
        k = ('nr', name)
        v = self.feas_cache.get(k)
        if v is None:
            v = self.feas_cache[k] = self.prog.is_noreturn(name)
        return v

    # ---------------------------------------------------------- merging
    def merge_lists(self, fn, p, c, base, A, B):
        if not A or not B:
            return A + B
        out = []
        B = list(B)
        for s, r in A:
            done = False
            for j, (s2, r2) in enumerate(B):
                m = self.merge(fn, p, c, base, s, r, s2, r2)
                if m is not None:
                    out.append(m)
                    del B[j]
                    done = True
                    break
            if not done:
                out.append((s, r))
        return out + B

    def merge(self, fn, p, c, base, s, r, s2, r2):
        live = p.livein
        # quick shape test
        diff = []
        for i in live:
            a, b = r[i], r2[i]
            if a is b or a.__class__ is b.__class__ is int and a == b:
                continue
            if a.__class__ is tuple or b.__class__ is tuple:
                if a == b:
                    continue
                return None
            if a.__class__ is b.__class__ is int and (a > 255 or b > 255 or fn_wide(fn, i)):
                return None
            if a.__class__ is T and b.__class__ is T and a.p == b.p:
                continue
            diff.append((i, a, b))
        md = []
        m1, m2 = s.mem, s2.mem
        for i in m1.keys() | m2.keys():
            o1, o2 = m1.get(i), m2.get(i)
            if o1 is o2:
                continue
            if o1 is None or o2 is None:
                continue
            if o1.size != o2.size or o1.kind != o2.kind:
                return None
            c1, c2 = o1.cells, o2.cells
            odd = []
            for k in c1.keys() | c2.keys():
                x, y = c1.get(k), c2.get(k)
                if x is y:
                    continue
                if x is None or y is None or x[1] != y[1]:
                    odd.append(k)
                    continue
                a, b = x[0], y[0]
                if a is b or a.__class__ is b.__class__ is int and a == b:
                    continue
                if a.__class__ is T and b.__class__ is T and a.p == b.p:
                    continue
                if a.__class__ is b.__class__ is int and o1.kind == 's' and x[1] == 8:
                    return None
                md.append((i, k, (a, b), x[1]))
            if odd and not self.merge_odd(s, s2, i, o1, o2, odd, md):
                return None
        if len(diff) + len(md) > 40:
            return None
        if self.merge_lin:
            # only merges that keep every value linear: differences of one constant
            for a, b in [(a, b) for _, a, b in diff] + [ab for _, _, ab, _ in md]:
                pa = a.p if a.__class__ is T else tm.pconst(a)
                pb = b.p if b.__class__ is T else tm.pconst(b)
                if any(m != () for m in tm.psub(pa, pb)):
                    return None
        cost = 0
        for _, a, b in diff:
            cost += iter_cost(c, a, b)
        for _, _, ab, _ in md:
            cost += iter_cost(c, *ab)
        if cost > self.merge_cost:
            return None
        e1, e2 = s.pclist(base), s2.pclist(base)
        if len(e1) > 6 or len(e2) > 6:
            return None
        # build
        self.merges += 1
        n = s.fork()
        n.nobj = max(s.nobj, s2.nobj)
        for i, o in m2.items():
            if i not in n.mem:
                n.mem[i] = o
        n.frame = sorted(set(s.frame) | set(s2.frame))
        R = list(r)
        for i, a, b in diff:
            w = a.w if a.__class__ is T else b.w if b.__class__ is T else fn_width(fn, i)
            R[i] = tm.t_ite(c, a, b, w)
        for i, k, ab, sz in md:
            o = n.mem[i]
            if o.tok is not n.tok:
                o = n.mem[i] = Obj(o.size, dict(o.cells), o.kind, n.tok)
            clear(o.cells, k, sz)
            o.cells[k] = (tm.t_ite(c, ab[0], ab[1], sz * 8), sz)
        # path condition: base /\ (c -> e1) /\ (!c -> e2)
        n.pc = base
        nb = 0
        q = base
        while q is not None:
            nb += 1
            q = q[2]
        n.npc = nb
        n.facts = {}
        n.wit = ()
        n.conc = {k: v for k, v in s.conc.items() if s2.conc.get(k) == v}
        fc = lit_poly_fix(c, True)
        for es, neg in ((e1, True), (e2, False)):
            for t, v in es:
                f = lit_poly_fix(t, v)
                if fc and f and f[0] == fc[0]:
                    continue          # the branch literal itself
                if t.p == c.p:
                    continue
                lt = t if v else tm.t_not(t)
                n.add(tm.t_or(tm.t_not(c) if neg else c, lt, 1), True)
        # facts of both sides are implied by what has just been added (and by the base)
        for k, v in s.facts.items():
            if s2.facts.get(k) == v:
                n.facts[k] = v
        n.wit = list({id(e): e for ws in (s.wit, s2.wit) for e in ws}.values())
        return n, R

    def merge_odd(self, s, s2, i, o1, o2, odd, md):
        """cells laid out differently on the two sides: compare whole overlapping ranges.
        A range one side never wrote holds no value there: stack memory takes the other
        side's (reading it would be undefined), heap memory an arbitrary one."""
        c1, c2 = o1.cells, o2.cells
        iv = []
        for k in odd:
            for cs in (c1, c2):
                c = cs.get(k)
                if c is not None:
                    iv.append((k, k + c[1]))
        iv.sort()
        rng = []
        for a, b in iv:
            if rng and a < rng[-1][1]:
                rng[-1][1] = max(b, rng[-1][1])
            else:
                rng.append([a, b])
        for a, b in rng:
            n = b - a
            if n > 16:
                return False
            v1, v2 = covered(c1, a, b), covered(c2, a, b)
            if v1 is None or v2 is None:
                return False
            if v1 and v2:
                x, y = gather(s, o1, a, n), gather(s2, o2, a, n)
            elif o1.kind == 'h':
                self.nundef += 1
                u = tm.var('undef%d' % self.nundef, 8 * n)
                x, y = (gather(s, o1, a, n), u) if v1 else (u, gather(s2, o2, a, n))
            else:
                x = y = gather(s, o1, a, n) if v1 else gather(s2, o2, a, n)
            if x.__class__ is y.__class__ is int and x != y and o1.kind == 's' and n == 8:
                return False
            md.append((i, a, (x, y), n))
        return True

    merge_cost = 60
    merge_lin = False


def covered(cells, a, b):
    """True: [a,b) fully written; False: not at all; None: partly"""
    n = 0
    k = a - 15
    while k < b:
        c = cells.get(k)
        if c is None:
            k += 1
            continue
        if k + c[1] > a:
            if k < a or k + c[1] > b:
                return None
            n += c[1]
        k += c[1]
    return True if n == b - a else False if n == 0 else None


def iter_cost(c, a, b):
    la = len(a.p) if a.__class__ is T else 1
    lb = len(b.p) if b.__class__ is T else 1
    if a.__class__ is T and b.__class__ is T:
        d = len(tm.psub(a.p, b.p))
    else:
        d = la + lb
    return d * len(c.p)


def fn_wide(fn, i):
    return False


def fn_width(fn, i):
    w = getattr(fn, '_widths', None)
    if w is None:
        w = fn._widths = {}
    v = w.get(i)
    if v is None:
        v = w[i] = reg_width(fn, i)
    return v


def reg_width(fn, i):
    for n, k in fn.regs.items():
        if k == i:
            break
    for (r, ty) in fn.params:
        if r == i:
            return llparse.bits(ty)
    nm = n[1:]
    for b in fn.order:
        for s in b.lines:
            if s.startswith(n + ' = ') or s.startswith('%"' + nm + '" = '):
                rhs = s[s.index(' = ') + 3:]
                if rhs.startswith('icmp'):
                    return 1
                m = re.search(r' to (i(\d+)|ptr)$', rhs.split(',')[0].strip())
                if m and rhs.split()[0] in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr'):
                    return int(m.group(2)) if m.group(2) else 64
                if rhs.startswith('select'):
                    m = re.search(r', (i(\d+)|ptr)', rhs)
                    return int(m.group(2)) if m and m.group(2) else 64
                m = re.search(r'\b(i(\d+)|ptr)\b', rhs)
                return int(m.group(2)) if m and m.group(2) else 64
    return 64


def is_live(fn, b):
    """can b reach a ret?"""
    lv = getattr(fn, '_live', None)
    if lv is None:
        lv = set()
        preds = {}
        for x in fn.order:
            for y in x.succs:
                preds.setdefault(y.idx, []).append(x.idx)
        stck = [x.idx for x in fn.order if re.match(r'ret\b', x.lines[-1])]
        while stck:
            x = stck.pop()
            if x not in lv:
                lv.add(x)
                stck.extend(preds.get(x, ()))
        fn._live = lv
    return b.idx in lv


class _Ph:
    __slots__ = ('f',)


def compile_phi(fn, blk, ph):
    # types of the phis
    ty = {}
    for d, rhs in blk.phisrc:
        ts = llparse.TS(llparse.toks(rhs), fn.mod)
        ts.next()
        while ts.peek() in ('fast',):
            ts.next()
        ty[d] = ts.type()
    lhs, vals = [], []
    for d, v in ph:
        if v[0] == '%':
            e = 'R[%d]' % fn.reg(v)
        else:
            ts = llparse.TS(llparse.toks(v), fn.mod)
            e = fn.operand(ts, ty[d])
        lhs.append('R[%d]' % fn.reg(d))
        vals.append(e)
    src = 'def f(R):\n    %s = %s\n' % (', '.join(lhs), ', '.join(vals))
    loc = {}
    exec(src, {}, loc)
    r = _Ph()
    r.f = loc['f']
    return r


# -------------------------------------------------------------- hooks
HOOKS = {}


def h_alloc(x, S, a):
    size = cz(S, a[0])
    if size.__class__ is T:
        raise NeedConcrete('val', size, 64)
    if size > 1 << 30:
        raise MemErr('huge allocation')
    return [(S, S.new(size, 'h'))]


def h_allocz(x, S, a):
    size = cz(S, a[0])
    if size.__class__ is T:
        raise NeedConcrete('val', size, 64)
    p = S.new(size, 'h')
    memset(S, p, 0, size)
    return [(S, p)]


def h_realloc(x, S, a):
    p, old, _, new = [cz(S, v) for v in a[:4]]
    if new.__class__ is T:
        raise NeedConcrete('val', new, 64)
    q = S.new(new, 'h')
    memcpy(S, q, p, min(S.obj(p >> 32).size, new))
    S.mem.pop(p >> 32, None)
    return [(S, q)]


def h_dealloc(x, S, a):
    p = cz(S, a[0])
    if p.__class__ is T:
        raise NeedConcrete('val', p, 64)
    if p >> 32 not in S.mem:
        raise MemErr('double free')
    del S.mem[p >> 32]
    return [(S, None)]


def h_nop(x, S, a):
    return [(S, None)]


def h_bcmp(x, S, a):
    n = cz(S, a[2])
    if n.__class__ is T:
        raise NeedConcrete('val', n, 64)
    if n == 0:
        return [(S, 0)]
    r = 1
    for i in range(n):
        r = tm.t_and(r, tm.t_eq(ld(S, gep(S, a[0], i, 1), 1, 8), ld(S, gep(S, a[1], i, 1), 1, 8), 8), 1)
    v = tm.t_not(r)
    return [(S, tm.t_zext(v, 1, 32))]


def h_memcmp(x, S, a):
    n = cz(S, a[2])
    if n.__class__ is T:
        raise NeedConcrete('val', n, 64)
    if n == 0:
        return [(S, 0)]
    u = tm.t_concat([(ld(S, gep(S, a[0], i, 1), 1, 8), 8) for i in reversed(range(n))])
    v = tm.t_concat([(ld(S, gep(S, a[1], i, 1), 1, 8), 8) for i in reversed(range(n))])
    return [(S, tm.t_ucmp(u, v, 8 * n, 32))]


def h_memcpyf(x, S, a):
    memcpy(S, a[0], a[1], a[2])
    return [(S, a[0])]


def h_memsetf(x, S, a):
    memset(S, a[0], low(a[1], 32, 8) if a[1].__class__ is T else a[1] & 255, a[2])
    return [(S, a[0])]


HOOK_RE = [
    (re.compile(r'___rust_alloc$'), h_alloc),
    (re.compile(r'___rust_alloc_zeroed$'), h_allocz),
    (re.compile(r'___rust_realloc$'), h_realloc),
    (re.compile(r'___rust_dealloc$'), h_dealloc),
    (re.compile(r'no_alloc_shim_is_unstable'), h_nop),
    (re.compile(r'^(bcmp)$'), h_bcmp),
    (re.compile(r'^(memcmp)$'), h_memcmp),
    (re.compile(r'^(memcpy|memmove)$'), h_memcpyf),
    (re.compile(r'^(memset)$'), h_memsetf),
]


def find_hook(name):
    for rx, h in HOOK_RE:
        if rx.search(name):
            return h
    return False


def panic_text(S, name, args):
    """readable reason of a panic call"""
    for i in range(len(args) - 1):
        p, n = args[i], args[i + 1]
        if p.__class__ is int and n.__class__ is int and p >> 32 and 0 < n < 400:
            try:
                o = S.obj(p >> 32)
                off = p & 0xffffffff
                if off + n <= o.size:
                    bs = [o.cells.get(off + k, (0,))[0] for k in range(n)]
                    if all(b.__class__ is int and 9 <= b < 127 for b in bs):
                        return 'panic: ' + bytes(bs).decode()
            except MemErr:
                pass
    m = re.search(r'panicking\d+(panic_const)?\d*(\w+)', name)
    return 'panic: ' + (name if not m else name[-60:])
