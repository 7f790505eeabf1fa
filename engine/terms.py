"""Symbolic machine integers with an exact integer meaning.

A value in the executor is either a Python int (concrete, 0 <= v < 2**w) or a `T`.
A `T` of width w denotes, for every assignment of the input variables, the unsigned
integer held in the register.  `T.p` is a polynomial over *atoms* that equals that
integer exactly; wrap-around, truncation, shifts and divisions introduce floor atoms
q = floor(p/m), comparisons introduce 0/1 atoms [p >= 0] and [p == 0].  Everything is
globally valid (independent of the path on which it was created).

poly = dict {monomial: coeff}, monomial = sorted tuple of atom ids, () = constant.
"""
from math import gcd

MAXDEG_BOOL = 5      # degree limit for products of 0/1 atoms
MAXTERMS = 600       # above this a definitional atom is introduced


class Unsupported(Exception):
    pass


class NeedConcrete(Exception):
    """Raised when the executor has to fork on the value of a term."""
    def __init__(self, kind, t, w):
        self.kind, self.t, self.w = kind, t, w


ATOMS = []           # id -> Atom
_atomkey = {}
LEMMAS = {}          # monomial (degree>=2) -> list of polys known to be >= 0
BOOL = set()         # ids of 0/1 atoms
RADIX = 1 << 8       # radix of the digits under check: the modulus carries are taken with
GRP = {}             # ge atom -> (key of its non-constant part, constant)


class Atom:
    __slots__ = ('id', 'kind', 'p', 'm', 'lo', 'hi', 't', 'name', 'key')
    # floor: floor(p/m);  ge: [p >= 0], t = bounds of p, m = a modulus with -m <= p < m

    def __repr__(self):
        return '%s#%d' % (self.kind, self.id)


def reset():
    global TRUE_ID
    ATOMS.clear(); _atomkey.clear(); LEMMAS.clear(); BOOL.clear(); GRP.clear(); KNOWN.clear()


def _new_atom(kind, p=None, m=None, lo=0, hi=0, t=None, name=None, key=None):
    if key is not None:
        k = (kind,) + key
        a = _atomkey.get(k)
        if a is not None:
            return a
    a = Atom()
    a.id = len(ATOMS); a.kind = kind; a.p = p; a.m = m; a.lo = lo; a.hi = hi
    a.t = t; a.name = name; a.key = key
    ATOMS.append(a)
    if lo == 0 and hi == 1:
        BOOL.add(a.id)
    if key is not None:
        _atomkey[k] = a
    return a


# ---------------------------------------------------------------- polynomials
def pconst(c):
    return {(): c} if c else {}


def patom(i):
    return {(i,): 1}


def padd(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            del r[m]
    return r


def psub(a, b):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) - c
        if v:
            r[m] = v
        else:
            del r[m]
    return r


def pscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def paddc(a, k):
    if not k:
        return a
    r = dict(a)
    v = r.get((), 0) + k
    if v:
        r[()] = v
    else:
        r.pop((), None)
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    m = sorted(m1 + m2)
    # idempotence of 0/1 atoms; [x >= a]*[x >= b] = [x >= max(a, b)]
    out = []
    last = -1
    seen = None
    for x in m:
        if x in BOOL:
            if x == last:
                continue
            g = GRP.get(x)
            if g is not None:
                if seen is None:
                    seen = {g[0]: (g[1], len(out))}
                else:
                    o = seen.get(g[0])
                    if o is None:
                        seen[g[0]] = (g[1], len(out))
                    else:
                        if g[1] < o[0]:
                            out[o[1]] = x
                            out.sort()
                            return mmul(tuple(out), tuple(m[m.index(x) + 1:])) if len(m) > 2 else tuple(out)
                        last = x
                        continue
        out.append(x)
        last = x
    return tuple(out)


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return pscale(b, a[()])
    if len(b) == 1 and () in b:
        return pscale(a, b[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def pdeg(p):
    return max((len(m) for m in p), default=0)


def atoms_of(p):
    s = set()
    for m in p:
        s.update(m)
    return s


def mono_range(m):
    lo = hi = 1
    for i in m:
        a = ATOMS[i]
        al, ah = a.lo, a.hi
        if lo >= 0 and al >= 0:
            lo, hi = lo * al, hi * ah
        else:
            c = (lo * al, lo * ah, hi * al, hi * ah)
            lo, hi = min(c), max(c)
    return lo, hi


def prange0(p):
    lo = hi = 0
    for m, c in p.items():
        if not m:
            lo += c
            hi += c
            continue
        l, h = mono_range(m)
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    return lo, hi


def topmono(p):
    return max((m for m in p if m != ()), default=None)


KNOWN = {}           # non-constant part (primitive, as frozenset) -> interval: what registers can hold


def _prim(p):
    """(primitive non-constant part as a frozenset, factor)"""
    g = 0
    for m, c in p.items():
        if m:
            g = gcd(g, c)
    if not g:
        return None, 0
    if p[max(m for m in p if m)] < 0:
        g = -g
    return frozenset((m, c // g) for m, c in p.items() if m), g


def learn(p, lo, hi):
    """p is known to be within [lo, hi]"""
    k, g = _prim(p)
    if not g:
        return
    c0 = p.get((), 0)
    lo, hi = lo - c0, hi - c0
    if g < 0:
        lo, hi = -hi, -lo
        g = -g
    lo, hi = -(-lo // g), hi // g
    o = KNOWN.get(k)
    if o is not None:
        lo, hi = max(lo, o[0]), min(hi, o[1])
    KNOWN[k] = lo, hi


def prange(p):
    """interval of p; knows that v - m*floor(v/m) is a remainder and that in k*g + c*[g>=0]
    both parts go together"""
    lo, hi = prange0(p)
    if 2 <= len(p) <= 24:
        k = 0
        for m, c in p.items():
            if len(m) != 1:
                continue
            a = ATOMS[m[0]]
            if a.kind == 'floor':
                k += 1
            elif a.kind == 'ge':
                k += 1
                r = _with_ge(p, m, c, a)
                if r is None:
                    continue
                (l0, h0), (l1, h1) = r
                lo, hi = max(lo, min(l0, l1)), min(hi, max(h0, h1))
        if k and lo != hi:
            l, h = _relax(p)
            lo, hi = max(lo, l), min(hi, h)
        if k and lo != hi:
            k, g = _prim(p)
            o = KNOWN.get(k)
            if o is not None:
                c0 = p.get((), 0)
                l, h = o[0] * g + c0, o[1] * g + c0
                if l > h:
                    l, h = h, l
                lo, hi = max(lo, l), min(hi, h)
    return lo, hi


def _relax(p):
    """interval of p with every floor f = floor(y/m) replaced by (y - r)/m, 0 <= r < m"""
    fl = []
    M = 1
    for m, c in p.items():
        if len(m) == 1:
            a = ATOMS[m[0]]
            if a.kind == 'floor' or a.kind == 'ge':
                fl.append((m, c, a))
                M = M * a.m // gcd(M, a.m)
    g = 0
    for m, c in p.items():
        if m:
            g = gcd(g, c)
    c0 = p.get((), 0)
    q = {m: c // g for m, c in p.items() if m}
    for m, c, a in fl:
        del q[m]
    q = pscale(q, M)
    rl = rh = 0
    n = len(p)
    for m, c, a in fl:
        k = c // g * (M // a.m)
        y = a.p if a.kind == 'floor' else paddc(a.p, a.m)
        q = padd(q, pscale(y, k))
        # minus k*r, r in [0, m-1]
        if k > 0:
            rl -= k * (a.m - 1)
        else:
            rh -= k * (a.m - 1)
    l, h = prange0(q)
    return c0 - g * ((-l - rl) // M), c0 + g * ((h + rh) // M)


def _with_ge(p, m, c, a):
    """intervals of p when the ge atom a (monomial m, coefficient c in p) is 0 and when it is 1"""
    t = topmono(a.p)
    v = p.get(t, 0)
    if not v or v % a.p[t] or a.t is None:
        return None
    k = v // a.p[t]
    rest = dict(p)
    del rest[m]
    rest = psub(rest, pscale(a.p, k))
    if len(rest) >= len(p):
        return None
    rl, rh = prange(rest) if rest else (0, 0)
    gl, gh = a.t
    x = sorted((k * gl, -k))
    y = sorted((0, k * gh))
    return (rl + x[0], rh + x[1]), (rl + y[0] + c, rh + y[1] + c)


# ---------------------------------------------------------------- terms
class T:
    __slots__ = ('w', 'p', 'lo', 'hi', 'op', 'a', '_k')

    def __init__(self, w, p, lo, hi, op, a):
        self.w, self.p, self.lo, self.hi, self.op, self.a = w, p, lo, hi, op, a
        self._k = None

    def key(self):
        k = self._k
        if k is None:
            k = self._k = pkey(self.p)
        return k

    def __repr__(self):
        return 'T%d(%s,[%d,%d],%s)' % (self.w, pstr(self.p), self.lo, self.hi, self.op)

    # guards against silent misuse
    def __bool__(self):
        raise Unsupported('truth value of a symbolic term')

    def __index__(self):
        raise Unsupported('symbolic term used as an index')


def astr(i):
    a = ATOMS[i]
    return a.name or '%s%d' % (a.kind, i)


def pstr(p):
    return ' + '.join(('%d' % c if not m else ('' if c == 1 else '%d*' % c) + '*'.join(astr(i) for i in m))
                      for m, c in list(p.items())[:12]) + (' ...' if len(p) > 12 else '') or '0'


def var(name, w, lo=0, hi=None):
    if hi is None:
        hi = (1 << w) - 1
    if lo == hi:
        return lo
    a = _new_atom('var', lo=lo, hi=hi, name=name, key=(name, lo, hi))
    return T(w, patom(a.id), lo, hi, 'var', (a.id,))


def P(x):
    return x.p if x.__class__ is T else pconst(x)


def LO(x):
    return x.lo if x.__class__ is T else x


def HI(x):
    return x.hi if x.__class__ is T else x


def mkT(w, p, lo, hi, op, args):
    """p is the exact value, within [lo,hi] subset of [0,2^w)."""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    if lo == hi:
        return lo
    n = len(p)
    if n <= 8:
        l, h = prange(p)
        if l > lo:
            lo = l
        if h < hi:
            hi = h
        if lo == hi:
            return lo
    elif n > MAXTERMS:
        t = T(w, p, lo, hi, op, args)
        a = _new_atom('def', p=p, lo=lo, hi=hi, t=t)
        p = patom(a.id)
    return T(w, p, lo, hi, op, args)


def _clip(p, lo, hi):
    if len(p) <= 40:
        l, h = prange(p)
        if l > lo:
            lo = l
        if h < hi:
            hi = h
    return lo, hi


def floor_div(p, m, lo, hi):
    """floor(p/m) for a positive int m, lo <= p <= hi known: (poly, lo, hi)."""
    if m == 1:
        return p, lo, hi
    lo, hi = _clip(p, lo, hi)
    ql, qh = lo // m, hi // m
    if ql == qh:
        return pconst(ql), ql, qh
    u = {}
    v = {}
    for mono, c in p.items():
        if mono == ():
            d, r = divmod(c, m)
            if d:
                u[mono] = d
            if r:
                v[mono] = r
        elif c % m == 0:
            u[mono] = c // m
        else:
            v[mono] = c
    if u:
        if len(u) == 1 and () in u:
            vlo, vhi = lo - m * u[()], hi - m * u[()]
            l2, h2 = _clip(v, vlo, vhi)
        else:
            l2, h2 = prange(v)
        q = _floor0(v, m, l2, h2)
        r = padd(u, q)
        return r, ql, qh
    return _floor0(p, m, lo, hi), ql, qh


def _floor0(v, m, lo, hi):
    ql, qh = lo // m, hi // m
    if ql == qh:
        return pconst(ql)
    if m > 1 << 16:
        r = _recip_floor(v, m, lo, hi)
        if r is not None:
            return r
    g = m
    for mono, c in v.items():
        if mono != ():
            g = gcd(g, c)
            if g == 1:
                break
    if g > 1:
        v2 = {}
        for mono, c in v.items():
            d = c // g            # exact for non-constants, floor for the constant
            if d:
                v2[mono] = d
        if m == g:
            return v2
        return floor_div(v2, m // g, lo // g, hi // g)[0]
    if qh == ql + 1:
        # q = ql + [v - qh*m >= 0]
        g = ge_poly(paddc(v, -qh * m), lo - qh * m, hi - qh * m, m)
        return paddc(g, ql)
    n = flatten(v)
    if n is not None:
        n, a = n
        return floor_div(n, m * a, a * lo, a * hi + a - 1)[0]
    if v[max(mono for mono in v if mono != ())] < 0:
        # canonical sign: floor(p/m) = -1 - floor((-p-1)/m)
        return psub(pconst(-1), floor_div(paddc(pscale(v, -1), -1), m, -hi - 1, -lo - 1)[0])
    kv = pkey(v)
    a = _new_atom('floor', p=v, m=m, lo=ql, hi=qh, key=(m, kv))
    if ql > a.lo or qh < a.hi:
        a.lo, a.hi = max(a.lo, ql), min(a.hi, qh)
    return patom(a.id)


def flatten(v):
    """v = u + s*f with s = +-1 and f = floor(y/a): (a*u + s*y', a) with floor(that/a) == v,
    by floor(u + y/a) = u + floor(y/a); None when v has no such part"""
    best = None
    nge = 0
    for mono, c in v.items():
        if (c == 1 or c == -1) and len(mono) == 1:
            at = ATOMS[mono[0]]
            k = at.kind
            nge += k == 'ge'
            if (k == 'floor' or k == 'ge') and (best is None or (at.m, at.id) > (best[1].m, best[1].id)):
                best = mono, at, c
    if best is None or len(v) + len(best[1].p) > MAXTERMS:
        return None
    mono, at, c = best
    if nge > 2 and at.kind == 'ge':
        return None               # a count of conditions
    a = at.m
    y = at.p if at.kind == 'floor' else paddc(at.p, a)
    if c < 0:
        y = paddc(pscale(y, -1), a - 1)
    u = dict(v)
    del u[mono]
    return padd(pscale(u, a), y), a


def radix_power(n):
    """a plausible modulus for a carry test of a quantity in [-n, n)"""
    m = RADIX
    while m < n:
        m *= RADIX
    if not m & (m - 1):
        return 1 << (n - 1).bit_length()
    for j in (2, 3, 4, 5, 10):
        if m % j == 0 and m // j - 2 <= n <= m // j:
            return m // j
    return m


RECIP = {}
RECIP_PROVE = None      # set by solver.py


def _recip_floor(v, m, lo, hi):
    """floor(k*y/m) for a k dividing every coefficient up to a multiple of m: division by
    multiplication with a reciprocal"""
    G = 0
    for mono, c in v.items():
        if mono != ():
            G = gcd(G, c)
    ks = [m // (RADIX >> i) + 1 for i in range(20) if RADIX >> i > 1 and RADIX >> i << i == RADIX and m % (RADIX >> i)]
    ks = [k for k in ks if k > 2]
    if G > 1 << 8 and G not in ks:
        ks.append(G)
    for k in ks:
        J = {}
        inv = None
        y = {}
        for mono, c in v.items():
            if c % k:
                if inv is None:
                    if gcd(k, m) != 1:
                        break
                    inv = pow(m, -1, k)
                j = -c * inv % k
                if j > k // 2:
                    j -= k
                if abs(j) >> 20 and k >> 24 and abs(j) > k >> 16:
                    break
                J[mono] = j
                c += m * j
            if c:
                y[mono] = c // k
        else:
            if J and not (len(J) == 1 and () in J):
                l, h = prange(y)
            else:
                j = J.get((), 0)
                l, h = (lo + m * j) // k, (hi + m * j) // k
            if l < 0:
                continue
            d = reciprocal(k, m, h)
            if d:
                return psub(floor_div(y, d, l, h)[0], J)
    return None


def reciprocal(k, m, hi):
    """d with floor(k*n/m) == floor(n/d) for all 0 <= n <= hi, proved by the solver; or None"""
    d = m // k + 1
    key = (k, m)
    c = RECIP.get(key)
    if c is not None and hi <= c[1]:
        return c[0]
    e = k * d - m
    if d < 2 or e < 0 or hi * e >= m or k < 3:
        return None
    if not RECIP_PROVE(k, m, d, hi):
        return None
    RECIP[key] = (d, hi)
    return d


def ge_poly(p, lo=None, hi=None, nat=None):
    """0/1 polynomial [p >= 0]; nat: a known modulus with -nat <= p < nat"""
    l, h = prange(p)
    if lo is not None:
        l = max(l, lo)
        h = min(h, hi)
    if l >= 0:
        return pconst(1)
    if h < 0:
        return {}
    g = 0
    for mono, c in p.items():
        if mono != ():
            g = gcd(g, c)
    if g > 1:
        p = {mono: c // g for mono, c in p.items()}
        if p.get(()) == 0:
            del p[()]
        l, h = l // g, h // g
    c0 = p.get((), 0)
    nn = len(p) - (1 if c0 else 0)
    if nn == 1:
        for mono, c in p.items():
            if mono != ():
                break
        if len(mono) >= 1 and all(i in BOOL for i in mono):
            at0, at1 = c0 >= 0, c0 + c >= 0
            if at0 and at1:
                return pconst(1)
            if not at0 and not at1:
                return {}
            b = {mono: 1}
            return b if at1 else psub(pconst(1), b)
    if 2 <= nn <= 24:
        for m, c in p.items():
            if len(m) == 1 and ATOMS[m[0]].kind == 'ge':
                r = _with_ge(p, m, c, ATOMS[m[0]])
                if r is None:
                    continue
                f = []
                for a, b in r:
                    f.append(True if a >= 0 else False if b < 0 else None)
                if f[0] is None and f[1] is None:
                    continue
                if f[0] is not None and f[1] is not None:
                    if f[0] == f[1]:
                        return pconst(1) if f[0] else {}
                    return {m: 1} if f[1] else {(): 1, m: -1}
                if abs(c) == 1:
                    continue        # flattened below
                p0 = dict(p)
                del p0[m]
                nb = {(): 1, m: -1}
                if f[1] is not None:
                    x = pmul(nb, ge_poly(p0))
                    if f[1]:
                        x = padd(x, {m: 1})
                else:
                    x = pmul({m: 1}, ge_poly(paddc(p0, c)))
                    if f[0]:
                        x = padd(x, nb)
                if pdeg(x) <= 1:
                    return x
        # [g*q + s >= 0] with s in a range that g cannot resolve
        for g in sorted({abs(c) for m, c in p.items() if m != () and abs(c) > 1}, reverse=True)[:3]:
            sm = {m: c for m, c in p.items() if m == () or c % g}
            if len(sm) - (() in sm) in (0, nn):
                continue
            sl, sh = prange(sm)
            if sl // g == sh // g:
                q = {m: c // g for m, c in p.items() if m not in sm}
                return ge_poly(paddc(q, sl // g))
    given = nat is not None
    if nat is not None and g > 1:
        nat = None if nat % g else nat // g
    need = max(-l, h + 1)
    if nat is None or nat < need:
        nat = radix_power(need)
    if given or l < -1 and h > 0:
        # a carry or borrow: [p >= 0] = 1 + floor(p/nat), what is divisible by nat comes out
        k = sum(1 for m, c in p.items() if m != () and c % nat == 0)
        if k and k < nn:
            return paddc(floor_div(p, nat, l, h)[0], 1)
    n = flatten(p)
    if n is not None:
        n, a = n
        return ge_poly(n, a * l, a * h + a - 1, a * nat)
    # canonical sign: the largest monomial has a positive coefficient
    top = max(m for m in p if m != ())
    neg = p[top] < 0
    if neg:
        p = paddc(pscale(p, -1), -1)
        l, h = -h - 1, -l - 1
    a = _new_atom('ge', p=p, m=nat, lo=0, hi=1, key=(pkey(p),))
    if a.t is None:
        a.t = (l, h)      # valid interval of p
        GRP[a.id] = (pkey({m: c for m, c in p.items() if m != ()}), p.get((), 0))
    return {(): 1, (a.id,): -1} if neg else patom(a.id)


def eq_poly(p, lo=None, hi=None):
    """0/1 polynomial [p == 0]."""
    l, h = prange(p)
    if lo is not None:
        l = max(l, lo)
        h = min(h, hi)
    if l > 0 or h < 0:
        return {}
    if l == 0 and h == 0:
        return pconst(1)
    c0 = p.get((), 0)
    g = 0
    for mono, c in p.items():
        if mono != ():
            g = gcd(g, c)
    if g == 0:
        return pconst(1) if c0 == 0 else {}
    if c0 % g:
        return {}
    if g > 1:
        p = {mono: c // g for mono, c in p.items()}
        l, h = -((-l) // g), h // g
    if l == 0:
        return psub(pconst(1), ge_poly(paddc(p, -1), l - 1, h - 1))
    if h == 0:
        return psub(pconst(1), ge_poly(paddc(pscale(p, -1), -1), -h - 1, -l - 1))
    nn = [m for m in p if m != ()]
    if len(nn) == 1 and all(i in BOOL for i in nn[0]):
        c = p[nn[0]]
        at0, at1 = c0 == 0, c0 + c == 0
        if not at0 and not at1:
            return {}
        b = {nn[0]: 1}
        return b if at1 else psub(pconst(1), b)
    top = max(nn)
    if p[top] < 0:
        p = {mono: -c for mono, c in p.items()}
        l, h = -h, -l
    a = _new_atom('eq', p=p, lo=0, hi=1, key=(pkey(p),))
    if a.t is None:
        a.t = (l, h)
    return patom(a.id)


def wrap(p, lo, hi, w, op, args):
    m = 1 << w
    lo, hi = _clip(p, lo, hi)
    if lo >= 0 and hi < m:
        return mkT(w, p, lo, hi, op, args)
    q, ql, qh = floor_div(p, m, lo, hi)
    if ql == qh:
        return mkT(w, paddc(p, -m * ql), lo - m * ql, hi - m * ql, op, args)
    r = psub(p, pscale(q, m))
    if len(r) <= 24:
        learn(r, 0, m - 1)
    return mkT(w, r, 0, m - 1, op, args)


# ---------------------------------------------------------------- arithmetic
def t_add(a, b, w):
    return wrap(padd(P(a), P(b)), LO(a) + LO(b), HI(a) + HI(b), w, 'add', (a, b))


def t_sub(a, b, w):
    return wrap(psub(P(a), P(b)), LO(a) - HI(b), HI(a) - LO(b), w, 'sub', (a, b))


def reg_product(a, b):
    """bounds of the product of two terms whose polynomials are not plain atoms"""
    if a.__class__ is not T or b.__class__ is not T:
        return
    la, lb = len(a.p), len(b.p)
    if la == 1 and lb == 1 or la * lb > 64:
        return
    pr = pmul(a.p, b.p)
    al, ah, bl, bh = a.lo, a.hi, b.lo, b.hi
    out = []
    # (a-al)(b-bl), (ah-a)(bh-b), (a-al)(bh-b), (ah-a)(b-bl)  >= 0
    out.append(paddc(psub(psub(pr, pscale(a.p, bl)), pscale(b.p, al)), al * bl))
    out.append(paddc(psub(psub(pr, pscale(a.p, bh)), pscale(b.p, ah)), ah * bh))
    out.append(paddc(psub(padd(pscale(a.p, bh), pscale(b.p, al)), pr), -al * bh))
    out.append(paddc(psub(padd(pscale(a.p, bl), pscale(b.p, ah)), pr), -ah * bl))
    # attach to the leading monomial only
    best = None
    for m in pr:
        if len(m) >= 2 and (best is None or m > best):
            best = m
    if best is not None:
        lst = LEMMAS.setdefault(best, [])
        if len(lst) < 12:
            lst.extend(out)


def t_mul(a, b, w):
    if a.__class__ is int and b.__class__ is T:
        a, b = b, a
    if a.__class__ is T and b.__class__ is T:
        if len(a.p) * len(b.p) > MAXTERMS:
            if len(a.p) > 24:
                a = define(a)
            if len(b.p) > 24:
                b = define(b)
        reg_product(a, b)
    return wrap(pmul(P(a), P(b)), LO(a) * LO(b), HI(a) * HI(b), w, 'mul', (a, b))


def define(t):
    """the same value, as one fresh atom"""
    if t.__class__ is not T:
        return t
    if len(t.p) == 1:
        for m, k in t.p.items():
            if k == 1 and len(m) == 1 and ATOMS[m[0]].lo >= t.lo and ATOMS[m[0]].hi <= t.hi:
                return t
    a = _new_atom('def', p=t.p, lo=t.lo, hi=t.hi, t=t, key=(t.key(),))
    return T(t.w, patom(a.id), t.lo, t.hi, 'id', (t,))


def b1(t):
    """a 0/1 term, over 0/1 atoms only"""
    for m in t.p:
        for i in m:
            if i not in BOOL:
                return define(t)
    return t


def t_shl(a, b, w):
    if b.__class__ is T:
        if b.hi - b.lo > 256:
            raise Unsupported('shift by unbounded symbolic amount')
        raise NeedConcrete('val', b, w)
    if b >= w:
        return 0
    return wrap(pscale(P(a), 1 << b), LO(a) << b, HI(a) << b, w, 'shl', (a, b))


def t_lshr(a, b, w):
    if b.__class__ is T:
        raise NeedConcrete('val', b, w)
    if b >= w:
        return 0
    if a.__class__ is not T:
        return a >> b
    q, l, h = floor_div(a.p, 1 << b, a.lo, a.hi)
    return mkT(w, q, l, h, 'lshr', (a, b))


def sval(a, w):
    """signed value: (poly, lo, hi)"""
    if a.__class__ is int:
        v = a - (1 << w) if a >> (w - 1) else a
        return pconst(v), v, v
    half = 1 << (w - 1)
    if a.hi < half:
        return a.p, a.lo, a.hi
    if a.lo >= half:
        return paddc(a.p, -2 * half), a.lo - 2 * half, a.hi - 2 * half
    if w == 1:
        return pscale(a.p, -1), -1, 0
    g = ge_poly(paddc(a.p, -half), a.lo - half, a.hi - half)
    return psub(a.p, pscale(g, 2 * half)), -half, half - 1


def t_ashr(a, b, w):
    if b.__class__ is T:
        raise NeedConcrete('val', b, w)
    p, l, h = sval(a, w)
    if b >= w:
        b = w - 1
    q, ql, qh = floor_div(p, 1 << b, l, h)
    return wrap(q, ql, qh, w, 'ashr', (a, b))


def t_udiv(a, b, w):
    if b.__class__ is int:
        q, l, h = floor_div(P(a), b, LO(a), HI(a))
        return mkT(w, q, l, h, 'udiv', (a, b))
    q, l, h = _divsym(a, b)
    return mkT(w, q, l, h, 'udiv', (a, b))


def _divsym(a, b):
    lo = LO(a) // b.hi
    hi = HI(a) // max(1, b.lo)
    if lo == hi:
        return pconst(lo), lo, hi
    pa = P(a)
    kb = b.key()
    at = _new_atom('div', p=pa, m=b, lo=lo, hi=hi, key=(pkey(pa), kb))
    if lo > at.lo or hi < at.hi:
        at.lo, at.hi = max(at.lo, lo), min(at.hi, hi)
    return patom(at.id), lo, hi


def t_urem(a, b, w):
    if b.__class__ is int:
        q, l, h = floor_div(P(a), b, LO(a), HI(a))
        lo, hi = 0, min(b - 1, HI(a))
        if l == h:
            lo, hi = max(lo, LO(a) - b * l), min(hi, HI(a) - b * l)
        r = psub(P(a), pscale(q, b))
        if 2 <= len(r) <= 24:
            learn(r, lo, hi)
        return mkT(w, r, lo, hi, 'urem', (a, b))
    q, l, h = _divsym(a, b)
    if l == h == 0:
        return a
    qt = T(w, q, l, h, 'x', ()) if not (len(q) == 1 and () in q) else l
    reg_product(qt, b)
    return mkT(w, psub(P(a), pmul(q, b.p)), 0, min(b.hi - 1, HI(a)), 'urem', (a, b))


def t_sdiv(a, b, w):
    half = 1 << (w - 1)
    if HI(a) < half and HI(b) < half:
        return t_udiv(a, b, w)
    raise Unsupported('sdiv')


def t_srem(a, b, w):
    half = 1 << (w - 1)
    if HI(a) < half and HI(b) < half:
        return t_urem(a, b, w)
    raise Unsupported('srem')


def tz(p):
    """largest k with 2^k dividing the value for every assignment"""
    g = 0
    for c in p.values():
        g = gcd(g, c)
    return (g & -g).bit_length() - 1 if g else 1 << 30


def opaque(op, a, b, w, lo, hi):
    t = T(w, None, lo, hi, op, (a, b))
    ka = a.key() if a.__class__ is T else a
    kb = b.key() if b.__class__ is T else b
    at = _new_atom('opq', lo=lo, hi=hi, t=t, key=(op, w, ka, kb))
    t.p = patom(at.id)
    return T(w, t.p, lo, hi, op, (a, b))


def inccarry(c, e):
    """c and [v + 1 wraps to 0] is the carry of v + c; c and [v == 0] the borrow of v - c"""
    if e.op != 'eq' or e.a[1].__class__ is T or e.a[0].__class__ is not T or e.a[1] != 0:
        return None
    x = e.a[0]
    if x.op == 'add' and x.a[1].__class__ is int and x.a[1] == 1 and x.a[0].__class__ is T:
        v = x.a[0]
        return floor_div(padd(v.p, c.p), 1 << x.w, v.lo, v.hi + 1)[0]
    return None


def t_and(a, b, w):
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        if a.__class__ is int:
            return a & b
        if b == 0:
            return 0
        if b == (1 << w) - 1:
            return a
        if w == 1:
            return a
        r = {}
        i = 0
        bb = b
        hb = HI(a).bit_length()
        while bb:
            s = (bb & -bb).bit_length() - 1
            bb >>= s
            i += s
            n = (~bb & (bb + 1)).bit_length() - 1
            j = i + n
            if i >= hb:
                break
            q1, l1, h1 = floor_div(a.p, 1 << i, a.lo, a.hi)
            f = q1
            if j < hb:
                q2, l2, h2 = floor_div(a.p, 1 << j, a.lo, a.hi)
                f = psub(q1, pscale(q2, 1 << n))
            r = padd(r, pscale(f, 1 << i))
            bb >>= n
            i = j
        return mkT(w, r, 0, min(b, a.hi), 'and', (a, b))
    if a is b:
        return a
    if a.hi <= 1 and b.hi <= 1:
        for x, y in ((a, b), (b, a)):
            p = inccarry(x, y)
            if p is not None:
                return mkT(w, p, 0, 1, 'inc', (a, b))
        r = boolrel(a, b)
        if r is not None:
            return 0 if r == 'excl' else 0 if r == 'part' else a if r == 'imp' else b if r == 'pmi' else \
                mkT(w, paddc(padd(a.p, b.p), -1), 0, 1, 'and', (a, b))
        a, b = b1(a), b1(b)
        p = pmul(a.p, b.p)
        if p == a.p:
            return a
        if p == b.p:
            return b
        if pdeg(p) > MAXDEG_BOOL or len(p) > 24:
            p = booldef('and', a, b)
        return mkT(w, p, 0, 1, 'and', (a, b))
    if a.key() == b.key():
        return a
    # x & (2^k-1) style masks hidden behind symbolic 0/-1 masks: sext(bool) & y
    for x, y in ((a, b), (b, a)):
        if x.op == 'sext1' and x.hi == (1 << w) - 1:
            return t_ite(x.a[0], y, 0, w)
    return opaque('and', a, b, w, 0, min(a.hi, b.hi))


def booldef(op, *args):
    t = T(1, None, 0, 1, op, args)
    key = (op,) + tuple(x.key() if x.__class__ is T else x for x in args)
    at = _new_atom('bdef', lo=0, hi=1, t=t, key=key)
    t.p = patom(at.id)
    return t.p


def boolrel(a, b):
    """relation of two 0/1 terms that interval arithmetic shows: never both, always one, implication"""
    s = padd(a.p, b.p)
    if len(s) > 12:
        return None
    l, h = prange(s)
    if h <= 1:
        return 'part' if l >= 1 else 'excl'
    if l >= 1:
        return 'cov'
    l, h = prange(psub(b.p, a.p))
    if l >= 0:
        return 'imp'
    if h <= 0:
        return 'pmi'
    return None


EXCL = None   # hook: (a, b) -> bool, decides that two 0/1 terms are never both 1


def t_or(a, b, w, disjoint=False):
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return a
        if a.__class__ is int:
            return a | b
        if b == (1 << w) - 1:
            return b
        x = t_and(a, b, w)
        return mkT(w, psub(padd(a.p, pconst(b)), P(x)), max(a.lo, b), min((1 << max(a.hi.bit_length(), b.bit_length())) - 1, a.hi + b), 'or', (a, b))
    if a is b:
        return a
    if w == 1 or (a.hi <= 1 and b.hi <= 1):
        if disjoint:
            return mkT(w, padd(a.p, b.p), 0, 1, 'or', (a, b))
        r = boolrel(a, b)
        if r is not None:
            return 1 if r == 'part' or r == 'cov' else b if r == 'imp' else a if r == 'pmi' else \
                mkT(w, padd(a.p, b.p), 0, 1, 'or', (a, b))
        a, b = b1(a), b1(b)
        pr = pmul(a.p, b.p)
        if not pr or disjoint:
            return mkT(w, padd(a.p, b.p), 0, 1, 'or', (a, b))
        if pr == a.p:
            return b
        if pr == b.p:
            return a
        if EXCL is not None and EXCL(a, b):
            return mkT(w, padd(a.p, b.p), 0, 1, 'or', (a, b))
        p = psub(padd(a.p, b.p), pr)
        if len(p) == 1 and p.get(()) == 1:
            return 1
        if pdeg(p) > MAXDEG_BOOL or len(p) > 24:
            p = booldef('or', a, b)
        return mkT(w, p, 0, 1, 'or', (a, b))
    for x, y in ((a, b), (b, a)):
        k = tz(x.p)
        if y.hi < (1 << k):
            return mkT(w, padd(a.p, b.p), a.lo + b.lo, min(a.hi + b.hi, (1 << w) - 1), 'or', (a, b))
    if disjoint:
        return mkT(w, padd(a.p, b.p), a.lo + b.lo, min(a.hi + b.hi, (1 << w) - 1), 'or', (a, b))
    if a.key() == b.key():
        return a
    return opaque('or', a, b, w, max(a.lo, b.lo), (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1)


def t_xor(a, b, w):
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return a
        if a.__class__ is int:
            return a ^ b
        if w == 1:
            return t_not(a)
        full = (1 << w) - 1
        if b == full:
            return mkT(w, psub(pconst(full), a.p), full - a.hi, full - a.lo, 'xor', (a, b))
        x = t_and(a, b, w)
        return mkT(w, psub(padd(a.p, pconst(b)), pscale(P(x), 2)), 0, full, 'xor', (a, b))
    if a is b:
        return 0
    if a.hi <= 1 and b.hi <= 1:
        a, b = b1(a), b1(b)
        pr = pmul(a.p, b.p)
        p = psub(padd(a.p, b.p), pscale(pr, 2))
        if pdeg(p) > MAXDEG_BOOL or len(p) > 24:
            p = booldef('xor', a, b)
        return mkT(w, p, 0, 1, 'xor', (a, b))
    if a.key() == b.key():
        return 0
    for x, y in ((a, b), (b, a)):
        k = tz(x.p)
        if y.hi < (1 << k):
            return mkT(w, padd(a.p, b.p), a.lo + b.lo, min(a.hi + b.hi, (1 << w) - 1), 'or', (a, b))
    return opaque('xor', a, b, w, 0, (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1)


def t_not(a):
    if a.__class__ is int:
        return 1 - a
    if a.op == 'not':
        return a.a[0]
    return mkT(1, psub(pconst(1), a.p), 0, 1, 'not', (a,))


def t_zext(a, w0, w):
    return a if a.__class__ is int else T(w, a.p, a.lo, a.hi, 'id', (a,))


def t_sext(a, w0, w):
    if a.__class__ is int:
        return a + ((1 << w) - (1 << w0)) if a >> (w0 - 1) else a
    if w0 == 1:
        return mkT(w, pscale(a.p, (1 << w) - 1), 0, (1 << w) - 1, 'sext1', (a,))
    p, l, h = sval(a, w0)
    return wrap(p, l, h, w, 'sext', (a,))


def t_trunc(a, w0, w):
    if a.__class__ is int:
        return a & ((1 << w) - 1)
    return wrap(a.p, a.lo, a.hi, w, 'trunc', (a,))


def _dist(a, b, f):
    """distribute a comparison over an ite with constant arms"""
    if a.__class__ is T and a.op == 'ite' and b.__class__ is int:
        c, x, y = a.a
        cx, cy = x.__class__ is int, y.__class__ is int
        if cx or cy:
            return t_ite(c, f(x, b), f(y, b), 1)
    return None


def t_eq(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return int(a == b)
    if a is b:
        return 1
    if a.__class__ is int:
        a, b = b, a
    if w == 1 and b.__class__ is int:
        return a if b else t_not(a)
    if a.op == 'ord' and b.__class__ is int:
        return ordcmp(a, b, w, lambda x, y: x == y)
    r = _dist(a, b, lambda x, y: t_eq(x, y, w))
    if r is not None:
        return r
    d = psub(P(a), P(b))
    return mkT(1, eq_poly(d, LO(a) - HI(b), HI(a) - LO(b)), 0, 1, 'eq', (a, b))


def t_ne(a, b, w):
    return t_not(t_eq(a, b, w))


def t_ult(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return int(a < b)
    if a.__class__ is T and a.op == 'ord' and b.__class__ is int:
        return ordcmp(a, b, w, lambda x, y: x < y)
    if b.__class__ is T and b.op == 'ord' and a.__class__ is int:
        return ordcmp(b, a, w, lambda x, y: y < x)
    if b.__class__ is int:
        r = _dist(a, b, lambda x, y: t_ult(x, y, w))
        if r is not None:
            return r
    if a.__class__ is int:
        r = _dist(b, a, lambda x, y: t_ult(y, x, w))
        if r is not None:
            return r
    if a.__class__ is T and a.op == 'add' and a.w == w:
        # x + y < x (mod 2^w): the carry of the addition
        pb = P(b)
        for x, y in (a.a, a.a[::-1]):
            if x is b or P(x) == pb:
                q = psub(padd(pb, P(y)), a.p)
                return mkT(1, {m: c >> w for m, c in q.items()}, 0, 1, 'addo', (x, y, w))
    d = paddc(psub(P(b), P(a)), -1)
    return mkT(1, ge_poly(d, LO(b) - HI(a) - 1, HI(b) - LO(a) - 1), 0, 1, 'ult', (a, b))


def t_ule(a, b, w):
    return t_not(t_ult(b, a, w))


def t_slt(a, b, w):
    if a.__class__ is T and a.op == 'ord' and b.__class__ is int:
        return ordcmp(a, b, w, lambda x, y: sval(x, w)[1] < sval(y, w)[1])
    if b.__class__ is T and b.op == 'ord' and a.__class__ is int:
        return ordcmp(b, a, w, lambda x, y: sval(y, w)[1] < sval(x, w)[1])
    if a.__class__ is T and b.__class__ is int:
        r = _dist(a, b, lambda x, y: t_slt(x, y, w))
        if r is not None:
            return r
    if a.__class__ is int and b.__class__ is T:
        r = _dist(b, a, lambda x, y: t_slt(y, x, w))
        if r is not None:
            return r
    pa, la, ha = sval(a, w)
    pb, lb, hb = sval(b, w)
    d = paddc(psub(pb, pa), -1)
    return mkT(1, ge_poly(d, lb - ha - 1, hb - la - 1), 0, 1, 'slt', (a, b))


def t_sle(a, b, w):
    return t_not(t_slt(b, a, w))


def _refine(p, lo, hi, c, val):
    """interval of p knowing that the 0/1 term c equals val"""
    cp = c.p
    if len(cp) > 2:
        return lo, hi
    for m in cp:
        if m != ():
            break
    if len(m) != 1:
        return lo, hi
    at = ATOMS[m[0]]
    # truth of the atom
    k = cp[m]
    c0 = cp.get((), 0)
    if k == 1 and c0 == 0:
        truth = val
    elif k == -1 and c0 == 1:
        truth = not val
    else:
        return lo, hi
    if at.kind == 'ge':
        g = at.p
        gl, gh = at.t
        if truth:
            gl = max(gl, 0)
        else:
            gh = min(gh, -1)
    elif at.kind == 'eq' and truth:
        g = at.p
        gl = gh = 0
    else:
        return lo, hi
    # p = k*g + rest, rest constant?
    top = max(m for m in g if m != ())
    cpv = p.get(top, 0)
    if cpv == 0 or cpv % g[top]:
        return lo, hi
    kk = cpv // g[top]
    if len(p) > len(g) + 1:
        return lo, hi
    rest = psub(p, pscale(g, kk))
    if not rest:
        r0 = 0
    elif len(rest) == 1 and () in rest:
        r0 = rest[()]
    else:
        return lo, hi
    a, b = kk * gl + r0, kk * gh + r0
    if a > b:
        a, b = b, a
    return max(lo, a), min(hi, b)


def lexico(c, px, py):
    """lexicographic comparison: (if d == 0 then px else [d > 0]) = [d + px - 1 >= 0]"""
    if c.op == 'not' and c.a[0].__class__ is T:
        c = c.a[0]
        px, py = py, px
    if c.op == 'id':
        c = c.a[0]
    if c.op != 'eq':
        return None
    x, y = c.a
    d = psub(P(x), P(y))
    lo, hi = LO(x) - HI(y), HI(x) - LO(y)
    for k in (1, -1):
        dk = pscale(d, k)
        l, h = (lo, hi) if k == 1 else (-hi, -lo)
        if py == ge_poly(dk, l, h) or py == ge_poly(paddc(dk, -1), l - 1, h - 1):
            return ge_poly(paddc(padd(dk, px), -1), l - 1, h, radix_power(max(-l, h + 1)))
    return None


def t_ite(c, x, y, w):
    if c.__class__ is int:
        return x if c else y
    if y.__class__ is T and y.op == 'ite' and y.a[0].p == c.p:
        y = y.a[2]
    if x.__class__ is T and x.op == 'ite' and x.a[0].p == c.p:
        x = x.a[1]
    if x is y:
        return x
    for u, v, cc in ((x, y, c), (y, x, None)):
        if u.__class__ is T and (u.op == 'add' or u.op == 'sub') and u.w == w and w > 1:
            # if c then v + k else v
            for e, k in (u.a, u.a[::-1]) if u.op == 'add' else (u.a,):
                if (e is v or P(e) == P(v)) and HI(k) <= 1:
                    if cc is None:
                        cc = t_not(c)
                    k = t_and(cc, k, 1) if k.__class__ is T else cc
                    return t_add(e, k, w) if u.op == 'add' else t_sub(e, k, w)
    if (x.__class__ is T and x.op == 'ord') or (y.__class__ is T and y.op == 'ord'):
        r = ordite(c, x, y, w)
        if r is not None:
            return r
    if x.__class__ is int and y.__class__ is int:
        if x == y:
            return x
        if w == 1:
            return c if x else t_not(c)
    elif x.__class__ is T and y.__class__ is T and x.p == y.p:
        return x
    if HI(x) <= 1 and HI(y) <= 1:
        p = lexico(c, P(x), P(y))
        if p is not None:
            return mkT(w, p, 0, 1, 'lex', (c, x, y))
    if w == 1:
        # and/or normal forms
        if x.__class__ is int:
            return t_or(c, y, 1) if x else t_and(t_not(c), y, 1)
        if y.__class__ is int:
            return t_or(t_not(c), x, 1) if y else t_and(c, x, 1)
    px, py = P(x), P(y)
    if x.__class__ is T:
        xl, xh = _refine(px, x.lo, x.hi, c, True)
    else:
        xl = xh = x
    if y.__class__ is T:
        yl, yh = _refine(py, y.lo, y.hi, c, False)
    else:
        yl = yh = y
    lo, hi = min(xl, yl), max(xh, yh)
    if xl > xh:
        lo, hi = yl, yh
    elif yl > yh:
        lo, hi = xl, xh
    d = psub(px, py)
    if len(d) == 1 and () in d:
        return mkT(w, padd(py, pscale(c.p, d[()])), lo, hi, 'ite', (c, x, y))
    c = b1(c)
    if len(d) * len(c.p) <= 60 and pdeg(d) + pdeg(c.p) <= 4:
        p = padd(py, pmul(c.p, d))
        return mkT(w, p, lo, hi, 'ite', (c, x, y))
    if w == 1:
        p = booldef('ite', c, x, y)
        return mkT(1, p, 0, 1, 'ite', (c, x, y))
    t = T(w, None, lo, hi, 'ite', (c, x, y))
    key = (c.key(), pkey(px), pkey(py))
    at = _new_atom('itedef', p=(c, px, py), lo=lo, hi=hi, t=t, key=key)
    t.p = patom(at.id)
    return t


def t_umin(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return min(a, b)
    return t_ite(t_ult(a, b, w), a, b, w)


def t_umax(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return max(a, b)
    return t_ite(t_ult(a, b, w), b, a, w)


def t_smin(a, b, w):
    return t_ite(t_slt(a, b, w), a, b, w)


def t_smax(a, b, w):
    return t_ite(t_slt(a, b, w), b, a, w)


def t_usubsat(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return max(0, a - b)
    c = t_ult(a, b, w)
    if c.__class__ is int:
        return 0 if c else t_sub(a, b, w)
    p = psub(P(a), P(b))
    lo, hi = _refine(p, LO(a) - HI(b), HI(a) - LO(b), c, False)
    d = mkT(w, p, max(lo, 0), hi, 'sub', (a, b))
    return t_ite(c, 0, d, w)


def t_uaddsat(a, b, w):
    s = t_add(a, b, w + 1)
    full = (1 << w) - 1
    c = t_ult(full, s, w + 1)
    r = t_ite(c, full, s, w + 1)
    return t_trunc(r, w + 1, w)


def mkord(d, lo, hi, w, k=0):
    """the three-way comparison: -1 if d < 0, 1 if d > 0, k if d == 0, as a w-bit number"""
    l, h = prange(d)
    lo, hi = max(lo, l), min(hi, h)
    gt = ge_poly(paddc(d, -1), lo - 1, hi - 1)
    lt = ge_poly(paddc(pscale(d, -1), -1), -hi - 1, -lo - 1)
    full = (1 << w) - 1
    p = padd(pscale(gt, 1 - k), paddc(pscale(lt, full - k), k))
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return T(w, p, 0, full, 'ord', (d, lo, hi, k))


def ordcmp(a, b, w, f):
    """compare the three-way result a with the constant b: f(value, b) decides each case"""
    d, lo, hi, k = a.a
    r = [bool(f(v, b)) for v in ((1 << w) - 1, k, 1)]
    if r[0] == r[1] == r[2]:
        return int(r[0])
    if r[0] == r[1]:
        x = bt(ge_poly(paddc(d, -1), lo - 1, hi - 1), 'ult')
        return t_not(x) if r[0] else x
    if r[1] == r[2]:
        x = bt(ge_poly(paddc(pscale(d, -1), -1), -hi - 1, -lo - 1), 'ult')
        return x if r[0] else t_not(x)
    x = bt(eq_poly(d, lo, hi), 'eqp')
    return t_not(x) if r[0] else x


def bt(p, op):
    return mkT(1, p, 0, 1, op, ())


def ordite(c, x, y, w):
    """lexicographic three-way comparison"""
    if c.op == 'not' and c.a[0].__class__ is T:
        c = c.a[0]
        x, y = y, x
    if c.op != 'eq' or y.__class__ is not T or y.op != 'ord':
        return None
    d, lo, hi, k = y.a
    e = psub(P(c.a[0]), P(c.a[1]))
    if e != d and padd(e, d):
        return None
    if x.__class__ is int:
        return y if x == k else mkord(d, lo, hi, w, x)
    if x.op != 'ord':
        return None
    d1, l1, h1, k = x.a
    W = radix_power(max(-l1, h1) + 1)
    return mkord(padd(pscale(d, W), d1), W * lo + l1, W * hi + h1, w, k)


def t_ucmp(a, b, w, rw):
    if a.__class__ is int and b.__class__ is int:
        return ((a > b) - (a < b)) & ((1 << rw) - 1)
    return mkord(psub(P(a), P(b)), LO(a) - HI(b), HI(a) - LO(b), rw)


def t_scmp(a, b, w, rw):
    (p, l, h), (q, m, n) = sval(a, w), sval(b, w)
    return mkord(psub(p, q), l - n, h - m, rw)


def t_addo(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        s = a + b
        return (s & ((1 << w) - 1), int(s >> w != 0))
    p = padd(P(a), P(b))
    lo, hi = LO(a) + LO(b), HI(a) + HI(b)
    q, l, h = floor_div(p, 1 << w, lo, hi)
    return (wrap(p, lo, hi, w, 'add', (a, b)), mkT(1, q, l, h, 'addo', (a, b, w)))


def t_subo(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        s = a - b
        return (s & ((1 << w) - 1), int(s < 0))
    p = psub(P(a), P(b))
    lo, hi = LO(a) - HI(b), HI(a) - LO(b)
    q, l, h = floor_div(p, 1 << w, lo, hi)
    return (wrap(p, lo, hi, w, 'sub', (a, b)), mkT(1, pscale(q, -1), -h, -l, 'subo', (a, b, w)))


def t_mulo(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        s = a * b
        return (s & ((1 << w) - 1), int(s >> w != 0))
    full = t_mul(a, b, 2 * w)
    return (t_trunc(full, 2 * w, w), t_ult((1 << w) - 1, full, 2 * w))


def t_saddo(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        s = sval(a, w)[1] + sval(b, w)[1]
        return (s & ((1 << w) - 1), int(not -(1 << (w - 1)) <= s < 1 << (w - 1)))
    raise Unsupported('sadd.with.overflow')


def t_fshl(a, b, c, w):
    if c.__class__ is T:
        raise NeedConcrete('val', c, w)
    c %= w
    if c == 0:
        return a
    # (a << c) | (b >> (w-c))
    hi = t_shl(a, c, w) if a.__class__ is T else (a << c) & ((1 << w) - 1)
    lo = t_lshr(b, w - c, w)
    return t_or(hi, lo, w)


def t_fshr(a, b, c, w):
    if c.__class__ is T:
        raise NeedConcrete('val', c, w)
    c %= w
    if c == 0:
        return b
    hi = t_shl(a, w - c, w) if a.__class__ is T else (a << (w - c)) & ((1 << w) - 1)
    lo = t_lshr(b, c, w)
    return t_or(hi, lo, w)


def clz(x, w):
    return w - x.bit_length()


def t_ctlz(x, w):
    if x.__class__ is int:
        return clz(x, w)
    if clz(x.lo, w) == clz(x.hi, w):
        return clz(x.lo, w)
    raise NeedConcrete('ctlz', x, w)


def t_cttz(x, w):
    if x.__class__ is int:
        return w if x == 0 else (x & -x).bit_length() - 1
    raise NeedConcrete('val', x, w)


def t_ctpop(x, w):
    if x.__class__ is int:
        return bin(x).count('1')
    raise NeedConcrete('val', x, w)


def t_concat(parts):
    """parts: list of (value, nbits), least significant first"""
    if all(v.__class__ is int for v, _ in parts):
        r = s = 0
        for v, n in parts:
            r |= v << s
            s += n
        return r
    p = {}
    lo = hi = s = 0
    for v, n in parts:
        p = padd(p, pscale(P(v), 1 << s))
        lo += LO(v) << s
        hi += HI(v) << s
        s += n
    return mkT(s, p, lo, hi, 'concat', tuple(parts))


def t_extract(v, w, lsb, n):
    if v.__class__ is int:
        return (v >> lsb) & ((1 << n) - 1)
    x = t_lshr(v, lsb, w)
    return t_trunc(x, w, n)


# ---------------------------------------------------------------- evaluation
def eval_atom(i, env):
    v = env.get(i)
    if v is not None:
        return v
    # iterative post-order to avoid deep recursion
    stack = [i]
    while stack:
        j = stack[-1]
        if j in env:
            stack.pop()
            continue
        a = ATOMS[j]
        k = a.kind
        if k == 'var':
            env[j] = a.lo
            stack.pop()
            continue
        deps = atom_deps(a)
        todo = [d for d in deps if d not in env]
        if todo:
            stack.extend(todo)
            continue
        if k == 'floor':
            v = eval_poly(a.p, env) // a.m
        elif k == 'ge':
            v = int(eval_poly(a.p, env) >= 0)
        elif k == 'eq':
            v = int(eval_poly(a.p, env) == 0)
        elif k == 'div':
            d = eval_poly(a.m.p, env)
            v = eval_poly(a.p, env) // d if d else 0
        elif k == 'def':
            v = eval_poly(a.p, env)
        elif k == 'itedef':
            c, px, py = a.p
            v = eval_poly(px, env) if eval_poly(c.p, env) else eval_poly(py, env)
        elif k == 'opq':
            x, y = (eval_poly(P(z), env) for z in a.t.a)
            v = x & y if a.t.op == 'and' else x | y if a.t.op == 'or' else x ^ y
        elif k == 'bdef':
            xs = [eval_poly(P(z), env) for z in a.t.a]
            o = a.t.op
            v = (xs[0] & xs[1] if o == 'and' else xs[0] | xs[1] if o == 'or' else xs[0] ^ xs[1]
                 if o == 'xor' else (xs[1] if xs[0] else xs[2]))
        else:
            raise Unsupported(k)
        env[j] = v
        stack.pop()
    return env[i]


_depcache = {}


def atom_deps(a):
    k = a.kind
    if k == 'var':
        return ()
    if k in ('floor', 'ge', 'eq', 'def'):
        return atoms_of(a.p)
    if k == 'div':
        return atoms_of(a.p) | atoms_of(a.m.p)
    if k == 'itedef':
        c, px, py = a.p
        return atoms_of(c.p) | atoms_of(px) | atoms_of(py)
    s = set()
    for z in a.t.a:
        if z.__class__ is T:
            s |= atoms_of(z.p)
    return s


def eval_poly(p, env):
    r = 0
    for m, c in p.items():
        for i in m:
            v = env.get(i)
            if v is None:
                v = eval_atom(i, env)
            c *= v
            if not c:
                break
        r += c
    return r


def eval_t(x, env):
    return x if x.__class__ is int else eval_poly(x.p, env)
