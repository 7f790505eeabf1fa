"""What each property's check runs: units per tier, with their time budgets."""
import json
import os
import random

BT = ['b8', 'b16', 'b32', 'b64']
DT = ['d8', 'd16', 'd32', 'd64']
ALL = BT + DT
RADIX = {'b8': 1 << 8, 'b16': 1 << 16, 'b32': 1 << 32, 'b64': 1 << 64, 'd8': 100, 'd16': 10 ** 4, 'd32': 10 ** 9, 'd64': 10 ** 19}

LIMIT = {'quick': int(os.environ.get('BABS_LIMIT', 120)), 'thorough': 800}

ASSUMPTIONS = [
    'the encoded code is the LLVM IR rustc emits for /repo (opt-level 1, overflow checks and debug assertions on, panic=abort); counterexamples are replayed against the machine code of the same compilation',
    'memory allocation succeeds; operands are well-formed digit arrays (digits below the radix, as UBig::new and every operation produce)',
    'bounds are the operand sizes and patterns listed under coverage.bounds; nothing is claimed outside them',
    'trusted: rustc/LLVM front end, the LLVM IR executor in /verif/engine (validated on concrete inputs each run), z3',
]

FEAT = {'add': 'g_add', 'sub': 'g_sub', 'mul': 'g_mul', 'div': 'g_div', 'rem': 'g_div', 'divrem': 'g_div', 'remas': 'g_div',
        'addd': 'g_digit_as', 'subd': 'g_digit_as', 'muld': 'g_digit_mul', 'divd': 'g_digit_div', 'remd': 'g_digit_div',
        'square': 'g_square', 'shl': 'g_shl', 'shr': 'g_shr', 'cmp': 'g_cmp', 'new': 'g_new', 'from': 'g_from', 'pow': 'g_pow', 'powx': 'g_pow',
        'parse': 'g_parse', 'todec': 'g_dec', 'dispspec': 'g_fmtspec', 'hexspec': 'g_hexspec', 'display': 'g_fmt', 'hex': 'g_hex'}


class Plan:
    def __init__(self, tier, seed):
        self.tier, self.q = tier, tier == 'quick'
        self.rnd = random.Random(seed)
        self.units = []
        self.mode = 'value'

    def u(self, kind, budget=None, small=False, **kw):
        if 'op' in kw:
            f = FEAT[kw['op']]
        elif kind in ('text', 'fmtspec'):
            f = FEAT[kw['what']]
        else:
            f = FEAT[kind]
        if self.mode != 'value':
            kw['mode'] = self.mode
        if kind == 'forms':
            kw.pop('mode', None)
        self.units.append(dict(kind=kind, kw=kw, feats=[f], small=small, budget=budget or (int(os.environ.get('BABS_BUDGET', 25)) if self.q else 120)))


PROPS = {}


def prop(pid, **info):
    def deco(f):
        PROPS[pid] = dict(info, fn=f)
        return f
    return deco


def units(pid, tier, seed):
    p = Plan(tier, seed)
    PROPS[pid]['fn'](p)
    return p.units


def bounds(us, results):
    """per kind and operation: the sizes decided in this run"""
    out = {}
    for k, u in enumerate(us):
        if results.get(k, {}).get('status') != 'ok':
            continue
        kw = dict(u['kw'])
        tag = kw.pop('tag', '')
        key = u['kind'] + (':' + kw.pop('op') if 'op' in kw else '') + (' (cutoffs 4/8/6/4)' if u['small'] else '')
        out.setdefault(key, {}).setdefault(', '.join('%s=%s' % i for i in kw.items()), []).append(tag)
    return {k: ['%s: %s' % (a, ' '.join(t)) for a, t in v.items()] for k, v in out.items()}


def long(p, n, free=2, top=True):
    """n fixed digits from a varied mix, some of them replaced by symbolic ones"""
    s = list(draw(p, n))
    run = p.rnd.choice('0F')
    if n > 6 and p.rnd.random() < .5:          # a long run of one digit
        i = p.rnd.randrange(n - 5)
        j = p.rnd.randrange(i + 3, n)
        s[i:j] = run * (j - i)
    for k in p.rnd.sample(range(n), min(free, n)):
        s[k] = '*'
    if s[-1] == '0':
        s[-1] = '1'
    return ''.join(s)


LONG = (6, 9, 13, 16, 17, 24, 33, 40, 65)


# ------------------------------------------------------------------ C02, C03
def add_sub(p, op):
    dig = op + 'd'
    n = 5 if p.q else 9
    sizes = [(a, b) for a in range(n) for b in range(n)]
    if p.q:
        sizes += [(5, 5), (5, 4), (6, 5), (5, 6)]
    for i, (a, b) in enumerate(reversed(sizes)):
        for j, t in enumerate(ALL):
            for f in ([(i + j) % 6] if p.q else range(6) if a + b <= 8 else [(i + j) % 6]):
                p.u('binop', op=op, tag=t, a=a, b=b, form=f)
    for n in ((1, 2) if p.q else (0, 1, 2, 3, 4)):
        for j, t in enumerate(ALL):
            for f in ([(n + j) % 6, (n + j + 3) % 6] if p.q else range(6)):
                p.u('digop', op=dig, tag=t, a=n, form=f)
    # carries and borrows through every digit, and out of the number
    for j, t in enumerate(ALL):
        for n in range(4, 11 if p.q else 20):
            if op == 'add':
                p.u('binop', op='add', tag=t, a='*' + 'F' * (n - 1), b='*', form=(n + j) % 6)
                p.u('binop', op='add', tag=t, a='F' * (n - 1) + '*', b='*' + '0' * (n % 3) + '1', form=(n + j + 1) % 6)
                p.u('digop', op='addd', tag=t, a='*' + 'F' * (n - 1), form=(n + j) % 6)
                p.u('binop', op='add', tag=t, a='**', b='*' + 'F' * (n - 1), form=(n + j + 2) % 6)
            else:
                p.u('binop', op='sub', tag=t, a='*' + '0' * (n - 2) + '1', b='*', form=(n + j) % 6)
                p.u('binop', op='sub', tag=t, a='0' * (n - 1) + '*', b='*' + 'F' * (n % 3) + '1', form=(n + j + 1) % 6)
                p.u('digop', op='subd', tag=t, a='*' + '0' * (n - 2) + '*', form=(n + j) % 6)
                p.u('binop', op='sub', tag=t, a='*0' + '0' * (n - 3) + '*', b='*' * 2 + 'F' * (n - 3), form=(n + j + 2) % 6)
    # long carry / borrow chains
    for t in ALL:
        if op == 'add':
            p.u('binop', op='add', tag=t, a='*FFFFF*', b='*', form=4)
            p.u('binop', op='add', tag=t, a='*F', b='*FFFFF*', form=5)
        else:
            p.u('binop', op='sub', tag=t, a='*00000*', b='*', form=4)
            p.u('binop', op='sub', tag=t, a='*000*', b='*FFF*', form=3)


    # longer operands, most digits fixed
    for j, t in enumerate(ALL):
        for i, n in enumerate(LONG + (() if p.q else (80, 100, 129))):
            for k in range(1 if p.q else 3):
                m = (n, n - 1, n // 2, n + 3 if op == 'add' else n, 1)[(i + j + k) % 5]
                p.u('binop', op=op, tag=t, a=long(p, n, 3), b=long(p, m, 2), form=(i + j + k) % 6)
                p.u('digop', op=dig, tag=t, a=long(p, n, 2), form=(i + j + k) % 6)


@prop('C02')
def c02(p):
    add_sub(p, 'add')


@prop('C03')
def c03(p):
    add_sub(p, 'sub')


def lin(p, t, a, b):
    p.u('binop', small=True, op='mul', tag=t, a=a, b=b, form=0, lin=1)


def picked(p, kind):
    """operand patterns of the recursive multiplications chosen by tools/pick.py for the branch
    outcomes they reach"""
    for u in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'picked.json'))):
        if u['kind'] == kind:
            p.u(kind, small=u['small'], **u['kw'])


TOOM_CARRY = [('*00FFF01', '00011001', 'b'), ('s00FFF01', '00010001', 'b d8'), ('*11111111', '111111111', 'b8 b16 b32'), ('s11111111', '111111111', 'b64 d'),
              ('FFFFFFS1', '00111101', 'b d8 d16'), ('S00FFF0h', '000FFF0h', 'b8'), ('100FFF0h', 's00FFF0h', 'b8 b16')]


@prop('C04')
def c04(p):
    """long multiplication with every digit symbolic; Karatsuba and Toom-3 (with the lowered
    cut-offs) with one or two symbolic digits in patterns that drive every branch"""
    for t in ALL:
        for i, (a, b) in enumerate([(4, 4), (3, 5), (5, 2), (2, 2), (1, 3), (0, 2), (2, 0), (3, 3), (1, 1), (2, 4)]):
            if t == 'd64' and a * b > 4:
                continue
            p.u('binop', op='mul', tag=t, a=a, b=b, form=(i + ALL.index(t)) % 6)
        for a, b in [('***N', '0001'), ('0000*', 'FFFFFF'), ('F*F1', 'F0h1'), ('0*0F', 'FFhE'), ('F1h*', 'F0h1'), ('F0F0*F', 'F0h1F1'), ('1000*', 'F0F01'), ('11111', '100*1'), ('1001*', '11001'),
                     ('F1F1', '01*1'), ('0000**', 'FFFFFF'), ('111*', 'hhhh'), ('FF*1', '1F01'), ('111111111', '*00000001'), ('1000000*', 'F0000001')]:
            if t == 'd64' and (a, b) not in (('***N', '0001'), ('11111', '100*1'), ('1001*', '11001'), ('F1F1', '01*1')) or t in ('d8', 'd16', 'd32', 'b64') and len(a) > 6 or t in DT and a == 'F0F0*F':
                if p.q:
                    continue
            lin(p, t, a, b)
        if t in BT:
            lin(p, t, '*1hF', 'hF11')
        # carries out of the coefficients of the Toom-3 product
        for a, b, who in TOOM_CARRY:
            if on(t, who):
                lin(p, t, a, b)
    picked(p, 'binop')
    if not p.q:
        for t in ALL:
            for a, b in [(6, 6), (8, 8), (4, 8), (10, 10), (3, 1)]:
                p.u('binop', op='mul', tag=t, a=a, b=b, form=(a + b) % 6)
            for a, b in [('*00000001', '1*0000001'), ('FFFF*FFFF', 'FFFFFFFFF'), ('F*F0F*', 'F0h1F1'), ('****', 'F0h1'), ('F*F*', 'F0h1'), ('0000000*', 'FFFFFFFF'), ('*FFFFFFF', '00000001')]:
                lin(p, t, a, b)
            for a, b in [(4, 4), (5, 5), (4, 6), (8, 8)]:
                p.u('binop', small=True, op='mul', tag=t, a=a, b=b, form=0)


TOOM_SQUARE = [('s0000h01', 'b'), ('S0000h01', 'b'), ('0000h0s1', 'b'), ('0000h01s', 'b8 b16 b32'), ('s0000000000000000000000001', 'a')]


@prop('C05')
def c05(p):
    for t in ALL:
        for n in (0, 1, 2, 3, 4, 5) + (() if p.q else (6, 8, 10)):
            if not p.q or t in BT or n < {'d8': 4, 'd16': 4, 'd32': 3, 'd64': 2}[t]:
                p.u('square', tag=t, a=n)
        for a in ['0*0F', '1000*', '100000*', '*0000001', '000**N', '1*01', '11*1'] + (['F*F1', '*1hF', 'F01*'] if t in BT else []):
            if p.q and (t == 'd64' or t[0] == 'd' and a not in ('0*0F', '1000*', '*0000001', '000**N')):
                continue
            p.u('square', small=True, tag=t, a=a, lin=1)
        for a, who in TOOM_SQUARE:
            if on(t, who):
                p.u('square', small=True, tag=t, a=a, lin=1)
    picked(p, 'square')
    if not p.q:
        for t in ALL:
            for a in ['F*F1', '*1hF', 'F01*', 'F0*1F1', '0000000*', '000001*1', 'FFFF*FFF', '0*1hFF10F', 4, 5, 6, 8]:
                p.u('square', small=True, tag=t, a=a, lin=1)


# patterns of C06 that are decided quickly, per digit type ('b' all binary, 'a' all, or a list)
def on(t, who):
    if who == 'a':
        return True
    if who == 'b':
        return t in BT
    return t in who.split() or t[0] in who.split()


C06_DIV = [('h', 3, 'a'), ('h', 2, 'a'), ('FF', 2, 'a'), ('0h', 2, 'a'), ('1F', 2, 'a'), ('1h', 2, 'a'), ('Fh', 2, 'a'), ('10', 2, 'a'), ('0F', 2, 'a'), 
           ('0h', 3, 'a'), ('1F', 3, 'd8'), ('FF', 3, 'd8 d16 d32')]
C06_W = [('*N', 'F', 'a'), ('**', '1', 'a'), ('***', '1', 'a'), ('**N', 'F', 'b8 b16 b32 b64 d8'), ('**', '7', 'b8 b16 b32'), ('**N', 'h', 'b8 b16 b32')]
# fixed divisor and quotient, every remainder: (divisor, quotient, remainder)
C06_R = [('Fh', 'F', '**', 'a'), ('Fh', 'FF', '**', 'a'), ('Fh', 'FFF', '**', 'a'), ('Eh', 'EF', '*H', 'a'), ('FFh', 'F', '***', 'a'), ('FFh', 'FF', '**H', 'a'),
         ('Fh', 'D', '**', 'b d8 d16 d32'), ('Fh', 'C', '**', 'a'), ('Fh', 'FC', '**', 'a'), ('Fh', 'CE', '**', 'a'), ('F0h', 'C', '0**', 'a'), ('FFh', 'D', '***', 'b d8 d16'), ('FFh', 'D', '*F1', 'a'), ('FFh', 'CF', '*F0', 'a'), ('Fh', 'D', '*H', 'd64'), ('FFh', 'CF', '***', 'b8 b16 d8'), ('Fg', 'C', '**', 'a'), ('Tt', 'T', '**', 'a')]
C06_RBZ = [('FFF00h', 'FFF', '**0200', 'a'), ('FFF00h', 'FFF', 'FFFF**', 'a'), ('FFF00h', 'FFF', '0*F*00', 'a'), ('FFF00h', 'FFF', '******', 'a'), ('FFF00h', 'FFFFFF', '**0200', 'a'),
           ('EFF00h', 'FEF', '*00300', 'a'), ('FF000h', 'FFFF', '***100', 'a'), ('FFFF000h', 'FFFF', '***0300*', 'a')]
C06_BZ = [('FFF00h', 'FFF', '**0000', 'a'), ('F0hF1F', 'FFFF', '****11', 'a'), ('FFF0*h', 'FFF', '0FFFF0', 'b d8 d16 d32'), ('000*0h', 'F1hF00', '0F0F00', 'b'), ('F*F00h', 'F0F0F0', '0000F0', 'b8'),
          ('FFF00h', '*F0FFF', '000001', 'b8'), ('*h0F1N', 'FF', 'hhhhhh', 'b d8 d16 d32')]


def draw(p, n):
    return ''.join(p.rnd.choice('0001FFFEhHgt') for _ in range(n - 1)) + p.rnd.choice('1FEhHgt')


def onefree(p, n):
    k = 0 if p.q else p.rnd.choice((0, 0, n - 1, p.rnd.randrange(n)))
    fill = p.rnd.choice(('0', 'F', None))
    s = [fill or c for c in draw(p, n)]
    s[-1] = '0'
    s[k] = '*'
    return ''.join(s)


@prop('C06')
def c06(p):
    """division: fixed divisors with every dividend; fixed quotients with every divisor and
    remainder; Burnikel-Ziegler with a few symbolic digits in adversarial patterns"""
    picked(p, 'divw')
    for j, t in enumerate(ALL):
        # fixed divisors, all dividends
        for i, (b, a, who) in enumerate(C06_DIV):
            if on(t, who) or not p.q:
                p.u('binop', op=('div', 'rem')[(i + j) % 2], tag=t, a=a, b=b, form=(i + j) % 6)
        # dividends with fewer digits than the divisor
        for i, (a, b) in enumerate([(0, 1), (1, 2), (0, 3), (2, 3), (1, 4), (3, 5), (1, 22)]):
            p.u('binop', op='div', tag=t, a=a, b=b, form=(i + j) % 6)
            p.u('divw', op=('divrem', 'remas', 'rem')[(i + j) % 3], tag=t, b=b, q='', r=a, form=(i + j) % 6)
            p.u('divw', op=('divrem', 'remas', 'rem')[(i + j + 1) % 3], tag=t, b=b, q='', r=a, form=(i + j + 1) % 6)
        # all divisors and remainders, fixed quotient
        for i, (b, q, who) in enumerate(C06_W):
            if on(t, who) or not p.q:
                p.u('divw', op=('divrem', 'remas', 'div', 'rem')[(i + j) % 4], tag=t, b=b, q=q, r=len(b))
        # recursive division, estimates far off
        for i, (b, q, r, who) in enumerate(C06_BZ):
            if on(t, who) or not p.q:
                p.u('divw', small=True, op='divrem', tag=t, b=b, q=q, r=r)
        for i, (b, q, r, who) in enumerate(C06_R):
            if on(t, who):
                p.u('divw', op=('divrem', 'remas', 'div', 'rem')[(i + j) % 4], tag=t, b=b, q=q, r=r)
        for i, (b, q, r, who) in enumerate(C06_RBZ):
            if on(t, who):
                p.u('divw', small=True, op=('divrem', 'remas', 'div', 'rem')[(i + j) % 4], tag=t, b=b, q=q, r=r)
        # drawn divisors and quotients: school-book with every remainder, recursive (with the
        # lowered and with the real cut-offs) with one digit of the remainder free
        for k in range(4 if p.q else 40):
            n = p.rnd.randint(2, 3 if p.q else 5)
            b, q = draw(p, n), draw(p, p.rnd.randint(1, 4))
            p.u('divw', op='divrem', tag=t, b=b, q=q, r=n if not p.q else '*' + draw(p, n - 1)[:-1] + '0')
        for k in range(8 if p.q else 40):
            n = p.rnd.randint(6, 13)
            p.u('divw', small=True, op='divrem', tag=t, b=draw(p, n), q=draw(p, p.rnd.randint(3, n + 4)), r=onefree(p, n))
            if k % 2 == 0 or not p.q:
                n = p.rnd.randint(20, 41)
                p.u('divw', op='divrem', tag=t, b=draw(p, n), q=draw(p, p.rnd.randint(10, n + 10)), r=onefree(p, n))
    if not p.q:
        for j, t in enumerate(ALL):
            for i, (b, q) in enumerate([('*N', 'h'), ('*N', 'FF'), ('**', 'F'), ('***', '7'), ('**N', '1F')]):
                p.u('divw', op=('divrem', 'remas', 'div', 'rem')[(i + j) % 4], tag=t, b=b, q=q, r=len(b))
            for b, q, r in [('FFFFFh', 'FFFFF*', 'FFFFFH'), ('*h0F1N', 'F', '******'), ('F0hF1N', '*', '******'), ('F0hFFF', '**', 'hhhh**')]:
                p.u('divw', small=True, op='divrem', tag=t, b=b, q=q, r=r)
            for op in ('div', 'rem'):
                for b in ('F1', 'tt', 'Ft', 'FFh'):
                    p.u('binop', op=op, tag=t, a=3, b=b, form=j % 6)


@prop('C07')
def c07(p):
    for t in ALL:
        for n in (0, 1, 2) + (() if p.q else (3, 4)):
            for f in range(6):
                if p.q and t == 'd64' and f < 3 and n:
                    if n == 1:
                        p.u('digop', op='muld', tag=t, a=1, form=f)
                    continue
                p.u('digop', op='muld', tag=t, a=n, form=f)
        if t in DT:
            # machine integers at and above the radix
            for k, n in enumerate((RADIX[t], RADIX[t] + 1, (1 << int(t[1:])) - 1)):
                p.u('digop', op='muld', tag=t, a=2, form=k, nlo=n, nhi=n)
    for j, t in enumerate(ALL):
        for i, n in enumerate(LONG[:6] if p.q else LONG):
            if t != 'd64' or n < 13:
                p.u('digop', op='muld', tag=t, a=long(p, n, 0), form=3 + (i + j) % 3)
            d = p.rnd.choice([2, 3, 10, RADIX[t] // 2, RADIX[t] - 1])
            p.u('digop', op='muld', tag=t, a=long(p, n, 1), form=(i + j) % 6, nlo=d, nhi=d)
            if t in DT:
                d = p.rnd.choice([RADIX[t], RADIX[t] + 1, (1 << int(t[1:])) - 1])
                p.u('digop', op='muld', tag=t, a=long(p, n, 1), form=(i + j) % 3, nlo=d, nhi=d)


@prop('C08')
def c08(p):
    for t in ALL:
        for op in ('divd', 'remd'):
            for n in (0, 1, 2, 3):
                f = (n + (3 if op == 'remd' else 0)) % 6
                if t in BT or f >= 3:
                    p.u('digop', op=op, tag=t, a=n, form=f)
                else:
                    p.u('digop', op=op, tag=t, a=n, form=f, nhi=RADIX[t] - 1)
                    if n < 2 or not p.q:
                        p.u('digop', op=op, tag=t, a=n, form=f, nlo=RADIX[t])
        if t in DT:
            # machine integers at and above the radix: two digits as divisor
            r = RADIX[t]
            m = (1 << int(t[1:])) - 1
            for i, n in enumerate((r, min(m, 3 * r // 2), r + 1, m)):
                for op in ('divd', 'remd'):
                    for a in (1, 2, 3):
                        if p.q and (i > 1 and a > 1 or a == 3 and (i or t not in ('d8',) or op == 'remd') or i and a == 2 and t == 'd64' and op == 'remd'):
                            continue
                        p.u('digop', op=op, tag=t, a=a, form=(a + i) % 3, nlo=n, nhi=n)
    for j, t in enumerate(ALL):
        for i, n in enumerate(LONG[:6] if p.q else LONG):
            for op in ('divd', 'remd'):
                d = p.rnd.choice([2, 3, 7, 10, RADIX[t] // 2, RADIX[t] // 2 + 1, RADIX[t] - 1, RADIX[t] - 2])
                p.u('digop', op=op, tag=t, a=long(p, n, 1), form=(i + j) % 6, nlo=d, nhi=d)


@prop('C09')
def c09(p):
    for t in ALL:
        for n in (0, 1, 2, 3):
            for op in ('divrem', 'remas'):
                p.u('divzero', op=op, tag=t, a=n)
            for f in range(6):
                if f % 4 == n or not p.q:
                    for op in ('div', 'rem', 'divd', 'remd'):
                        p.u('divzero', op=op, tag=t, a=n, form=f)


@prop('C10')
def c10(p):
    for t in ALL:
        w = int(t[1:])
        ns = [0, 1, 2, 3, 4, 5, 7, w // 2 - 1, w // 2, w // 2 + 1, w - 5, w - 4, w - 3, w - 2, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 3, 3 * w + 1]
        ns = sorted(set(n for n in ns if n >= 0))
        if not p.q:
            ns = list(range(3 * w + 2))
        if t == 'd64':
            ns1 = [n for n in ns if n < w - 1]
            for n in (0, 1, 2, 3):
                for x in ns1:
                    p.u('shift', op='shl', tag=t, a=n, ns=[x], form=n % 3)
            for x in ns:
                if x >= w - 1 and (x <= 131 or not p.q):
                    p.u('shift', op='shl', tag=t, a='1', ns=[x], form=x % 3)
                    p.u('shift', op='shl', tag=t, a=1, ns=[x], form=x % 3)
            continue
        for n in (0, 1, 2, 3):
            for k in range(0, len(ns), 6):
                p.u('shift', op='shl', tag=t, a=n, ns=ns[k:k + 6], form=(n + k // 6) % 3)
    shift_long(p, 'shl')


def shift_long(p, op):
    for j, t in enumerate(ALL):
        w = int(t[1:])
        for i, n in enumerate((5, 9, 17, 33) if p.q else LONG):
            lim = w + 2 if t in DT and op == 'shl' else 3 * w + 1
            for x in (p.rnd.randrange(1, w // 2 + 1), p.rnd.randrange(w // 2, w), p.rnd.randrange(w - 2, lim)):
                if op == 'shr' and t in DT and x > 4 * (w // 4 - 1) and p.q:
                    x = 4 * (w // 4 - 1) - i
                if op == 'shl' and t == 'd64' and x > 60:
                    x = 60 - i
                p.u('shift', op=op, tag=t, a=long(p, n, 2 if t in BT else 1), ns=[max(1, x)], form=(i + x) % 3)
        if t in BT:
            for x in (8 * w, 16 * w + 1, 17 * w - 1, 40 * w):
                p.u('shift', op=op, tag=t, a=long(p, 20, 3), ns=[x], form=x % 3)


@prop('C11')
def c11(p):
    for t in ALL:
        w = int(t[1:])
        ns = sorted(set(range(9)) | {w // 2 - 1, w // 2, w // 2 + 1, w - 3, w - 2, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1, 3 * w, 3 * w + 1, 1000, 2 ** 63, 2 ** 64 - 1})
        if not p.q:
            ns = sorted(set(ns) | set(range(3 * w + 2)))
        if t in BT:
            for n in (0, 1, 2, 3, 4):
                for k in range(0, len(ns), 6):
                    p.u('shift', op='shr', tag=t, a=n, ns=ns[k:k + 6], form=(n + k // 6) % 3)
            continue
        lim = 4 * (w // 4 - 1)         # up to here digit by digit, then by division
        for i, n in enumerate(ns):
            p.u('shift', op='shr', tag=t, a=i % 2, ns=[n], form=i % 3)
            big = len(str(1 << min(n, 10 ** 4))) > 3 * {'d8': 2, 'd16': 4, 'd32': 9, 'd64': 19}[t]
            for k, a in enumerate((2, 3, '*1', '*F', '**1')):
                if p.q and n > lim and not big and k in (0, 1, 4):
                    continue
                p.u('shift', op='shr', tag=t, a=a, ns=[n], form=(i + k) % 3)
    shift_long(p, 'shr')


@prop('C12')
def c12(p):
    for t in ALL:
        for a, b in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (4, 4), (3, 4), (4, 3), (5, 5), (6, 6), (7, 7), (8, 8), (6, 5), (7, 8), (0, 4), (12, 12), (17, 17), (32, 33), (64, 65)) + ((() if t in ('b64', 'd64') else ((24, 24),))) + (() if p.q else ((16, 16), (20, 20), (65, 65), (129, 129))):
            p.u('cmp', tag=t, a=a, b=b)
        for n in (24, 33, 40, 65, 100):         # numbers of equal length that differ in a few places
            for k in range(1 if p.q else 4):
                a = long(p, n, 0)
                i, j, m = p.rnd.sample(range(n), 3)
                f = lambda ks, s: ''.join('*' if x in ks else d for x, d in enumerate(s))
                p.u('cmp', tag=t, a=f((i, j), a), b=f((i, j, m), a))
                p.u('cmp', tag=t, a=f((0, n - 1), a), b=f((0,), a))


@prop('C13', std=True)
def c13(p):
    for t in ALL:
        for s in ('', '?', '??', '???', '0x', '0x?', '0x??', 'dddd', '0xxxx', '+ddd', 'd' * 9, '0x' + 'x' * 9, 'd~', 'd' * 21) + (() if p.q else ('????', '0x???', 'd' * 40, '0x' + 'x' * 40)):
            p.u('parse', tag=t, pat=s)
        for n in (30, 45, 64, 100) + (() if p.q else (80, 130, 200)):
            for k in range(2 if p.q else 6):
                p.u('parse', tag=t, pat=text(p, n, 'd'))
                p.u('parse', tag=t, pat='0x' + text(p, n, 'x'))
            s, k = text(p, n, 'd', 0), p.rnd.randrange(n)
            p.u('parse', tag=t, pat=s[:k] + '?' + s[k + 1:])
            p.u('parse', tag=t, pat=s[:k] + '~' + s[k + 1:])
            s = text(p, n, 'x', 0)
            p.u('parse', tag=t, pat='0x' + s[:k] + '?' + s[k + 1:])
            p.u('parse', tag=t, pat='?' + text(p, n if t != 'b8' else n // 2, 'd', 0))
            p.u('parse', tag=t, pat='0?' + text(p, n if t != 'b8' else n // 2, 'd', 0))



def text(p, n, free, num=2):
    s = [p.rnd.choice('0001234567899' + ('' if free == 'd' else 'aBcDfffF')) for _ in range(n)]
    for _ in range(2):
        if p.rnd.random() < .7:
            i = p.rnd.randrange(n - 8)
            j = p.rnd.randrange(i + 5, n)
            s[i:j] = p.rnd.choice('0099' if free == 'd' else '00fF') * (j - i)
    for k in p.rnd.sample(range(n), num):
        s[k] = free
    return ''.join(s)


@prop('C14', std=True)
def c14(p):
    """binary to decimal: few digits fully symbolic, more digits with some symbolic; with the
    lowered cut-off also the divide-and-conquer conversion"""
    for t in BT:
        for n in (0, 1, 2) + (() if p.q else (3, 4)):
            if not (p.q and t == 'b64' and n == 2):
                p.u('todec', tag=t, a=n)
                p.u('todec', small=True, tag=t, a=n)
        for s in C14_PAT + ([] if p.q else C14_MORE):
            p.u('todec', small=True, tag=t, a=s)
        for n in range(3, 14 if t != 'b64' or not p.q else 10):
            for s in ('*' + '0' * (n - 2) + '1', '*' + 'F' * (n - 1)):
                p.u('todec', small=True, tag=t, a=s)
    for t in ALL:
        for n in (0, 1) if t in ('b32', 'b64', 'd32', 'd64') and p.q else (0, 1, 2):
            if not (p.q and (t == 'b64' and n == 1 or t in ('b8', 'b16') and n == 2)):
                p.u('text', what='display', tag=t, a=n)
    for j, t in enumerate(BT):
        for n in (4, 6, 9, 15, 16, 17, 24, 33) if p.q else range(3, 48):
            for small in (False, True):
                p.u('todec', small=small, tag=t, a='*' + long(p, n - 1, 0))
    for j, t in enumerate(DT):
        for n in (3, 5, 8, 13, 24):
            p.u('text', what='display', tag=t, a=long(p, n, 1) if t != 'd64' else '*' + long(p, n - 1, 0))


C14_PAT = ['*1', '*F', '0*', '1*', 'F*']
C14_MORE = ['**1', '*FF', '000*', '***1']


@prop('C15', std=True)
def c15(p):
    for t in BT:
        for n in (0, 1) if p.q else (0, 1, 2, 3):
            for f in range(4):
                p.u('text', what='hex', tag=t, a=n, form=f)
        for f in range(4):
            if t in ('b8', 'b16'):
                p.u('text', what='hex', tag=t, a=2, form=f)
        if t == 'b8':
            p.u('text', what='hex', tag=t, a=3, form=0)
        if t == 'b32':
            p.u('text', what='hex', tag=t, a=2, form=2)
        for k, a in enumerate(('*1', '*F', '0*1', 'F01*')):
            if t != 'b64' or a != 'F01*' or not p.q:
                p.u('text', what='hex', tag=t, a=a, form=k)
    for j, t in enumerate(BT):
        for i, n in enumerate((3, 5, 8, 10, 13, 24)):
            for f in (i % 4, (i + j + 1) % 4):
                p.u('text', what='hex', tag=t, a=long(p, n, 1), form=f)


@prop('C16')
def c16(p):
    """small exponents with every base of up to two digits, every exponent up to a bound with
    fixed bases, and larger exponents with a few bases at once"""
    for t in ALL:
        for n in (0, 1, 2, 3, 4) + (() if p.q else (5, 6, 7, 8)):
            if not (p.q and t == 'd64' and n > 2):
                p.u('pow', tag=t, a=1, ns=[n])
        for n in (0, 1, 2) + ((3,) if t in BT or not p.q else ()):
            if not (p.q and t == 'd64' and n > 1):
                p.u('pow', tag=t, a=2, ns=[n])
        for k, (a, hi) in enumerate((('2', 63), ('01', 47), ('3', 47), ('12', 31)) + (() if t == 'd64' else (('F', 31),)) + (() if p.q else (('1', 200), ('', 200), ('2', 300), ('F0F', 40), ('001', 100)))):
            p.u('powx', tag=t, a=a, lo=0, hi=hi, form=k % 2)
        # exponents of any size: bases zero and one around the powers of two, base two around some
        for a in ('', '1'):
            for e in (8, 11, 16, 31, 32, 48, 63) if p.q else range(8, 64):
                p.u('powx', tag=t, a=a, lo=2 ** e - 2, hi=2 ** e + 2, form=e % 2)
            p.u('powx', tag=t, a=a, lo=2 ** 64 - 4, hi=2 ** 64 - 1)
        for e in (8, 9) + ((10, 11) if t in ('b64', 'b32', 'd64') or not p.q else ()) + (() if p.q else (12,)):
            for x in (2 ** e - 1, 2 ** e, 2 ** e + 1):
                p.u('powx', tag=t, a='2', lo=x, hi=x)
        p.u('pow', tag=t, a=[0, (1, 3)], ns=[15])
        if t not in ('d8', 'd16', 'd32'):
            p.u('pow', tag=t, a=[(0, 3), 1], ns=[15])


@prop('C17')
def c17(p):
    for t in ALL:
        p.u('from', tag=t)
        for n in (0, 1, 2, 3, 4, 9, 17, 33) + (() if p.q else (6, 8, 12, 65, 129)):
            p.u('new', tag=t, n=n)


@prop('C18')
def c18(p):
    al = [0, 1, 2, 3, 4, 5]
    for t in ALL:
        for op in ('add', 'sub', 'mul'):
            p.u('forms', op=op, tag=t, a=2, b=2, forms=al)
            p.u('forms', op=op, tag=t, a=3, b=1, forms=al)
            p.u('forms', op=op, tag=t, a=1, b=2, forms=al)
        for op in ('addd', 'subd', 'muld', 'divd', 'remd'):
            p.u('forms', op=op, tag=t, a=2, b=0, forms=al)
        for op in ('div', 'rem'):
            p.u('forms', op=op, tag=t, a=1, b=1, forms=al)
            p.u('forms', op=op, tag=t, a=1, b=2, forms=al)
            p.u('forms', op=op, tag=t, a=1, b=0, forms=al)
            p.u('forms', op=op, tag=t, a=2, b='0h', forms=al)
            p.u('forms', op=op, tag=t, a='1h', b='*h', forms=al)
            p.u('forms', op=op, tag=t, a='FF1', b='*F1', forms=al)
        for op in ('shl', 'shr'):
            pass


@prop('C19', std=True)
def c19(p):
    for t in ALL:
        places = {'d8': 2, 'd16': 4, 'd32': 9, 'd64': 19, 'b8': 3, 'b16': 5, 'b32': 10, 'b64': 20}[t]
        r = [(0, min(1200, RADIX[t] - 1))]
        for f in range(9):
            p.u('fmtspec', what='dispspec', tag=t, a=0, form=f, width=5 + f)
            for wd in (3, 7):
                p.u('fmtspec', what='dispspec', tag=t, a=r if RADIX[t] > 60000 else 1, form=f, width=wd)
            for wd in (places + 3, places + 7):
                p.u('fmtspec', what='dispspec', tag=t, a=r + [(1, 20)] if t in DT else r + [1], form=f, width=wd)
            if t in BT:
                p.u('fmtspec', what='hexspec', tag=t, a=0, form=f, width=5 + f)
                for wd in (3, 7):
                    p.u('fmtspec', what='hexspec', tag=t, a=1 if t in ('b8', 'b16') else [(0, 9999)], form=f, width=wd)
                for wd in (places + 1, places + 6):
                    p.u('fmtspec', what='hexspec', tag=t, a='**' if t == 'b8' else [(0, 999), (1, 300)], form=f, width=wd)


# ------------------------------------------------------------------ C01
@prop('C01', std=True)
def c01(p):
    """only the shape of the results: digits below the radix, no leading zero digit"""
    p.mode = 'canon'
    for j, t in enumerate(ALL):
        w = int(t[1:])
        for i, n in enumerate((0, 1, 2, 3, 4, 5, 17, 33) + (() if p.q else (6, 8, 10, 65))):
            p.u('new', tag=t, n=n)
        p.u('from', tag=t)
        sizes = [(a, b) for a in range(5) for b in range(5)] if p.q else [(a, b) for a in range(8) for b in range(8)]
        for i, (a, b) in enumerate(sizes):
            p.u('binop', op='add', tag=t, a=a, b=b, form=(i + j) % 6)
            if a >= b:
                p.u('binop', op='sub', tag=t, a=a, b=b, form=(i + j) % 6)
        for a, b in [('*00*', '*FF'), ('***0', '***0'), ('**1', '**1'), ('000*', '1'), ('F00*', 'FFF')]:
            if a[-1] != '0':
                p.u('binop', op='sub', tag=t, a=a, b=b, form=j % 6)
        for i, (a, b) in enumerate([(1, 1), (2, 2), (0, 2), (2, 0), (1, 3), (3, 1)] + ([] if t == 'd64' and p.q else [(3, 2)])):
            p.u('binop', op='mul', tag=t, a=a, b=b, form=(i + j) % 6)
        for n in (0, 1, 2) + (() if p.q else (3, 4)):
            if not (p.q and n == 2 and t == 'd64'):
                p.u('square', tag=t, a=n)
        for i, (b, a) in enumerate([('h', 3), ('h', 2), ('FF', 2), ('0h', 2), ('0h', 3), ('F1', 1), ('10', 2)]):
            if b[-1] != '0':
                for op in ('div', 'rem'):
                    p.u('binop', op=op, tag=t, a=a, b=b, form=(i + j) % 6)
        for i, (b, q) in enumerate([('*N', 'F'), ('**', '1')]):
            p.u('divw', op=('divrem', 'remas')[i], tag=t, b=b, q=q, r=len(b))
        for i, (b, q, r) in enumerate([('FFF00h', 'FFF', '**0200'), ('EFF00h', 'FEF', '*00300'), ('FFF00h', 'FFF', '******'), ('FF000h', 'FFFF', '***100')]):
            p.u('divw', small=True, op='divrem', tag=t, b=b, q=q, r=r)
        for i, n in enumerate((0, 1, 2) + (() if p.q else (3,))):
            for op in ('addd', 'subd'):
                for f in (1, 4):
                    p.u('digop', op=op, tag=t, a=n, form=f)
            if not (t == 'd64' and p.q and n == 2):
                p.u('digop', op='muld', tag=t, a=n, form=(i + j) % 6)
            for op in ('divd', 'remd'):
                p.u('digop', op=op, tag=t, a=n, form=3 + (i + j) % 3)
                if t in DT:
                    p.u('digop', op=op, tag=t, a=n, form=(i + j) % 3, nhi=RADIX[t] - 1)
                    if n < 2:
                        p.u('digop', op=op, tag=t, a=n, form=(i + j) % 3, nlo=RADIX[t], nhi=RADIX[t] + 1)
        ns = sorted({0, 1, 3, w // 2, w - 2, w - 1, w, w + 1, 2 * w} if t != 'd64' else {0, 1, 3, 4, 31, 60})
        for n in (0, 1, 2, 3):
            for k in range(0, len(ns), 3):
                p.u('shift', op='shl', tag=t, a=n, ns=ns[k:k + 3], form=(n + k) % 3)
        ns = [0, 1, 2, 3, w // 2, w - 3, w - 1, w, w + 1, 2 * w, 2 * w + 1, 1000]
        for n in (0, 1, 2, 3):
            if t in BT:
                p.u('shift', op='shr', tag=t, a=n, ns=ns[:6], form=n % 3)
                p.u('shift', op='shr', tag=t, a=n, ns=ns[6:], form=(n + 1) % 3)
            else:
                for k, x in enumerate(ns):
                    lim = 4 * (w // 4 - 1)
                    if not (p.q and (n == 3 and k % 3 or n > 1 and lim < x <= 2 * w + 1)):
                        p.u('shift', op='shr', tag=t, a=n, ns=[x], form=(n + k) % 3)
        for n in (0, 1, 2, 3):
            if not (p.q and t == 'd64' and n > 2):
                p.u('pow', tag=t, a=1, ns=[n])
        p.u('powx', tag=t, a='2', lo=0, hi=40, form=0)
        p.u('powx', tag=t, a='', lo=0, hi=40, form=1)
        for s in ('', '?', '??', 'dddd', '0xxxx', '+ddd', '0ddd', '0x0xx', 'd' * 9, '0x' + 'x' * 9, 'd' * 21):
            p.u('parse', tag=t, pat=s)
        if t in BT:
            for a in (0, 1, '*1', '*F', '0*', '*00001', '*FFFFF'):
                p.u('todec', small=True, tag=t, a=a)
