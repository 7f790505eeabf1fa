"""SMT back-end: integer arithmetic over the atoms of terms.py, discharged by z3 (and cvc5).

A query asks whether a set of literals (T, truth) is satisfiable.  Atoms are translated with
their definitions; non-linear monomials become fresh integers bounded by McCormick
inequalities (exact for 0/1 factors), so `unsat` is sound, while a `sat` answer is only
believed after the model has been evaluated exactly (terms.eval_*).
The cone of influence is grown in rounds: `unsat` in an early round is final.
"""
import time
import z3
import bv
import terms as tm
from terms import ATOMS, T, P, atoms_of, prange, mono_range, paddc, psub, pscale, padd, pmul, BOOL


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.max_time = 0.0
        self.trivial = 0

    def as_dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    decided_by_interval_or_normal_form=self.trivial,
                    solver_time_s=round(self.time, 3), max_query_s=round(self.max_time, 3))


STATS = Stats()


def lit_poly_fix(t, val):
    """(atom id, value) when the literal t==val fixes a single 0/1 atom, else None"""
    p = t.p
    if len(p) > 2:
        return None
    at = None
    for m, c in p.items():
        if m == ():
            continue
        if len(m) != 1 or at is not None:
            return None
        at = m[0]
        k = c
    c0 = p.get((), 0)
    if at not in BOOL:
        return None
    if k == 1 and c0 == 0:
        return at, int(val)
    if k == -1 and c0 == 1:
        return at, int(not val)
    return None


class Enc:
    """one query"""

    def __init__(self, fixed, exact=False):
        self.fixed = fixed
        self.exact = exact       # assert products exactly (non-linear)
        self.decl = []
        self.asserts = []
        self.known = set()       # atoms declared (range asserted)
        self.expanded = set()
        self.monos = {}
        self.pending = []        # atoms whose definition is not yet included
        self.lem_done = set()
        self.nonlinear = False
        self.lem_depth = 0

    def subst(self, p):
        f = self.fixed
        if not f:
            return p
        hit = False
        for m in p:
            for i in m:
                if i in f:
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return p
        r = {}
        for m, c in p.items():
            mm = []
            for i in m:
                v = f.get(i)
                if v is None:
                    mm.append(i)
                else:
                    c *= v
                    if not c:
                        break
            if c:
                mm = tuple(mm)
                v = r.get(mm, 0) + c
                if v:
                    r[mm] = v
                else:
                    del r[mm]
        return r

    def atom(self, i):
        if i not in self.known:
            self.known.add(i)
            a = ATOMS[i]
            self.decl.append('(declare-const a%d Int)' % i)
            self.asserts.append('(and (<= %s a%d) (<= a%d %s))' % (num(a.lo), i, i, num(a.hi)))
            if a.kind != 'var':
                self.pending.append(i)
        return 'a%d' % i

    def mono(self, m):
        if len(m) == 1:
            return self.atom(m[0])
        s = self.monos.get(m)
        if s is not None:
            return s
        self.nonlinear = True
        for i in m:
            self.atom(i)
        s = 'm%d' % len(self.monos)
        self.monos[m] = s
        self.decl.append('(declare-const %s Int)' % s)
        lo, hi = mono_range(m)
        A = self.asserts
        A.append('(and (<= %s %s) (<= %s %s))' % (num(lo), s, s, num(hi)))
        # split off one factor (a 0/1 factor if there is one)
        k = None
        for j, i in enumerate(m):
            if i in BOOL:
                k = j
                break
        if k is None:
            k = 0
        x = self.atom(m[k])
        rest = m[:k] + m[k + 1:]
        y = self.mono(rest)
        ax = ATOMS[m[k]]
        xl, xh = ax.lo, ax.hi
        yl, yh = mono_range(rest)
        # McCormick
        A.append('(>= %s %s)' % (s, lin([(xl, y), (yl, x)], -xl * yl)))
        A.append('(>= %s %s)' % (s, lin([(xh, y), (yh, x)], -xh * yh)))
        A.append('(<= %s %s)' % (s, lin([(xh, y), (yl, x)], -xh * yl)))
        A.append('(<= %s %s)' % (s, lin([(xl, y), (yh, x)], -xl * yh)))
        if self.exact:
            A.append('(= %s (* %s %s))' % (s, x, y))
        if not self.lem_depth:
            self.lem_depth += 1
            for lem in tm.LEMMAS.get(m, ()):
                self.asserts.append('(>= %s 0)' % self.poly(lem))
            self.lem_depth -= 1
        return s

    def poly(self, p):
        p = self.subst(p)
        return lin([(c, self.mono(m)) for m, c in p.items() if m != ()], p.get((), 0))

    def boolean(self, t):
        """SMT Bool for the 0/1 term t"""
        if t.__class__ is int:
            return 'true' if t else 'false'
        op = t.op
        if op == 'and':
            return '(and %s %s)' % (self.boolean(t.a[0]), self.boolean(t.a[1]))
        if op == 'or':
            return '(or %s %s)' % (self.boolean(t.a[0]), self.boolean(t.a[1]))
        if op == 'not':
            return '(not %s)' % self.boolean(t.a[0])
        if op == 'ite':
            return '(ite %s %s %s)' % tuple(self.boolean(x) for x in t.a)
        if op == 'id':
            return self.boolean(t.a[0])
        p = self.subst(t.p)
        if len(p) == 1 and () in p:
            return 'true' if p[()] >= 1 else 'false'
        if not p:
            return 'false'
        return '(>= %s 1)' % self.poly(t.p)

    def expand(self, i):
        if i in self.expanded or i in self.fixed and ATOMS[i].kind not in ('ge', 'eq', 'bdef'):
            return
        self.expanded.add(i)
        a = ATOMS[i]
        k = a.kind
        A = self.asserts
        x = num(self.fixed[i]) if i in self.fixed else self.atom(i)
        if k == 'floor':
            e = self.poly(psub(a.p, {(i,): a.m}))
            A.append('(and (<= 0 %s) (<= %s %d))' % (e, e, a.m - 1))
        elif k == 'ge':
            l, h = a.t
            if i in self.fixed:
                e = self.poly(a.p)
                A.append('(>= %s 0)' % e if self.fixed[i] else '(<= %s (- 1))' % e)
            else:
                # b=1 -> p>=0 ; b=0 -> p<=-1, as big-M rows with exact bounds
                A.append('(>= %s 0)' % self.poly(padd(a.p, {(): -l, (i,): l})))
                A.append('(<= %s 0)' % self.poly(padd(a.p, {(): 1, (i,): -(h + 1)})))
        elif k == 'eq':
            e = self.poly(a.p)
            if i in self.fixed:
                A.append('(= %s 0)' % e if self.fixed[i] else '(not (= %s 0))' % e)
            else:
                A.append('(= (= %s 0) (= %s 1))' % (e, x))
        elif k == 'div':
            d = a.m
            pr = pmul({(i,): 1}, d.p)
            e = self.poly(psub(a.p, pr))
            e2 = self.poly(paddc(psub(padd(d.p, pr), a.p), -1))
            if d.lo >= 1:
                A.append('(and (<= 0 %s) (<= 0 %s))' % (e, e2))
            else:
                A.append('(=> (>= %s 1) (and (<= 0 %s) (<= 0 %s)))' % (self.poly(d.p), e, e2))
        elif k == 'def':
            A.append('(= %s %s)' % (x, self.poly(a.p)))
        elif k == 'itedef':
            c, px, py = a.p
            A.append('(= %s (ite %s %s %s))' % (x, self.boolean(c), self.poly(px), self.poly(py)))
        elif k == 'bdef':
            t = a.t
            if t.op == 'xor':
                b = '(xor %s %s)' % (self.boolean(t.a[0]), self.boolean(t.a[1]))
            else:
                b = self.boolean(t)
            A.append('(= (= %s 1) %s)' % (x, b))
        elif k == 'opq':
            t = a.t
            p, q = t.a
            if t.op == 'and':
                A.append('(<= %s %s)' % (x, self.poly(P(p))))
                A.append('(<= %s %s)' % (x, self.poly(P(q))))
            else:
                A.append('(<= %s %s)' % (x, self.poly(padd(P(p), P(q)))))
                if t.op == 'or':
                    A.append('(>= %s %s)' % (x, self.poly(P(p))))
                    A.append('(>= %s %s)' % (x, self.poly(P(q))))

    def text(self):
        return '\n'.join(self.decl) + '\n' + '\n'.join('(assert %s)' % a for a in self.asserts)


def num(c):
    return str(c) if c >= 0 else '(- %d)' % -c


def lin(terms, c0):
    out = []
    for c, v in terms:
        if c == 0:
            continue
        if c == 1:
            out.append(v)
        else:
            out.append('(* %s %s)' % (num(c), v))
    if c0 or not out:
        out.append(num(c0))
    if len(out) == 1:
        return out[0]
    return '(+ ' + ' '.join(out) + ')'


def lit_atoms(t):
    """atoms occurring in the structure of a boolean term"""
    s = getattr(t, '_k2', None)
    return bool_atoms(t)


def bool_atoms(t, acc=None):
    if acc is None:
        acc = set()
    if t.__class__ is int:
        return acc
    if t.op in ('and', 'or', 'not', 'ite', 'id'):
        for x in t.a:
            bool_atoms(x, acc)
    else:
        acc |= atoms_of(t.p)
    return acc


_solver = None


_tactics = None


def _solvers():
    """preprocessing that eliminates equations first, then two settings of z3's arithmetic core"""
    global _tactics
    if _tactics is None:
        pre = ('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'propagate-values', 'solve-eqs')
        _tactics = (z3.Then(*pre, 'smt'), z3.Then(*pre, z3.With('smt', **{'arith.int_eq_branch': True, 'random_seed': 7})))
    return _tactics


def run_z3(text, timeout_ms, want_model, atoms=None):
    t0 = time.time()
    for k, tac in enumerate(_solvers()):
        s = tac.solver()
        s.set('timeout', max(50, int(timeout_ms * (0.4 if k == 0 else 0.6))))
        s.from_string(text)
        r = s.check()
        if r != z3.unknown:
            break
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    if dt > STATS.max_time:
        STATS.max_time = dt
    if r == z3.unsat:
        STATS.unsat += 1
        return 'unsat', None
    if r == z3.sat:
        STATS.sat += 1
        model = None
        if want_model:
            mm = s.model()
            model = {}
            for d in mm.decls():
                n = d.name()
                if n[0] == 'a':
                    model[int(n[1:])] = mm[d].as_long()
        return 'sat', model
    STATS.unknown += 1
    return 'unknown', None


DUMP = None
bv_ms = 5000


def query(goal, pc, timeout_ms=4000, levels=(0, 1, 2, 3, 5, 9, 1000), want_model=False,
          final_timeout_ms=None, extra=(), fix=None, exact=False):
    """Satisfiability of conj(goal) /\\ conj(pc); goal, pc: lists of (T, bool).

    Returns (status, model).  'unsat' is definitive, 'sat'/'unknown' are not (abstraction)."""
    goal = [(t, v) for t, v in goal if not (t.__class__ is int and bool(t) == bool(v))]
    for t, v in goal:
        if t.__class__ is int:
            STATS.trivial += 1
            return 'unsat', None
    if bv.ENABLED and not fix:
        st, model = bv.query(goal, pc, max(timeout_ms, final_timeout_ms or 0, bv_ms), STATS)
        if st != 'unknown':
            return st, model
    fixed = dict(fix) if fix else {}
    for t, v in list(pc) + goal:
        f = lit_poly_fix(t, v)
        if f:
            if fixed.get(f[0], f[1]) != f[1]:
                STATS.trivial += 1
                return 'unsat', None
            fixed[f[0]] = f[1]
    enc = Enc(fixed, exact)
    for t, v in goal:
        b = enc.boolean(t)
        enc.asserts.append(b if v else '(not %s)' % b)
        # a fixed literal substitutes itself away: make sure its definition is present
        f = lit_poly_fix(t, v)
        if f:
            enc.expand(f[0])
    for e in extra:
        enc.asserts.append('(>= %s 0)' % enc.poly(e))
    rest = [(t, v, bool_atoms(t)) for t, v in pc]
    done = 0
    last = None
    for li, lev in enumerate(levels):
        while done < lev:
            done += 1
            pend, enc.pending = enc.pending, []
            nr = []
            added = False
            for t, v, at in rest:
                # a path literal joins when one of its atoms (or of its definition) is known
                f = lit_poly_fix(t, v)
                if f:
                    a = ATOMS[f[0]]
                    deps = atoms_of(a.p) if a.kind in ('ge', 'eq') else at
                    if deps & enc.known or lev >= 1000:
                        enc.expand(f[0])
                        added = True
                        continue
                elif at & enc.known or lev >= 1000:
                    b = enc.boolean(t)
                    enc.asserts.append(b if v else '(not %s)' % b)
                    added = True
                    continue
                nr.append((t, v, at))
            rest = nr
            for i in pend:
                enc.expand(i)
            if not pend and not added:
                done = 1000
                break
        final = done >= 1000 or li == len(levels) - 1
        to = final_timeout_ms if final and final_timeout_ms else timeout_ms
        txt = enc.text()
        if DUMP:
            open(DUMP, 'w').write(txt + '\n(check-sat)\n')
        st, model = run_z3(txt, to, want_model and final)
        if model is not None:
            for i, v in fixed.items():
                model.setdefault(i, v)
        if st == 'unsat':
            return 'unsat', None
        last = (st, model)
        if final:
            break
    return last


def prove_identity(lhs, rhs):
    """lhs and rhs have the same normal form; have the solver confirm that they are equal for
    every value of their monomials (each monomial a free integer)"""
    names = {}

    def lin2(p):
        ts = []
        for m, c in p.items():
            if m == ():
                continue
            if m not in names:
                names[m] = 'm%d' % len(names)
            ts.append((c, names[m]))
        return lin(ts, p.get((), 0))
    a, b = lin2(lhs), lin2(rhs)
    txt = '\n'.join('(declare-const %s Int)' % n for n in names.values()) + '\n(assert (not (= %s %s)))' % (a, b)
    st, _ = run_z3(txt, 10000, False)
    if st != 'unsat':
        raise RuntimeError('identity not confirmed by the solver')
    return True


def confirm_zero(d):
    """the solver confirms d == 0 (interval arithmetic says so)"""
    for p in (d, pscale(d, -1)):
        if query([(T(1, p, 0, 1, 'cmp', ()), True)], [], final_timeout_ms=20000)[0] != 'unsat':
            return False
    return True


def prove_reciprocal(k, m, d, hi):
    txt = """(declare-const n Int)(declare-const q Int)(declare-const r Int)
(assert (and (<= 0 n) (<= n %d)))
(assert (and (<= (* %d q) (* %d n)) (< (* %d n) (+ (* %d q) %d))))
(assert (and (<= (* %d r) n) (< n (+ (* %d r) %d))))
(assert (not (= q r)))""" % (hi, m, k, k, m, m, d, d, d)
    return run_z3(txt, 10000, False)[0] == 'unsat'


tm.RECIP_PROVE = prove_reciprocal
