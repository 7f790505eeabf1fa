"""Harness layer: symbolic operands, obligations, counterexample search, native replay."""
import ctypes
import os
import random
import resource
import signal
import sys
import time
import terms as tm
from terms import T, P, LO, HI, ATOMS, padd, psub, pscale, pmul, paddc, pconst
import solver
import llparse
import execu
from execu import State, Exec, Obj, MemErr, Budget
from terms import Unsupported

TAGS = {
    'b8': (8, 1 << 8), 'b16': (16, 1 << 16), 'b32': (32, 1 << 32), 'b64': (64, 1 << 64),
    'd8': (8, 100), 'd16': (16, 10 ** 4), 'd32': (32, 10 ** 9), 'd64': (64, 10 ** 19),
}
CT = {8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}
ERR = (1 << 64) - 1


class Inconclusive(Exception):
    pass


# ------------------------------------------------------------------ native side
_lib = {}


def native(so):
    l = _lib.get(so)
    if l is None:
        l = _lib[so] = ctypes.CDLL(so)
    return l


def in_child(fn, timeout=20):
    """run fn() in a forked child: ('ok', value) | ('panic', None) | ('hang', None)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 2)
            signal.alarm(0)
            lim = (int(open('/proc/self/statm').read().split()[0]) << 12) + (1 << 31)
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
            v = repr(fn()).encode()
            while v:
                n = os.write(w, v)
                v = v[n:]
            os._exit(0)
        except BaseException:
            os._exit(77)
    os.close(w)
    buf = b''
    t0 = time.time()
    import select
    hang = False
    while True:
        rr, _, _ = select.select([r], [], [], max(0, timeout - (time.time() - t0)))
        if not rr:
            hang = True
            os.kill(pid, signal.SIGKILL)
            break
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    _, stt = os.waitpid(pid, 0)
    if hang:
        return 'hang', None
    if os.WIFSIGNALED(stt):
        return 'panic', os.WTERMSIG(stt)
    if os.WEXITSTATUS(stt):
        return 'error', os.WEXITSTATUS(stt)
    return 'ok', eval(buf.decode())


def to_digits(v, base):
    out = []
    while v:
        v, r = divmod(v, base)
        out.append(r)
    return out


def from_digits(ds, base):
    v = 0
    for d in reversed(ds):
        v = v * base + d
    return v


def ncall(so, name, args):
    """args: int | ('in', w, [..]) | ('out', w, n); returns (ret, [out arrays])"""
    f = getattr(native(so), name)
    f.restype = ctypes.c_uint64
    ca, outs = [], []
    for a in args:
        if isinstance(a, tuple):
            if a[0] == 'int':
                ca.append(CT[a[1]](a[2]))
            elif a[0] == 'in':
                arr = (CT[a[1]] * max(1, len(a[2])))(*a[2])
                ca.append(arr)
            else:
                arr = (CT[a[1]] * max(1, a[2]))()
                outs.append(arr)
                ca.append(arr)
        else:
            ca.append(ctypes.c_uint64(a))
    r = f(*ca)
    return r, [list(o) for o in outs]


# ------------------------------------------------------------------ symbolic side
class Ctx:
    """one unit of work: one harness entry with fixed sizes, everything else symbolic"""

    def __init__(self, prog, so, deadline, merge=True, seed=1):
        self.prog, self.so, self.deadline = prog, so, deadline
        self.x = Exec(prog, deadline, merge)
        self.S = State(self.x)
        self.x.S0 = self.S
        self.groups = []          # operand groups (lists of var atom ids), for counterexample search
        self.inputs = {}          # name -> list of terms / term
        self.oblig = 0
        self.cex = []             # candidate violations that could not be decided
        self.replay_fn = None     # env -> None | message  (native check of the property)
        self.final_ms = 20000
        self.quick_ms = 4000
        self.unknown = []
        self.violation = None
        self.seed = seed
        self.validated = 0
        self.pre = []             # assumptions
        self.samples = []
        self.nodes = 0
        self.envs = None
        self.nsamples = 48

    def num(self, name, n, tag, lo=None, hi=None):
        """n symbolic digits, least significant first; the top digit is nonzero"""
        w, base = TAGS[tag]
        ds = []
        for i in range(n):
            l, h = 0, base - 1
            if i == n - 1:
                l = 1 if lo is None else lo
                h = h if hi is None else hi
            ds.append(tm.var('%s%d' % (name, i), w, l, h))
        self.inputs[name] = ds
        self.groups.append([d.p for d in ds if d.__class__ is T])
        return ds

    def scalar(self, name, w, lo=0, hi=None):
        v = tm.var(name, w, lo, hi)
        self.inputs[name] = v
        if v.__class__ is T:
            self.groups.append([v.p])
        return v

    def buf(self, ds, w):
        """input array"""
        sz = w // 8
        p = self.S.new(max(1, len(ds)) * sz, 'h')
        o = self.S.mem[p >> 32]
        for i, d in enumerate(ds):
            o.cells[i * sz] = (d, sz)
        return p

    def out(self, n, w):
        return self.S.new(max(1, n) * (w // 8), 'h')

    def assume(self, t, val=True):
        if t.__class__ is int:
            if bool(t) != bool(val):
                raise Inconclusive('assumption is never met')
            return
        self.pre.append((t, bool(val)))
        self.S.add(t, val)

    def run(self, name, args, S=None):
        try:
            return self.run2(name, args, S or self.S)
        except Budget as e:
            self.cut_off(str(e))
            raise Inconclusive('budget: %s' % e)
        except Unsupported as e:
            raise Inconclusive('unsupported: %s' % e)
        except llparse.ParseError as e:
            raise Inconclusive('parse: %s' % e)

    def cut_off(self, why):
        """a path ran into the step, time or call depth bound: an input on it is run natively, so
        that a path that does not end at all is reported"""
        S = self.x.cur
        if S is None or not self.replay_fn:
            return
        env = S.wit[0] if S.wit else None
        if env is None:
            try:
                st, model = solver.query([], S.pclist(), timeout_ms=2000, want_model=True, final_timeout_ms=2000)
                env = self.try_model(model, [], S.pclist()) if model else None
            except Exception:
                env = None
        if env is not None:
            inp = self.env_inputs(env)
            msg = self.replay_fn(inp)
            if msg:
                raise Violation(dict(desc='path that exceeds the bound (%s)' % why, inputs=inp, native=msg))

    def sample_inputs(self, n):
        """concrete inputs that satisfy the assumptions: they decide which branches are
        feasible without a solver call (a side no sample takes is still decided by the solver)"""
        if self.envs is not None:
            return self.envs
        gs = [[m[0] for p in g for m in p if m != ()] for g in self.groups]
        vs = [ATOMS[i] for i in sorted({i for g in gs for i in g})]
        rnd = random.Random('samples%s' % self.seed)
        out = []
        seen = set()
        for k in range(8 * n):
            if len(out) >= n:
                break
            env = {}
            mode = k % 5
            for a in vs:
                if mode == 0 or mode == 1 and rnd.random() < 0.5:
                    v = rnd.randint(a.lo, a.hi)
                elif mode in (3, 4):
                    v = rnd.choice([a.lo, a.hi, a.lo, a.hi, a.lo + 1, a.hi - 1])
                else:
                    v = rnd.choice([a.lo, a.hi, (a.lo + a.hi) // 2, (a.lo + a.hi + 1) // 2, min(a.hi, a.lo + 1), max(a.lo, a.hi - 1),
                                    rnd.randint(a.lo, a.hi), min(a.hi, a.lo + rnd.randint(0, 12))])
                env[a.id] = min(max(v, a.lo), a.hi)
            if mode in (1, 4) and vs and rnd.random() < 0.7:
                # related digits: copies, or off by one, within and across operands
                for _ in range(rnd.randint(1, 3)):
                    x, y = rnd.choice(vs), rnd.choice(vs)
                    v = env[x.id] + rnd.choice([0, 0, 1, -1])
                    env[y.id] = min(max(v, y.lo), y.hi)
            t = tuple(env.values())
            if t in seen:
                continue
            seen.add(t)
            if all(bool(tm.eval_t(t, env)) == v for t, v in self.pre):
                out.append(env)
        self.envs = out
        return out

    def run2(self, name, args, S):
        self.x.groups = self.groups
        vs = {m[0] for g in self.groups for q in g for m in q if m != ()}
        solver.bv.setup(sum((ATOMS[i].hi - ATOMS[i].lo).bit_length() for i in vs))
        S.wit = [e for e in self.sample_inputs(self.nsamples) if all(bool(tm.eval_t(t, e)) == bool(v) for t, v in S.pclist())]
        rs = self.x.run(name, args, S)
        out = []
        for S, r in rs:
            if r.__class__ is T:
                for s in self.x.concretize(S, tm.NeedConcrete('val', r, 64)):
                    out.append((s, s.conc[r.key()]))
            else:
                out.append((S, r))
        return out

    def read(self, S, p, n, w):
        sz = w // 8
        return [execu.ld(S, p + i * sz, sz, w) for i in range(n)]

    # -------------------------------------------------------------- deciding
    def env_inputs(self, env):
        def g(x):
            return tm.eval_t(x, env)
        return {k: ([g(d) for d in v] if isinstance(v, list) else g(v)) for k, v in self.inputs.items()}

    def try_model(self, model, goal, pc):
        env = {i: v for i, v in model.items() if ATOMS[i].kind == 'var'}
        for i, v in env.items():
            a = ATOMS[i]
            if not a.lo <= v <= a.hi:
                return None
        for t, v in list(pc) + list(goal):
            if bool(tm.eval_t(t, env)) != bool(v):
                return None
        return env

    def refute(self, goal, pc, extra=()):
        """('proved', None) | ('cex', env) | ('unknown', reason)"""
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive('time')
        st, model = solver.query(goal, pc, timeout_ms=self.quick_ms, want_model=True, final_timeout_ms=self.final_ms, extra=extra)
        if st == 'unsat':
            return 'proved', None
        if model is not None:
            env = self.try_model(model, goal, pc)
            if env is not None:
                return 'cex', env
        # bind operands one group at a time: everything becomes linear
        rnd = random.Random(12345)
        tries = 0
        order = sorted(range(len(self.groups)), key=lambda k: len(self.groups[k]))
        for rounds in range(6):
            for gi in order:
                fix = {}
                for p in self.groups[gi]:
                    for m in p:
                        if m == ():
                            continue
                        a = ATOMS[m[0]]
                        if rounds == 0 and model is not None and m[0] in model:
                            v = model[m[0]]
                        else:
                            v = rnd.choice([a.lo, a.hi, a.hi, (a.lo + a.hi + 1) // 2, (a.hi + 1) // 2 + 1, a.lo + 1, a.hi - 1, rnd.randint(a.lo, a.hi)])
                        fix[m[0]] = min(max(v, a.lo), a.hi)
                if not fix:
                    continue
                if self.deadline and time.time() > self.deadline:
                    return 'unknown', 'time'
                tries += 1
                s2, m2 = solver.query(goal, pc, timeout_ms=2000, want_model=True, levels=(3, 1000), fix=fix, final_timeout_ms=5000)
                if s2 == 'unsat' or m2 is None:
                    continue
                m2.update(fix)
                env = self.try_model(m2, goal, pc)
                if env is not None:
                    return 'cex', env
        s3, m3 = solver.query(goal, pc, timeout_ms=10000, want_model=True, levels=(1000,), exact=True, final_timeout_ms=20000)
        if s3 == 'unsat':
            return 'proved', None
        if m3 is not None:
            env = self.try_model(m3, goal, pc)
            if env is not None:
                return 'cex', env
        return 'unknown', 'solver could not decide (%s)' % st

    def require(self, S, t, desc, val=True):
        """obligation: on every completion described by S, t == val"""
        self.oblig += 1
        if t.__class__ is int:
            if bool(t) == bool(val):
                solver.STATS.trivial += 1
                return True
            # false on this path: the path must be infeasible
            goal = []
            pc = S if isinstance(S, list) else S.pclist()
            return self._decide(goal, pc, desc)
        pc = S if isinstance(S, list) else S.pclist()
        return self._decide([(t, not val)], pc, desc)

    def never(self, pc, desc):
        """obligation: the path is infeasible"""
        self.oblig += 1
        return self._decide([], pc, desc)

    def _decide(self, goal, pc, desc, extra=()):
        if not goal:
            # satisfiability of the path condition itself
            goal = pc[-1:] if pc else []
            pc = pc[:-1]
        if not goal:
            st, env = 'cex', {}
        else:
            st, env = self.refute(goal, pc, extra)
        if st == 'proved':
            return True
        if st == 'cex':
            inp = self.env_inputs(env)
            msg = self.replay_fn(inp) if self.replay_fn else 'no replay'
            if msg:
                self.violation = dict(desc=desc, inputs={k: v for k, v in inp.items()}, native=msg)
                raise Violation(self.violation)
            self.unknown.append('%s: model %r does not reproduce natively' % (desc, inp))
            return False
        self.unknown.append('%s: %s' % (desc, env))
        return False

    def require_eq(self, S, lhs, rhs, desc, extra=()):
        """lhs, rhs polynomials over exact integers"""
        d = psub(lhs, rhs)
        self.oblig += 1
        pc = S.pclist()
        if not d:
            solver.prove_identity(lhs, rhs)
            return True
        e = tm.eq_poly(d)
        if len(e) == 1 and e.get(()) == 1:
            # equal by the ranges of the terms, not syntactically
            if solver.confirm_zero(d):
                return True
            raise RuntimeError('equal by intervals, not confirmed: %s' % desc)
        if not e:
            t = 0
        else:
            t = T(1, e, 0, 1, 'eqp', ())
        if t.__class__ is int:
            return self._decide([], pc, desc, extra)
        return self._decide([(t, False)], pc, desc, extra)


class Violation(Exception):
    pass


def bounds(ds):
    """what the registers holding ds can hold at most, as polynomials >= 0"""
    out = []
    for d in ds:
        if d.__class__ is T:
            out.append(paddc(d.p, -d.lo))
            out.append(paddc(pscale(d.p, -1), d.hi))
    return out


def vpoly(ds, base):
    p = {}
    k = 1
    for d in ds:
        p = padd(p, pscale(P(d), k))
        k *= base
    return p


def bterm(p):
    """1-bit term from a 0/1 polynomial"""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return T(1, p, 0, 1, 'cmp', ())


def lt_poly(a, b):
    """[a < b] for polynomials"""
    return bterm(tm.ge_poly(paddc(psub(b, a), -1)))


def require_canonical(c, S, ds, tag, what='result'):
    w, base = TAGS[tag]
    for i, d in enumerate(ds):
        if base != 1 << w:
            c.require(S, tm.t_ult(d, base, w), '%s digit %d below the radix' % (what, i))
    if ds:
        c.require(S, tm.t_ne(ds[-1], 0, w), '%s has no leading zero digit' % what)


def canon_native(ds, tag):
    w, base = TAGS[tag]
    if any(d >= base for d in ds):
        return 'digit not below the radix'
    if ds and ds[-1] == 0:
        return 'leading zero digit'
    return None
