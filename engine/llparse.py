"""Textual LLVM IR -> executable form (one Python function per straight-line segment).

Functions are located with one scan of the file and translated lazily, block by block.
Nothing here knows about the code under test: it is a generic (integer + memory) IR reader.
"""
import re
import terms as tm

TOK = re.compile(r'''\s*(%"[^"]*"|%[-\w$.]+|@"[^"]*"|@[-\w$.]+|c"[^"]*"|"[^"]*"|!"[^"]*"|![\w.]*|\#\d+|-?\d+|[A-Za-z_][\w.]*|\.\.\.|0x[0-9A-Fa-f]+|[\[\]{}()<>,=*:|;])''')


def toks(s):
    out = []
    i = 0
    n = len(s)
    m = TOK.match(s, i)
    while m:
        t = m.group(1)
        if t == ';':
            break
        out.append(t)
        i = m.end()
        m = TOK.match(s, i)
    return out


# types: ('i', n) | ('ptr',) | ('void',) | ('arr', n, t) | ('st', (t...), packed) | ('vec', n, t) | ('other', s)
PTR = ('ptr',)
VOID = ('void',)
_it = {}


def ity(n):
    t = _it.get(n)
    if t is None:
        t = _it[n] = ('i', n)
    return t


class ParseError(Exception):
    pass


class TS:
    """token stream"""

    def __init__(self, tk, mod):
        self.t, self.i, self.mod = tk, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise ParseError('expected %s at %s' % (x, ' '.join(self.t[max(0, self.i - 6):self.i + 6])))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            t = self.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1

    def type(self):
        t = self.next()
        if t[0] == 'i' and t[1:].isdigit():
            return ity(int(t[1:]))
        if t == 'ptr':
            if self.eat('addrspace'):
                self.skip_parens()
            return PTR
        if t == 'void':
            return VOID
        if t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            return ('arr', n, e)
        if t == '<':
            if self.peek() == '{':
                r = self.type()
                self.expect('>')
                return ('st', r[1], True)
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            return ('vec', n, e)
        if t == '{':
            fs = []
            if not self.eat('}'):
                fs.append(self.type())
                while self.eat(','):
                    fs.append(self.type())
                self.expect('}')
            return ('st', tuple(fs), False)
        if t[0] == '%':
            return self.mod.named_type(t)
        if t in ('float', 'double', 'half', 'fp128', 'label', 'metadata', 'token', 'x86_fp80'):
            return ('other', t)
        raise ParseError('type %s' % t)

    def attrs(self):
        """skip parameter/return attributes"""
        while True:
            t = self.peek()
            if t is None:
                return
            if t == 'align':
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.next()
            elif t[0] == '"':
                self.next()
                if self.eat('='):
                    self.next()
            elif t in ATTR:
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
            else:
                return


ATTR = set('''zeroext signext noundef nonnull noalias readonly writeonly readnone nocapture captures
dereferenceable dereferenceable_or_null range returned sret byval inreg immarg allocptr allocalign
initializes dead_on_unwind dead_on_return writable nofree noreturn nounwind inrange nofpclass swiftself nest swifterror
byref preallocated elementtype allocsize'''.split())


def align_up(x, a):
    return (x + a - 1) // a * a


def t_align(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        p = 1
        while p < b:
            p *= 2
        return min(p, 16)
    if k == 'ptr':
        return 8
    if k == 'arr':
        return t_align(t[2])
    if k == 'vec':
        return min(16, max(1, t_size(t)))
    if k == 'st':
        return 1 if t[2] else max([t_align(x) for x in t[1]] or [1])
    raise ParseError('align of %r' % (t,))


def t_size(t):
    k = t[0]
    if k == 'i':
        return align_up((t[1] + 7) // 8, t_align(t))
    if k == 'ptr':
        return 8
    if k in ('arr', 'vec'):
        return t[1] * t_size(t[2])
    if k == 'st':
        o = 0
        for x in t[1]:
            if not t[2]:
                o = align_up(o, t_align(x))
            o += t_size(x)
        return o if t[2] else align_up(o, t_align(t))
    raise ParseError('size of %r' % (t,))


def f_off(t, i):
    o = 0
    for j, x in enumerate(t[1]):
        if not t[2]:
            o = align_up(o, t_align(x))
        if j == i:
            return o
        o += t_size(x)
    raise ParseError('field')


def bits(t):
    return t[1] if t[0] == 'i' else 64


def zero_of(t):
    k = t[0]
    if k in ('i', 'ptr'):
        return 0
    if k == 'st':
        return tuple(zero_of(x) for x in t[1])
    if k in ('arr', 'vec'):
        return tuple(zero_of(t[2]) for _ in range(t[1]))
    return 0


DEF = re.compile(r'^define [^@]*(@"[^"]*"|@[-\w$.]+)\(', re.M)
GLOB = re.compile(r'^(@"[^"]*"|@[-\w$.]+) = (.*)$', re.M)
DECL = re.compile(r'^declare [^@]*?(@"[^"]*"|@[-\w$.]+)\((.*)$', re.M)
ATTRGRP = re.compile(r'^attributes #(\d+) = \{(.*)\}', re.M)
NAMED = re.compile(r'^(%"[^"]*"|%[-\w$.]+) = type (.*)$', re.M)
LABEL = re.compile(r'^("[^"]*"|[-\w$.]+):')


class Module:
    def __init__(self, text, name):
        self.name = name
        self.text = text
        self.defs = {}
        self.globs = {}
        self.decls = {}
        self.groups = {}
        self.types = {}
        for m in ATTRGRP.finditer(text):
            self.groups[m.group(1)] = m.group(2)
        for m in DEF.finditer(text):
            self.defs[m.group(1)[1:].strip('"')] = m.start()
        for m in GLOB.finditer(text):
            self.globs[m.group(1)[1:].strip('"')] = m.group(2)
        for m in DECL.finditer(text):
            self.decls[m.group(1)[1:].strip('"')] = m.group(2)
        for m in NAMED.finditer(text):
            self.types[m.group(1)] = m.group(2)
        self._fn = {}

    def named_type(self, n):
        t = self.types[n]
        if isinstance(t, str):
            t = self.types[n] = TS(toks(t), self).type() if t != 'opaque' else ('st', (), False)
        return t

    def noreturn_decl(self, n):
        d = self.decls.get(n)
        return d is not None and self.line_noreturn(d)

    def line_noreturn(self, line):
        if re.search(r'\bnoreturn\b', line):
            return True
        for g in re.findall(r'#(\d+)', line):
            if re.search(r'\bnoreturn\b', self.groups.get(g, '')):
                return True
        return False


class Seg:
    __slots__ = ('code', 'ctl', 'n', 'fn', 'src')

    def __init__(self):
        self.code = None
        self.ctl = None
        self.n = 0


class Block:
    __slots__ = ('name', 'idx', 'lines', 'segs', 'phis', 'phisrc', 'succs', 'uses', 'defs', 'livein', 'ipdom', 'phidst',
                 'term')


class Fn:
    """a parsed function"""

    def __init__(self, prog, mod, name, pos):
        self.prog, self.mod, self.name = prog, mod, name
        text = mod.text
        end = text.index('\n}', pos)
        body = text[pos:end]
        lines = body.split('\n')
        hdr = lines[0]
        self.noreturn = mod.line_noreturn(hdr)
        ts = TS(toks(hdr), mod)
        # parameters
        nm = '@' + name
        while ts.peek() not in (nm, '@"%s"' % name):
            ts.next()
        # return type: search backwards is awkward; parse it from the front
        ts.next()
        ts.expect('(')
        self.regs = {}
        self.params = []
        if not ts.eat(')'):
            while True:
                if ts.eat('...'):
                    break
                ty = ts.type()
                ts.attrs()
                if ts.peek() and ts.peek()[0] == '%':
                    v = ts.next()
                else:
                    v = '%' + str(len(self.params))
                self.params.append((self.reg(v), ty))
                if not ts.eat(','):
                    break
        self.blocks = {}
        self.order = []
        cur = None
        acc = None
        for ln in lines[1:]:
            if not ln:
                continue
            if ln[0] not in ' \t':
                m = LABEL.match(ln)
                if m:
                    cur = self._block('%' + m.group(1))
                    continue
                if ln[0] == ';':
                    continue
                raise ParseError(ln)
            s = ln.strip()
            if not s or s[0] == ';' or s.startswith('#dbg'):
                continue
            if cur is None:
                cur = self._block('%' + str(len(self.params)))
            if acc is not None:
                acc.append(s)
                if s[0] == ']':
                    cur.lines.append(' '.join(acc))
                    acc = None
                continue
            if s.startswith('switch ') and not s.endswith(']'):
                acc = [s]
                continue
            if cur.lines and (s.startswith('to label') or s.startswith('cleanup') or s.startswith('catch ') or s.startswith('filter ')):
                cur.lines[-1] += ' ' + s
                continue
            cur.lines.append(s)
        self._cfg()

    def reg(self, n):
        if n[1] == '"':
            n = '%' + n[2:-1]
        r = self.regs.get(n)
        if r is None:
            r = self.regs[n] = len(self.regs)
        return r

    def _block(self, name):
        if name[1] == '"':
            name = '%' + name[2:-1]
        b = Block()
        b.name, b.idx, b.lines, b.segs = name, len(self.order), [], None
        b.phis = b.phisrc = None
        self.blocks[name] = b
        self.order.append(b)
        return b

    def lab(self, t):
        if t[1] == '"':
            t = '%' + t[2:-1]
        return self.blocks[t]

    VAL = re.compile(r'%"[^"]*"|%[-\w$.]+')

    def _cfg(self):
        norm = lambda x: '%' + x[2:-1] if x[1] == '"' else x
        defs = set(self.regs)
        for b in self.order:
            for s in b.lines:
                if s[0] == '%':
                    defs.add(norm(s[:s.index(' = ')].strip()))
        for b in self.order:
            t = b.lines[-1]
            labs = [norm(x) for x in re.findall(r'label (%"[^"]*"|%[-\w$.]+)', t)]
            if ' invoke ' in ' ' + t:
                labs = labs[:1]
            b.succs = [self.blocks[x] for x in labs]
            b.uses, b.defs = set(), set()
            b.phisrc = []
            b.phidst = []
            for s in b.lines:
                d = None
                if s[0] == '%':
                    k = s.index(' = ')
                    d = norm(s[:k].strip())
                    rhs = s[k + 3:]
                else:
                    rhs = s
                if rhs.startswith('phi '):
                    b.phisrc.append((d, rhs))
                    b.phidst.append(d)
                    b.defs.add(d)
                    continue
                for u in self.VAL.findall(rhs):
                    u = norm(u)
                    if u in defs and u not in b.defs:
                        b.uses.add(u)
                if d:
                    b.defs.add(d)
        # phi operands
        for b in self.order:
            b.phis = {}
            for d, rhs in b.phisrc:
                for v, l in re.findall(r'\[ (.*?), (%"[^"]*"|%[-\w$.]+) \]', rhs):
                    b.phis.setdefault(norm(l), []).append((d, v))
        # liveness (names)
        livein = {b.idx: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                out = set()
                for s in b.succs:
                    out |= livein[s.idx]
                    for d, v in s.phis.get(b.name, ()):
                        if v[0] == '%':
                            out.add(norm(v))
                li = b.uses | (out - b.defs)
                li -= set(b.phidst)
                if li != livein[b.idx]:
                    livein[b.idx] = li
                    ch = True
        for b in self.order:
            # registers that matter once the phis of b have been assigned
            used = set(b.phidst)
            out = livein[b.idx] | used
            b.livein = sorted(self.reg(x) for x in out)
        # post-dominators among the blocks that can reach a ret
        n = len(self.order)
        preds = [[] for _ in range(n)]
        for b in self.order:
            for s in b.succs:
                preds[s.idx].append(b.idx)
        reach = set()
        st = [b.idx for b in self.order if re.match(r'ret\b', b.lines[-1])]
        exits = set(st)
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st.extend(preds[x])
        EX = n
        # reverse postorder on the reverse graph
        seen = set()
        order = []

        def dfs(x):
            stack = [(x, iter(preds[x] if x != EX else sorted(exits)))]
            seen.add(x)
            while stack:
                y, it = stack[-1]
                for p in it:
                    if p in reach and p not in seen:
                        seen.add(p)
                        stack.append((p, iter(preds[p])))
                        break
                else:
                    order.append(y)
                    stack.pop()
        dfs(EX)
        num = {x: i for i, x in enumerate(order)}
        idom = {EX: EX}
        ch = True
        while ch:
            ch = False
            for x in reversed(order):
                if x == EX:
                    continue
                new = None
                ss = [s.idx for s in self.order[x].succs if s.idx in reach]
                if x in exits:
                    ss = [EX]
                for s in ss:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            a, b2 = new, s
                            while a != b2:
                                while num[a] < num[b2]:
                                    a = idom[a]
                                while num[b2] < num[a]:
                                    b2 = idom[b2]
                            new = a
                if new is not None and idom.get(x) != new:
                    idom[x] = new
                    ch = True
        for b in self.order:
            d = idom.get(b.idx)
            b.ipdom = None if d is None or d == EX else self.order[d]

    # ------------------------------------------------------------ operands
    def operand(self, ts, ty):
        """python expression for a value of type ty"""
        t = ts.next()
        if t[0] == '%':
            return 'R[%d]' % self.reg(t)
        return repr(self.prog.const(ts, ty, t, self.mod))

    # ------------------------------------------------------------ codegen
    def segments(self, b):
        if b.segs is None:
            self._gen(b)
        return b.segs

    def _gen(self, b):
        segs = []
        code = []
        n = 0

        def flush(ctl):
            nonlocal code, n
            sg = Seg()
            sg.ctl = ctl
            sg.n = n
            sg.src = None
            if code:
                src = 'def f(R, S):\n' + '\n'.join('    ' + c for c in code)
                env = self.prog.env
                loc = {}
                exec(compile(src, '%s:%s' % (self.name[-60:], b.name), 'exec'), env, loc)
                sg.code = loc['f']
                sg.src = src
            segs.append(sg)
            code = []
            n = 0
        for s in b.lines:
            n += 1
            d = None
            if s[0] == '%':
                k = s.index(' = ')
                d = self.reg(s[:k].strip())
                rhs = s[k + 3:]
            else:
                rhs = s
            if rhs.startswith('phi '):
                continue
            # instruction metadata
            ts = TS(toks(rhs), self.mod)
            try:
                self._ins(ts, d, code, flush, rhs)
            except ParseError as e:
                code.append('raise Unsupported(%r)' % ('%s: %s' % (e, s[:160])))
            except (IndexError, KeyError, ValueError) as e:
                code.append('raise Unsupported(%r)' % ('parse %r: %s' % (e, s[:160])))
        if code:
            flush(('unsupported', 'block without terminator'))
        b.segs = segs

    def edge(self, b, succ):
        """phi assignments along b->succ as list of (dst, expr) compiled"""
        raise NotImplementedError

    def _ins(self, ts, d, code, flush, rhs):
        op = ts.next()
        D = 'R[%s]' % d
        if op in ('tail', 'musttail', 'notail'):
            op = ts.next()
        if op in BIN:
            while ts.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl = ts.next()
                if fl == 'disjoint':
                    op = 'ordisj'
            ty = ts.type()
            if ty[0] == 'vec':
                a = self.operand(ts, ty)
                ts.expect(',')
                b = self.operand(ts, ty)
                w = bits(ty[2])
                fast = BIN[op].replace('W', str(w)).replace('MASK', str((1 << w) - 1))
                code.append('%s = vbin(lambda a, b, w: %s if a.__class__ is b.__class__ is int else %s(a, b, w), %d, %s, %s, %d, %d)' % (
                    D, fast, SLOW[op], op in ('and', 'or', 'ordisj', 'xor'), a, b, ty[1], w))
                return
            w = bits(ty)
            a = self.operand(ts, ty)
            ts.expect(',')
            b = self.operand(ts, ty)
            fast = BIN[op].replace('W', str(w)).replace('MASK', str((1 << w) - 1))
            code.append('a = %s; b = %s' % (a, b))
            code.append('%s = %s if a.__class__ is b.__class__ is int else %s(a, b, %d)' % (D, fast, SLOW[op], w))
            return
        if op == 'icmp':
            while ts.peek() in ('samesign',):
                ts.next()
            pr = ts.next()
            ty = ts.type()
            vec = ty if ty[0] == 'vec' else None
            w = bits(ty[2] if vec else ty)
            a = self.operand(ts, ty)
            ts.expect(',')
            b = self.operand(ts, ty)
            if not vec:
                code.append('a = %s; b = %s' % (a, b))
            if pr in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge'):
                fast = {'eq': 'a == b', 'ne': 'a != b', 'ult': 'a < b', 'ule': 'a <= b', 'ugt': 'a > b', 'uge': 'a >= b'}[pr]
            else:
                h = 1 << (w - 1)
                fast = {'slt': '(a ^ %d) < (b ^ %d)', 'sle': '(a ^ %d) <= (b ^ %d)', 'sgt': '(a ^ %d) > (b ^ %d)',
                        'sge': '(a ^ %d) >= (b ^ %d)'}[pr] % (h, h)
            slow = {'eq': 't_eq(a, b, %d)', 'ne': 't_ne(a, b, %d)', 'ult': 't_ult(a, b, %d)', 'ule': 't_ule(a, b, %d)',
                    'ugt': 't_ult(b, a, %d)', 'uge': 't_ule(b, a, %d)', 'slt': 't_slt(a, b, %d)', 'sle': 't_sle(a, b, %d)',
                    'sgt': 't_slt(b, a, %d)', 'sge': 't_sle(b, a, %d)'}[pr] % w
            if vec:
                code.append('%s = vicmp(lambda a, b: (1 if %s else 0) if a.__class__ is b.__class__ is int else %s, %s, %s, %d, %d)' % (D, fast, slow, a, b, vec[1], w))
                return
            code.append('%s = (1 if %s else 0) if a.__class__ is b.__class__ is int else %s' % (D, fast, slow))
            return
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            while ts.peek() in ('nneg', 'nuw', 'nsw'):
                ts.next()
            ty = ts.type()
            a = self.operand(ts, ty)
            if op == 'freeze':
                code.append('%s = %s' % (D, a))
                return
            ts.expect('to')
            t2 = ts.type()
            if op == 'bitcast' and ty[0] == 'vec' and ty[2][0] == 'i':
                n, w = ty[1], bits(ty[2])
                if t2[0] == 'i':
                    code.append('%s = vbits(%s, %d, %d)' % (D, a, n, w))
                    return
                if t2[0] == 'vec' and t2[2][0] == 'i' and w >= 8 and bits(t2[2]) >= 8:
                    code.append('%s = vb(%s, %d, %d)' % (D, a, n, w))
                    return
            if op == 'bitcast' and ty[0] == 'i' and t2[0] == 'vec' and t2[2][0] == 'i' and bits(t2[2]) >= 8:
                code.append('%s = vsplit(%s, %d)' % (D, a, bits(ty)))
                return
            if ty[0] not in ('i', 'ptr') or t2[0] not in ('i', 'ptr'):
                raise ParseError('cast %r %r' % (ty, t2))
            w, w2 = bits(ty), bits(t2)
            if op == 'trunc' or w2 < w:
                code.append('a = %s; %s = a & %d if a.__class__ is int else t_trunc(a, %d, %d)' % (a, D, (1 << w2) - 1, w, w2))
            elif op == 'sext':
                code.append('%s = t_sext(%s, %d, %d)' % (D, a, w, w2))
            elif w2 > w:
                code.append('a = %s; %s = a if a.__class__ is int else t_zext(a, %d, %d)' % (a, D, w, w2))
            else:
                code.append('%s = %s' % (D, a))
            return
        if op == 'select':
            ty = ts.type()
            c = self.operand(ts, ty)
            ts.expect(',')
            t1 = ts.type()
            a = self.operand(ts, t1)
            ts.expect(',')
            t2 = ts.type()
            b = self.operand(ts, t2)
            code.append('c = %s' % c)
            code.append('%s = (%s if c else %s) if c.__class__ is int else sel(S, c, %s, %s, %d, %d)' % (
                D, a, b, a, b, bits(t1), 1 if t1[0] == 'ptr' else 0 if t1[0] == 'i' else 2))
            return
        if op == 'getelementptr':
            while ts.peek() in ('inbounds', 'nuw', 'nusw') or ts.peek() == 'inrange':
                if ts.next() == 'inrange':
                    ts.skip_parens()
            ty = ts.type()
            ts.expect(',')
            pt = ts.type()
            base = self.operand(ts, pt)
            const = 0
            dyn = []
            first = True
            while ts.eat(','):
                it = ts.type()
                if it[0] == 'other':
                    break
                iv = self.operand(ts, it)
                if first:
                    sz = t_size(ty)
                    first = False
                elif ty[0] == 'st':
                    k = int(iv)
                    const += f_off(ty, k)
                    ty = ty[1][k]
                    continue
                else:
                    ty = ty[2]
                    sz = t_size(ty)
                if iv[0] != 'R':
                    v = int(iv)
                    if v >> (it[1] - 1):
                        v -= 1 << it[1]
                    const += v * sz
                else:
                    dyn.append((iv, sz, it[1]))
            code.append('a = %s' % base)
            for iv, sz, w in dyn:
                code.append('b = %s' % iv)
                if w != 64:
                    code.append('b = t_sext(b, %d, 64)' % w)
                code.append('a = (a + b * %d) & %d if a.__class__ is b.__class__ is int else gep(S, a, b, %d)' % (sz, (1 << 64) - 1, sz))
            if const:
                code.append('a = (a + %d) & %d if a.__class__ is int else gep(S, a, %d, 1)' % (const, (1 << 64) - 1, const & ((1 << 64) - 1)))
            code.append('%s = a' % D)
            return
        if op == 'load':
            while ts.peek() in ('volatile', 'atomic'):
                ts.next()
            ty = ts.type()
            ts.expect(',')
            pt = ts.type()
            a = self.operand(ts, pt)
            if ty[0] in ('i', 'ptr'):
                code.append('%s = ld(S, %s, %d, %d)' % (D, a, t_size(ty), bits(ty)))
            elif ty[0] == 'vec' and ty[2][0] == 'i':
                code.append('%s = ldvec(S, %s, %d, %d)' % (D, a, ty[1], bits(ty[2])))
            else:
                code.append('%s = ldagg(S, %s, %r)' % (D, a, ty))
            return
        if op == 'store':
            while ts.peek() in ('volatile', 'atomic'):
                ts.next()
            ty = ts.type()
            v = self.operand(ts, ty)
            ts.expect(',')
            pt = ts.type()
            a = self.operand(ts, pt)
            if ty[0] in ('i', 'ptr'):
                code.append('st(S, %s, %s, %d, %d)' % (a, v, t_size(ty), bits(ty)))
            else:
                code.append('stagg(S, %s, %s, %r)' % (a, v, ty))
            flush(('next',))
            return
        if op == 'alloca':
            ty = ts.type()
            cnt = '1'
            if ts.eat(','):
                if ts.peek() != 'align':
                    it = ts.type()
                    cnt = self.operand(ts, it)
            code.append('%s = S.alloca(%d * %s)' % (D, t_size(ty), cnt))
            flush(('next',))
            return
        if op == 'extractvalue':
            ty = ts.type()
            a = self.operand(ts, ty)
            ix = ''
            while ts.eat(','):
                ix += '[%s]' % ts.next()
            code.append('%s = %s%s' % (D, a, ix))
            return
        if op == 'insertvalue':
            ty = ts.type()
            a = self.operand(ts, ty)
            ts.expect(',')
            t2 = ts.type()
            v = self.operand(ts, t2)
            ix = []
            while ts.eat(','):
                ix.append(int(ts.next()))
            code.append('%s = insval(%s, %s, %r)' % (D, a, v, ix))
            return
        if op in ('call', 'invoke'):
            return self._call(ts, d, code, flush, op, rhs)
        if op == 'br':
            if ts.eat('label'):
                flush(('br', self.lab(ts.next())))
                return
            ty = ts.type()
            c = self.operand(ts, ty)
            ts.expect(',')
            ts.expect('label')
            x = self.lab(ts.next())
            ts.expect(',')
            ts.expect('label')
            y = self.lab(ts.next())
            if c[0] != 'R':
                flush(('br', x if int(c) else y))
            elif x is y:
                flush(('br', x))
            else:
                flush(('cbr', int(c[2:-1]), x, y))
            return
        if op == 'switch':
            ty = ts.type()
            v = self.operand(ts, ty)
            ts.expect(',')
            ts.expect('label')
            dflt = self.lab(ts.next())
            ts.expect('[')
            cases = []
            while not ts.eat(']'):
                it = ts.type()
                k = int(ts.next()) & ((1 << it[1]) - 1)
                ts.expect(',')
                ts.expect('label')
                cases.append((k, self.lab(ts.next())))
            if v[0] != 'R':
                flush(('br', dict(cases).get(int(v), dflt)))
            else:
                flush(('switch', int(v[2:-1]), bits(ty), dflt, cases))
            return
        if op == 'ret':
            ty = ts.type()
            if ty == VOID:
                flush(('ret', None, None))
                return
            v = self.operand(ts, ty)
            code.append('RV[0] = %s' % v)
            flush(('ret', v, ty))
            return
        if op == 'unreachable':
            flush(('unreachable',))
            return
        if op == 'fence':
            return
        raise ParseError('instruction %s' % op)

    def _call(self, ts, d, code, flush, op, rhs):
        while ts.peek() in ('fastcc', 'ccc', 'coldcc', 'cc', 'fast', 'tailcc', 'preserve_mostcc', 'rust_preserve_nonecc'):
            if ts.next() == 'cc':
                ts.next()
        ts.attrs()
        ty = ts.type()
        if ts.peek() == '(':
            ts.skip_parens()
        t = ts.next()
        if t == 'asm':
            # inline asm: only the empty "optimisation barrier" form is supported
            raise ParseError('inline asm')
        if t[0] == '@':
            callee = t[1:].strip('"')
            ind = None
        elif t[0] == '%':
            callee = None
            ind = 'R[%d]' % self.reg(t)
        else:
            raise ParseError('callee %s' % t)
        ts.expect('(')
        args = []
        if not ts.eat(')'):
            while True:
                at = ts.type()
                if at == ('other', 'metadata'):
                    while ts.peek() not in (',', ')'):
                        if ts.peek() == '(':
                            ts.skip_parens()
                        else:
                            ts.next()
                    args.append(('0', at))
                else:
                    ts.attrs()
                    args.append((self.operand(ts, at), at))
                if ts.eat(')'):
                    break
                ts.expect(',')
        rest = ' '.join(ts.t[ts.i:])
        nxt = None
        if op == 'invoke':
            m = re.search(r'to label (%"[^"]*"|%[-\w$.]+)', rhs)
            nxt = self.lab(m.group(1))
        D = 'R[%s]' % d
        if callee is not None and callee.startswith('llvm.'):
            self._intrinsic(callee, D, ty, args, code, flush)
            if nxt is not None:
                flush(('br', nxt))
            return
        noret = self.mod.line_noreturn(rest)
        if ind is None:
            code.append('CA[0] = (%s)' % ''.join(a + ', ' for a, _ in args))
            flush(('call', d, callee, noret, self.mod))
        else:
            code.append('CA[0] = (%s)' % ''.join(a + ', ' for a, _ in args))
            code.append('CF[0] = %s' % ind)
            flush(('call', d, None, noret, self.mod))
        if nxt is not None:
            flush(('br', nxt))

    def _intrinsic(self, f, D, ty, args, code, flush):
        A = [a for a, _ in args]
        n = f[5:]
        base = n.split('.')[0]
        if n.startswith(('experimental.noalias', 'dbg.', 'prefetch', 'donothing')):
            return
        if base == 'assume':
            return
        if n.startswith('lifetime'):
            code.append('S.lifetime(%s)' % A[-1])
            flush(('next',))
            return
        if base in ('memcpy', 'memmove'):
            code.append('memcpy(S, %s, %s, %s)' % (A[0], A[1], A[2]))
            flush(('next',))
            return
        if base == 'memset':
            code.append('memset(S, %s, %s, %s)' % (A[0], A[1], A[2]))
            flush(('next',))
            return
        if ty[0] == 'vec':
            raise ParseError('vector intrinsic')
        if base in ('trap', 'ubsantrap', 'debugtrap'):
            flush(('unreachable',))
            return
        if base == 'expect':
            code.append('%s = %s' % (D, A[0]))
            return
        w = bits(args[0][1]) if args else 0
        if base in ('umin', 'umax', 'smin', 'smax'):
            code.append('%s = t_%s(%s, %s, %d)' % (D, base, A[0], A[1], w))
            return
        if base == 'ucmp' or base == 'scmp':
            code.append('%s = t_%s(%s, %s, %d, %d)' % (D, base, A[0], A[1], w, bits(ty)))
            return
        if n.startswith(('uadd.with', 'usub.with', 'umul.with', 'sadd.with')):
            code.append('%s = t_%so(%s, %s, %d)' % (D, n[1:4] if n[0] == 'u' else n[:4], A[0], A[1], w))
            return
        if n.startswith('usub.sat'):
            code.append('%s = t_usubsat(%s, %s, %d)' % (D, A[0], A[1], w))
            return
        if n.startswith('uadd.sat'):
            code.append('%s = t_uaddsat(%s, %s, %d)' % (D, A[0], A[1], w))
            return
        if base in ('fshl', 'fshr'):
            code.append('%s = t_%s(%s, %s, cz(S, %s), %d)' % (D, base, A[0], A[1], A[2], w))
            return
        if base == 'ctlz':
            code.append('%s = ctlz(S, %s, %d)' % (D, A[0], w))
            return
        if base == 'cttz':
            code.append('%s = t_cttz(cz(S, %s), %d)' % (D, A[0], w))
            return
        if base == 'ctpop':
            code.append('%s = ctpop(S, %s, %d)' % (D, A[0], w))
            return
        if base == 'bitreverse':
            code.append('%s = bitrev(%s, %d)' % (D, A[0], w))
            return
        if base == 'bswap':
            code.append('%s = bswap(%s, %d)' % (D, A[0], w))
            return
        if base == 'abs':
            code.append('%s = t_abs(%s, %d)' % (D, A[0], w))
            return
        if base == 'load' and n.startswith('load.relative'):
            code.append('%s = ldrel(S, %s, %s)' % (D, A[0], A[1]))
            return
        if base == 'is' and n.startswith('is.constant'):
            code.append('%s = 0' % D)
            return
        raise ParseError('intrinsic %s' % f)


BIN = {
    'add': '(a + b) & MASK', 'sub': '(a - b) & MASK', 'mul': '(a * b) & MASK',
    'and': 'a & b', 'or': 'a | b', 'ordisj': 'a | b', 'xor': 'a ^ b',
    'shl': '((a << b) & MASK if b < W else 0)', 'lshr': '(a >> b if b < W else 0)', 'ashr': 't_ashr(a, b, W)',
    'udiv': 'udivc(a, b)', 'urem': 'uremc(a, b)', 'sdiv': 't_sdivc(a, b, W)', 'srem': 't_sremc(a, b, W)',
}
SLOW = {
    'add': 't_add', 'sub': 't_sub', 'mul': 't_mul', 'and': 't_and', 'or': 't_or', 'ordisj': 't_ordisj', 'xor': 't_xor',
    'shl': 'x_shl', 'lshr': 'x_lshr', 'ashr': 'x_ashr', 'udiv': 'x_udiv', 'urem': 'x_urem', 'sdiv': 'x_sdiv', 'srem': 'x_srem',
}


class Program:
    """a set of modules plus the constant pool"""

    def __init__(self):
        self.mods = []
        self.fns = {}
        self.env = {}
        self.gid = {}            # symbol -> object id
        self.gsym = {}           # object id -> (mod, symbol)
        self.on_missing = None   # callback to load further modules
        self.next_gid = 1 << 24

    def add(self, mod):
        self.mods.append(mod)

    def find(self, name, mod=None):
        if mod is not None and (mod.name, name) in self.fns:
            return self.fns[mod.name, name]
        f = None
        order = ([mod] if mod is not None else []) + self.mods
        for m in order:
            if (m.name, name) in self.fns:
                return self.fns[m.name, name]
            if name in m.defs:
                f = Fn(self, m, name, m.defs[name])
                self.fns[m.name, name] = f
                return f
        if self.on_missing and self.on_missing(name):
            return self.find(name, mod)
        return None

    def is_noreturn(self, name):
        for m in self.mods:
            if m.noreturn_decl(name):
                return True
        return False

    # constants ------------------------------------------------------
    def global_ptr(self, name, mod):
        key = name
        if mod is not None and name in mod.globs and re.match(r'(private|internal)\b', mod.globs[name]):
            key = mod.name + ':' + name
        elif mod is not None and name in mod.defs and name not in mod.globs:
            key = name
        g = self.gid.get(key)
        if g is None:
            g = self.gid[key] = self.next_gid
            self.next_gid += 1
            self.gsym[g] = (mod, name)
        return g << 32

    def const(self, ts, ty, t, mod):
        """value of a constant whose first token t has been consumed"""
        if t in ('null', 'undef', 'poison', 'zeroinitializer', 'none'):
            return zero_of(ty)
        if t == 'true':
            return 1
        if t == 'false':
            return 0
        if t[0] == '-' or t.isdigit():
            return int(t) & ((1 << ty[1]) - 1)
        if t[0] == '@':
            return self.global_ptr(t[1:].strip('"'), mod)
        if t[:2] == 'c"':
            return tuple(cstr(t))
        if t == '[' or t == '{' or (t == '<' and ty[0] == 'vec'):
            end = {'[': ']', '{': '}', '<': '>'}[t]
            out = []
            if not ts.eat(end):
                while True:
                    et = ts.type()
                    out.append(self.const(ts, et, ts.next(), mod))
                    if ts.eat(end):
                        break
                    ts.expect(',')
            return tuple(out)
        if t == '<':
            ts.expect('{')
            out = []
            if not ts.eat('}'):
                while True:
                    et = ts.type()
                    out.append(self.const(ts, et, ts.next(), mod))
                    if ts.eat('}'):
                        break
                    ts.expect(',')
            ts.expect('>')
            return tuple(out)
        if t == 'splat':
            ts.expect('(')
            et = ts.type()
            v = self.const(ts, et, ts.next(), mod)
            ts.expect(')')
            return (v,) * ty[1]
        if t in ('inttoptr', 'ptrtoint', 'trunc', 'bitcast', 'zext'):
            ts.expect('(')
            et = ts.type()
            v = self.const(ts, et, ts.next(), mod)
            ts.expect('to')
            t2 = ts.type()
            ts.expect(')')
            return v & ((1 << bits(t2)) - 1)
        if t in ('add', 'sub', 'xor'):
            while ts.peek() in ('nuw', 'nsw'):
                ts.next()
            ts.expect('(')
            et = ts.type()
            a = self.const(ts, et, ts.next(), mod)
            ts.expect(',')
            et2 = ts.type()
            b = self.const(ts, et2, ts.next(), mod)
            ts.expect(')')
            r = a + b if t == 'add' else a - b if t == 'sub' else a ^ b
            return r & ((1 << bits(et)) - 1)
        if t == 'getelementptr':
            while ts.peek() in ('inbounds', 'nuw', 'nusw') or ts.peek() == 'inrange':
                if ts.next() == 'inrange':
                    ts.skip_parens()
            ts.expect('(')
            et = ts.type()
            ts.expect(',')
            pt = ts.type()
            p = self.const(ts, pt, ts.next(), mod)
            first = True
            while ts.eat(','):
                it = ts.type()
                v = self.const(ts, it, ts.next(), mod)
                if v >> (it[1] - 1):
                    v -= 1 << it[1]
                if first:
                    p += v * t_size(et)
                    first = False
                elif et[0] == 'st':
                    p += f_off(et, v)
                    et = et[1][v]
                else:
                    et = et[2]
                    p += v * t_size(et)
            ts.expect(')')
            return p & ((1 << 64) - 1)
        raise ParseError('constant %s' % t)

    def global_init(self, gid):
        """(size, cells) of a global constant, or None for a function symbol"""
        mod, name = self.gsym[gid]
        order = ([mod] if mod else []) + self.mods
        for m in order:
            if name in m.globs:
                src = m.globs[name]
                if re.match(r'external\b', src) or re.search(r'^(\w+ )*external ', src):
                    continue
                ts = TS(toks(src), m)
                isalias = False
                while True:
                    t = ts.next()
                    if t in ('constant', 'global'):
                        break
                    if t == 'alias':
                        isalias = True
                        break
                    if ts.peek() == '(':
                        ts.skip_parens()
                ty = ts.type()
                if isalias:
                    return None
                v = self.const(ts, ty, ts.next(), m)
                cells = {}
                self._cells(cells, 0, ty, v)
                return t_size(ty), cells
        return None

    def _cells(self, cells, off, ty, v):
        k = ty[0]
        if k in ('i', 'ptr'):
            cells[off] = (v, t_size(ty))
        elif k in ('arr', 'vec'):
            sz = t_size(ty[2])
            for i, x in enumerate(v):
                self._cells(cells, off + i * sz, ty[2], x)
        elif k == 'st':
            for i, x in enumerate(v):
                self._cells(cells, off + f_off(ty, i), ty[1][i], x)
        else:
            raise ParseError('initialiser %r' % (ty,))


def cstr(t):
    s = t[2:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out
