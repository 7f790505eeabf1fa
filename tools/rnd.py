"""Developer tool (not a check): random native cross-check of the harness entry points
against Python integers, used to look for defects before writing encodings."""
import sys, os, random, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import build, check
from check import TAGS, CT, ncall, to_digits, from_digits, in_child, ERR
sys.set_int_max_str_digits(0)
FE = ['g_new','g_add','g_sub','g_mul','g_digit_as','g_digit_mul','g_digit_div','g_square','g_div','g_shl','g_shr','g_cmp','g_parse','g_dec','g_fmt','g_hex','g_pow','g_from']
small = '--small' in sys.argv
b = build.build(FE, small=small)
so = b['so']
rng = random.Random(int(os.environ.get('SEED', '1')))
def rdig(R):
    k = rng.randrange(8)
    return [0, R-1, 1, R-2, R//2, R//2-1, rng.randrange(R), rng.randrange(R)][k]
def rnum(R, n):
    if n == 0: return []
    if rng.random() < .3:
        d = [rng.choice([0, R-1])]*n
        for _ in range(rng.randrange(1,6)):
            i = rng.randrange(n); c = rdig(R)
            for j in range(i, min(n, i+rng.randrange(1, 1+n))): d[j] = c if rng.random()<.8 else rdig(R)
    else:
        d = [rdig(R) for _ in range(n)]
    if d[-1] == 0: d[-1] = 1 + rng.randrange(R-1)
    return d
def rsize(mx): return rng.choice([0,1,2,3,rng.randrange(mx+1),rng.randrange(mx+1),rng.randrange(1+mx//3)])
fails = {}
def bad(op, tag, msg):
    k = (op, tag); fails.setdefault(k, []).append(msg)
    if len(fails[k]) <= 2: print('FAIL', op, tag, msg[:300], flush=True)
def binop(op, tag, mx):
    w, R = TAGS[tag]
    a, bb = rnum(R, rsize(mx)), rnum(R, rsize(mx))
    A, B = from_digits(a, R), from_digits(bb, R)
    form = rng.randrange(6)
    if op == 'divrem':
        if rng.random() < .4 and B:   # structured: near multiples
            A = max(0, B*from_digits(rnum(R, rsize(mx)), R) + rng.choice([-1,0,1,B-1])); a = to_digits(A, R)
        r, o = ncall(so, 'divrem_'+tag, [('in',w,a),len(a),('in',w,bb),len(bb),('out',w,len(a)+2),('out',w,len(a)+len(bb)+2),('out',64,1)])
        if B == 0:
            return None if r == ERR and o[0][:o[2][0]] == a else ('a=%s b=0 -> %s %s'%(a, r, o))
        q, m = o[0][:r] if r<10**6 else None, o[1][:o[2][0]]
        return None if q == to_digits(A//B, R) and m == to_digits(A%B, R) else 'a=%s b=%s -> %s %s'%(a,bb,q,m)
    if op in ('div','rem') and B == 0: return None
    if op == 'sub' and A < B: a,bb,A,B = bb,a,B,A
    e = {'add':lambda:A+B,'sub':lambda:A-B,'mul':lambda:A*B,'div':lambda:A//B,'rem':lambda:A%B,'square':lambda:A*A}[op]()
    args = [form,('in',w,a),len(a),('in',w,bb),len(bb),('out',w,len(a)+len(bb)+4)]
    if op == 'square': args = [('in',w,a),len(a),('out',w,2*len(a)+4)]
    r, o = ncall(so, op+'_'+tag, args)
    return None if r < 10**6 and o[0][:r] == to_digits(e, R) else 'form=%d a=%s b=%s -> %s want %s'%(form,a,bb,o[0][:r] if r<10**6 else r,to_digits(e,R))
def digop(op, tag, mx):
    w, R = TAGS[tag]
    a = rnum(R, rsize(mx)); A = from_digits(a, R)
    form = rng.randrange(6)
    n = rdig(R) if form >= 3 else rng.choice([rdig(1<<w), rdig(R), R, min(R+1,(1<<w)-1)]) % (1<<w)
    if op in ('divd','remd') and n == 0: return None
    if op == 'subd' and A < n: return None
    e = {'addd':lambda:A+n,'subd':lambda:A-n,'muld':lambda:A*n,'divd':lambda:A//n,'remd':lambda:A%n}[op]()
    r, o = ncall(so, op+'_'+tag, [form,('in',w,a),len(a),('int',w,n),('out',w,len(a)+4)])
    return None if r < 10**6 and o[0][:r] == to_digits(e, R) else 'form=%d a=%s n=%s -> %s want %s'%(form,a,n,o[0][:r] if r<10**6 else r,to_digits(e,R))
def shop(op, tag, mx):
    w, R = TAGS[tag]
    a = rnum(R, rsize(mx)); A = from_digits(a, R)
    n = rng.choice([0,1,w-1,w,rng.randrange(w+1),rng.randrange(w*(mx+2))]); form = rng.randrange(3)
    e = A << n if op == 'shl' else A >> n
    e = to_digits(e, R)
    r, o = ncall(so, op+'_'+tag, [form,('in',w,a),len(a),n,('out',w,len(a)+len(e)+n//3+4)])
    return None if r < 10**6 and o[0][:r] == e else 'form=%d a=%s n=%s -> %s want %s'%(form,a,n,o[0][:r] if r<10**6 else r,e)
def parse(op, tag, mx):
    w, R = TAGS[tag]
    s = ''.join(rng.choice('0123456789') for _ in range(rsize(mx)))
    if rng.random()<.3: s = '0'*rng.randrange(10)+s
    hexa = rng.random() < .4
    if hexa: s = '0x' + ''.join(rng.choice('0123456789abcdefABCDEF') for _ in range(rsize(mx)))
    if rng.random() < .3:
        i = rng.randrange(len(s)+1); s = s[:i]+rng.choice('+-_ ggx:/\x7f0')+s[i:]
    import re
    if re.fullmatch(r'\+?[0-9]+', s): e = int(s)
    elif re.fullmatch(r'0x[0-9a-fA-F]+', s): e = int(s[2:],16)
    else: e = None
    bs = list(s.encode())
    r, o = ncall(so, 'parse_'+tag, [('in',8,bs),len(bs),('out',w,len(bs)+4)])
    ok = (r == ERR) if e is None else r < 10**6 and o[0][:r] == to_digits(e, R)
    return None if ok else '%r -> %s %s'%(s, r, o[0][:max(0,min(r,40))])
def text(op, tag, mx):
    w, R = TAGS[tag]
    a = rnum(R, rsize(mx)); A = from_digits(a, R)
    if rng.random()<.3: A = rng.choice([10**rng.randrange(1, 1+mx*2), A//10**(mx)*10**mx]) ; a = to_digits(A,R)
    if op == 'display':
        r, o = ncall(so, 'display_'+tag, [('in',w,a),len(a),('out',8,len(a)*20+30)]); e = str(A)
    elif op == 'hex':
        if tag[0] == 'd': return None
        f = rng.randrange(4); e = ['%x','%X','0x%x','0x%X'][f]%A
        r, o = ncall(so, 'hex_'+tag, [f,('in',w,a),len(a),('out',8,len(a)*16+30)])
    elif op == 'todec':
        if tag[0] == 'd': return None
        RD = TAGS['d'+tag[1:]][1]
        r, o = ncall(so, 'todec_'+tag, [('in',w,a),len(a),('out',w,len(a)*2+30)])
        return None if r<10**6 and o[0][:r] == to_digits(A, RD) else 'a=%s -> %s want %s'%(a,o[0][:r] if r < 10**6 else r,to_digits(A,RD))
    return None if r<10**6 and bytes(o[0][:r]).decode() == e else 'a=%s -> %r want %r'%(a,bytes(o[0][:min(r,500)]),e)
def pw(op, tag, mx):
    w, R = TAGS[tag]
    a = rnum(R, rng.randrange(4)); A = from_digits(a, R); n = rng.choice([0,1,2,3,4,rng.randrange(20)]); f = rng.randrange(2)
    e = to_digits(A**n, R)
    r, o = ncall(so, 'pow_'+tag, [f,('in',w,a),len(a),n,('out',w,len(e)+8)])
    return None if r<10**6 and o[0][:r] == e else 'f=%d a=%s n=%d -> %s'%(f,a,n,o[0][:r] if r<10**6 else r)
def frm(op, tag, mx):
    w, R = TAGS[tag]
    n = rng.choice([rdig(R), rdig(1<<w)]) % (1<<w)
    r, o = ncall(so, 'from_'+tag, [('int',w,n),('out',w,4)])
    return None if r<10**6 and o[0][:r] == to_digits(n, R) else 'n=%d -> %s'%(n,o[0][:3])
def cm(op, tag, mx):
    w, R = TAGS[tag]
    a = rnum(R, rsize(mx)); b = list(a) if rng.random()<.4 else rnum(R, rsize(mx))
    if a and b and len(a)==len(b) and rng.random()<.5: b[rng.randrange(len(b)-1) if len(b)>1 else 0] = rdig(R) or 1
    A,B = from_digits(a,R),from_digits(b,R)
    r,o = ncall(so,'cmp_'+tag,[('in',w,a),len(a),('in',w,b),len(b),('out',8,8)])
    c = (A>B)-(A<B)
    e = [c+1,int(c==0),int(c!=0),int(c<0),int(c<=0),int(c>0),int(c>=0),c+1]
    return None if o[0]==e else 'a=%s b=%s -> %s'%(a,b,o[0])
OPS = [(binop,o) for o in ('add','sub','mul','div','rem','divrem','square')]+[(digop,o) for o in ('addd','subd','muld','divd','remd')]+[(shop,'shl'),(shop,'shr'),(parse,'parse'),(text,'display'),(text,'hex'),(text,'todec'),(pw,'pow'),(frm,'from'),(cm,'cmp')]
only = [a for a in sys.argv[1:] if not a.startswith('--')]
if only: OPS = [o for o in OPS if o[1] in only]
mx = int(os.environ.get('MX', '70')); N = int(os.environ.get('N', '400'))
for f, op in OPS:
    t0 = time.time(); cnt = 0
    for tag in TAGS:
        def batch(rng_state, n):
            rng.setstate(rng_state); out = []
            for _ in range(n):
                m = f(op, tag, mx)
                if m: out.append(m)
            return out
        for _ in range(max(1, N//50)):
            st = rng.getstate()
            k, v = in_child(lambda: batch(st, 50), timeout=60)
            if k == 'ok':
                cnt += 50
                for m in v: bad(op, tag, m)
                for _ in range(50): rng.random()
                rng.seed(rng.getrandbits(64))
            else:
                rng.setstate(st)
                for _ in range(50):   # one by one
                    s1 = rng.getstate()
                    k, v = in_child(lambda: batch(s1, 1), timeout=10)
                    if k == 'ok':
                        for m in v: bad(op, tag, m)
                    else: bad(op, tag, 'panic/hang %s (seed state lost) '%k)
                    rng.setstate(s1); rng.seed(rng.getrandbits(64))
    print(op, cnt, 'ok' if not any(k[0]==op for k in fails) else 'FAILS %s'%{k:len(v) for k,v in fails.items() if k[0]==op}, '%.1fs'%(time.time()-t0), flush=True)
