#!/usr/bin/env python3-vt
"""Runs the check of one property:  run.py C02 --tier quick|thorough

Builds the harness against /repo's current tree, forks one process per unit of work (a unit
fixes digit type and operand sizes, everything else is symbolic), and writes
/verif/evidence/<id>.json.  Exit 0: held on everything explored; exit 1: a violation that was
replayed against the compiled code; exit 2: nothing could be decided."""
import argparse
import json
import os
import pickle
import re
import select
import signal
import sys
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import build
import llparse
import plans

NPROC = 8


def load(spec):
    feats, small = spec
    b = build.build(feats, small=small)
    return b


def parse(b, std):
    prog = llparse.Program()
    for f in b['lls']:
        prog.add(llparse.Module(open(f).read(), f))
    if std:
        import stdlib
        stdlib.attach(prog)
    return prog


def unit_name(u):
    return '%s(%s)%s' % (u['kind'], ', '.join('%s=%s' % (k, v) for k, v in u['kw'].items()), ' small-cutoffs' if u['small'] else '')


def run_unit(u, prog, so, seed):
    """in the child: returns the result record"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import terms as tm
    import solver
    import execu
    import props
    from check import Ctx, Violation, Inconclusive, TAGS
    tm.reset()
    tm.RADIX = TAGS.get(u['kw'].get('tag'), (8, 256))[1]
    t0 = time.time()
    c = Ctx(prog, so, t0 + u['budget'], seed=seed)
    r = dict(status='ok', detail='')
    try:
        props.UNITS[u['kind']](c, **u['kw'])
        if c.unknown:
            r = dict(status='inconclusive', detail='; '.join(c.unknown)[:600])
    except Violation as e:
        r = dict(status='violation', detail=e.args[0])
    except Inconclusive as e:
        r = dict(status='inconclusive', detail=str(e)[:600])
    except (execu.Budget, tm.Unsupported, llparse.ParseError, execu.MemErr, MemoryError, RecursionError) as e:
        r = dict(status='inconclusive', detail='%s: %s' % (type(e).__name__, str(e)[:400]))
    except Exception:
        r = dict(status='inconclusive', detail='internal: ' + traceback.format_exc()[-800:])
    r.update(wall=round(time.time() - t0, 2), obligations=c.oblig, paths=c.x.paths, steps=c.x.steps,
             forks=c.x.forks, merges=c.x.merges, validated=c.validated, samples=c.samples,
             called=sorted(c.x.called), solver=solver.STATS.as_dict())
    return r


def demangle(n):
    ids = re.findall(r'\d+_?([A-Za-z_][A-Za-z0-9_]*)', n)
    out = []
    i = 0
    s = n
    # v0 mangling: length-prefixed identifiers
    pos = 0
    parts = []
    while pos < len(s):
        m = re.compile(r'(\d+)').search(s, pos)
        if not m:
            break
        ln = int(m.group(1))
        st = m.end()
        if s[st:st + 1] == '_':
            st += 1
        w = s[st:st + ln]
        if ln and len(w) == ln and re.match(r'[A-Za-z_]\w*$', w):
            parts.append(w)
            pos = st + ln
        else:
            pos = m.end()
    return '::'.join(parts) if parts else n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--only', help='substring of unit names (development)')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--nofresh', action='store_true', help='reuse build output (development)')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    units = plans.units(a.id, a.tier, seed)
    if a.only:
        units = [u for u in units if a.only in unit_name(u)]
    specs = sorted({(tuple(sorted(u['feats'])), u['small']) for u in units})
    # one build per cutoff variant: all features of the property
    merged = {}
    for f, s in specs:
        merged.setdefault(s, set()).update(f)
    if a.nofresh:
        ob = build.build
        build.build = lambda feats, small=False, fresh=True: ob(feats, small=small, fresh=False)
    res = {}
    errs = []

    def job(s):
        try:
            res[s] = load((sorted(merged[s]), s))
        except Exception as e:
            errs.append(str(e))
    th = [threading.Thread(target=job, args=(s,)) for s in merged]
    for t in th:
        t.start()
    for t in th:
        t.join()
    if errs:
        print('ERROR: build failed: ' + errs[0])
        sys.exit(2)
    build_s = time.time() - t0
    progs = {s: (parse(b, plans.PROPS[a.id].get('std')), b['so']) for s, b in res.items()}
    limit = plans.LIMIT[a.tier]
    t1 = time.time()
    results = run_all(units, progs, seed, t1 + limit, a)
    for b in res.values():
        if not a.nofresh:
            build.discard(b)
    sys.exit(report(a, units, results, seed, build_s, t0))


def run_all(units, progs, seed, deadline, a):
    queue = list(range(len(units)))
    running = {}          # fd -> (pid, idx, buf, kill time)
    results = {}
    stop = False
    while queue or running:
        now = time.time()
        while queue and len(running) < NPROC and not stop:
            k = queue.pop(0)
            u = units[k]
            left = deadline - now
            if left < 2:
                results[k] = dict(status='skipped', detail='time limit of the tier')
                continue
            u['budget'] = min(u['budget'], left)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                prog, so = progs[u['small']]
                try:
                    out = pickle.dumps(run_unit(u, prog, so, seed))
                except BaseException as e:
                    out = pickle.dumps(dict(status='inconclusive', detail='worker: %r' % e))
                with os.fdopen(w, 'wb') as f:
                    f.write(out)
                os._exit(0)
            os.close(w)
            running[r] = [pid, k, b'', now + u['budget'] + 30]
        if stop:
            for k in queue:
                results[k] = dict(status='skipped', detail='a violation was found')
            queue = []
        if not running:
            break
        rr, _, _ = select.select(list(running), [], [], 0.2)
        for fd in rr:
            d = os.read(fd, 1 << 20)
            if d:
                running[fd][2] += d
                continue
            pid, k, buf, _ = running.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                results[k] = pickle.loads(buf)
            except Exception:
                results[k] = dict(status='inconclusive', detail='worker died')
            if a.verbose:
                rec = results[k]
                print('%-13s %6.1fs %s %s' % (rec['status'], rec.get('wall', 0), unit_name(units[k]), str(rec['detail'])[:300]), flush=True)
            if results[k]['status'] == 'violation' and not a.keep_going and not known(a.id, results[k]['detail']):
                stop = True
        now = time.time()
        for fd in list(running):
            pid, k, buf, kt = running[fd]
            if now > kt or stop:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                os.waitpid(pid, 0)
                os.close(fd)
                del running[fd]
                results[k] = dict(status='inconclusive' if not stop else 'skipped', detail='time' if not stop else 'a violation was found')
                if a.verbose and not stop:
                    print('killed               %s' % unit_name(units[k]), flush=True)
    return results


def known(pid, v):
    """the listed finding this violation is an instance of"""
    try:
        lines = open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')).read().splitlines()
    except OSError:
        return None
    key = json.dumps(v['inputs'], sort_keys=True)
    for l in lines:
        m = re.match(r'known: property=(\S+) unit=(\S+) inputs=(\{.*?\}) (.*)', l)
        if m and m.group(1) == pid and m.group(2) == v.get('unit') and m.group(3) == key:
            return m.group(4)
    return None


def report(a, units, results, seed, build_s, t0):
    viol = [(k, r) for k, r in sorted(results.items()) if r['status'] == 'violation']
    count = {}
    for r in results.values():
        count[r['status']] = count.get(r['status'], 0) + 1
    sv = dict(queries=0, unsat=0, sat=0, unknown=0, decided_by_interval_or_normal_form=0, solver_time_s=0.0, max_query_s=0.0)
    called = set()
    tot = dict(paths=0, steps=0, forks=0, merges=0, obligations=0, validated=0)
    samples = []
    for k, r in sorted(results.items()):
        for f in tot:
            tot[f] += r.get(f, 0)
        for f, v in r.get('solver', {}).items():
            sv[f] = max(sv[f], v) if f == 'max_query_s' else round(sv[f] + v, 3)
        called |= set(r.get('called', ()))
        for s in r.get('samples', ()):
            if len(samples) < 12 and (len(samples) < 4 or k % 7 == 0):
                samples.append(dict(unit=unit_name(units[k]), **s))
    rc = 0
    rdir = os.path.join(ROOT, 'replays')
    for k, r in viol:
        v = r['detail']
        v['unit'] = '%s/%s' % (units[k]['kind'], units[k]['kw'].get('tag', ''))
        kn = known(a.id, v)
        if kn:
            print('KNOWN-FINDING: property=%s %s' % (a.id, kn))
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (a.id, k))
        u = units[k]
        json.dump(dict(property=a.id, kind=u['kind'], kw=u['kw'], feats=sorted(u['feats']), small=u['small'],
                       obligation=v['desc'], inputs=v['inputs'], native=v['native']), open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (a.id, path))
        print('  %s: %s -- inputs %s: %s' % (unit_name(u), v['desc'], str(v['inputs'])[:600], v['native'][:600]))
        rc = 1
    inc = [(unit_name(units[k]), r['detail']) for k, r in sorted(results.items()) if r['status'] in ('inconclusive', 'skipped')]
    ok = count.get('ok', 0)
    ev = dict(
        property=a.id, tier=a.tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot['paths'], transitions=tot['steps'], traces_validated_against_impl=tot['validated'],
            samples=samples or [dict(note='no sample')],
            units=len(units), units_decided=ok, units_not_decided=[dict(unit=n, why=str(d)[:300]) for n, d in inc][:60],
            paths=tot['paths'], ir_instructions_executed=tot['steps'], forks=tot['forks'], merges=tot['merges'],
            obligations=tot['obligations'], queries=sv,
            functions_encoded=sorted({demangle(n) for n in called}),
            bounds=plans.bounds(units, results),
            build_s=round(build_s, 1)),
        assumptions=plans.ASSUMPTIONS + plans.PROPS[a.id].get('assumptions', []),
        wall_s=round(time.time() - t0, 2), violations=sum(1 for _ in viol))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', a.id + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d units, %s; %d paths, %d obligations, %d solver queries (%.1f s), %.1f s' % (
        a.id, a.tier, len(units), ', '.join('%d %s' % (n, s) for s, n in sorted(count.items())), tot['paths'], tot['obligations'],
        sv['queries'], sv['solver_time_s'], time.time() - t0))
    if rc == 0 and ok == 0:
        print('ERROR: no unit could be decided: %s' % str(inc[:3])[:1500])
        return 2
    return rc


if __name__ == '__main__':
    main()
