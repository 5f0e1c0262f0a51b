"""check <property> [--tier quick|thorough] [--replay FILE] [--list]"""
import argparse
import glob
import importlib
import json
import logging
import os
import pickle
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYDV_REPO', '/repo')       # another tree only for development
JOBS = 8

TRUSTED = [
    'pydv (this tree): translation of the Python AST of /repo into verification conditions, loop summaries, built-in models',
    'CPython 3.12 semantics of the built-ins modelled in pydv/models.py',
    'z3 (python3-vt bindings) as the deciding back end',
]


def load(pid=None):
    logging.disable(logging.CRITICAL)
    from . import interp, verify, api, domains
    interp.add_root(os.path.join(REPO, 'bit'))
    interp.add_root(os.path.join(VERIF, 'specs'))
    verify.register_primitives()
    for f in sorted(glob.glob(os.path.join(VERIF, 'specs', '*.py'))):
        n = os.path.basename(f)[:-3]
        if n != '__init__':
            importlib.import_module('specs.' + n)
    domains.mine(sorted(glob.glob(os.path.join(REPO, 'bit', '**', '*.py'), recursive=True)))


def closure(pid, tier):
    from . import api
    todo = [n for n, h in api.REG.items() if pid in h.props and (tier == 'thorough' or not h.thorough)]
    out, cons = [], []
    while todo:
        n = todo.pop(0)
        if n in out:
            continue
        out.append(n)
        for c in api.REG[n].uses:
            if c not in cons:
                cons.append(c)
                todo += [p for p in api.CONTRACT[c].proofs]
    return out, cons


# ---- worker processes ---------------------------------------------------------------------------

class Task:
    def __init__(self, key, fn, limit):
        self.key, self.fn, self.limit = key, fn, limit


def run_tasks(tasks, on_done=None):
    """Each task in a forked child with a wall-clock limit; returns {key: result}."""
    res, live = {}, {}
    tasks = list(tasks)
    stop = None
    while tasks or live:
        if stop is not None and time.monotonic() > stop:
            tasks.clear()
        while tasks and len(live) < JOBS:
            t = tasks.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    sys.stdout.flush()
                    dn = os.open(os.devnull, os.O_WRONLY)
                    if not os.environ.get('PYDV_TRACE'):
                        os.dup2(dn, 1)
                    try:
                        out = t.fn()
                    except BaseException as e:
                        out = dict(status='error', why='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-1500:])
                    try:
                        data = pickle.dumps(out)
                    except Exception as e:
                        data = pickle.dumps(dict(status='error', why='unpicklable result: %s' % e))
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = (t, pid, time.monotonic(), [])
        if not live:
            break
        rd, _, _ = select.select(list(live), [], [], 0.5)
        now = time.monotonic()
        for fd in list(live):
            t, pid, t0, buf = live[fd]
            done = False
            if fd in rd:
                d = os.read(fd, 1 << 20)
                if d:
                    buf.append(d)
                else:
                    done = True
            elif now - t0 > t.limit or (stop is not None and now > stop):
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                done = True
                buf[:] = [pickle.dumps(dict(status='error', why='time limit of %d s' % t.limit if stop is None else 'stopped: a violation was found'))]
            if done:
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
                try:
                    res[t.key] = pickle.loads(b''.join(buf))
                except Exception as e:
                    res[t.key] = dict(status='error', why='worker ended without a result')
                if on_done:
                    on_done(t.key, res[t.key])
                if stop is None and hard(res[t.key]):
                    stop = time.monotonic() + 10
    return res


def hard(r):
    """A failing input has been found."""
    return r.get('status') == 'fail' or any('replayed' in f for f in r.get('failures', ()))


def known_findings():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                head, _, what = line[len('finding:'):].partition('::')
                d = dict(x.split('=', 1) for x in head.split() if '=' in x)
                d['what'] = what.strip()
                out.append(d)
    return out


def prove_task(h, tier, scale, fix=()):
    from . import verify, core
    r = verify.prove(h, h.budget * scale, fix)
    # counterexamples of the verifier replayed on the real code
    for f in r['failures']:
        inp = f.pop('input', None)
        if inp is not None and not verify.fits(h, inp):
            f['contradicted'] = True               # not an input of the harness: what is known of some list item was not used
            try:
                f['pickle'] = pickle.dumps({n: v for n, v in inp.items() if h.doms[n].fits(v)}).hex()
            except Exception:
                pass
            inp = None
        if inp is not None:
            try:
                shown, res = verify.replay_input(h, inp)
            except BaseException as e:
                continue
            f['model'] = shown
            if res is None:
                f['contradicted'] = True           # the real code passes the check on this very input
            try:
                f['pickle'] = pickle.dumps(inp).hex()
            except Exception:
                f['pickle'] = None
            if res not in (None, 'skip'):
                f['replayed'] = list(res)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.setup:
        load()
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        print('verifier ready: nothing to build')
        return 0
    t0 = time.monotonic()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    load()
    from . import api, verify
    names, cons = closure(a.pid, tier)
    if not names:
        print('no harness for', a.pid)
        return 2
    hs = {n: api.REG[n] for n in names}
    thorough = tier == 'thorough'
    tasks = []
    for n, h in hs.items():
        if h.symbolic:
            b = h.budget * (2 if thorough else 1)
            for k, fix in enumerate(verify.pieces(h)):
                tasks.append(Task(('prove', n, k), (lambda h=h, fix=fix: prove_task(h, tier, 2 if thorough else 1, fix)), b * 1.6 + 60))
    for n, h in hs.items():
        if h.native:
            c, s = (h.cases * 20, h.secs * 10) if thorough else (h.cases, h.secs)
            tasks.append(Task(('native', n), (lambda h=h, c=c, s=s: verify.native(h, a.seed, c, s)), s + 60))
    tasks.sort(key=lambda t: -t.limit)

    def note(k, r):
        if a.v:
            print('  %-7s %-34s %-11s %s %s' % (k[0], k[1], r['status'], r.get('why', '')[:150],
                  {x: r[x] for x in ('obligations', 'discharged', 'paths', 'queries', 'wall_s', 'cases', 'label', 'detail', 'input') if x in r}),
                  flush=True)
            for f in r.get('failures', [])[:3]:
                print('      ', {k: v for k, v in f.items() if k != 'formula'}, flush=True)
    res = run_tasks(tasks, note)
    for n, h in hs.items():
        if h.symbolic:
            res[('prove', n)] = verify.merge([res.pop(('prove', n, k), dict(status='error', why='not run'))
                                              for k in range(len(verify.pieces(h)))])
    # second look: harnesses whose proof did not go through and whose native run passed
    again = []
    for n, h in hs.items():
        p = res.get(('prove', n))
        nat = res.get(('native', n))
        if not h.native or nat is None or nat.get('status') == 'fail':
            continue
        if p is None or p['status'] == 'proved' or any('replayed' in f for f in p.get('failures', ())):
            continue
        if p['status'] == 'failed':
            near = [f['pickle'] for f in p['failures'] if f.get('pickle')]
            for w in range(3):
                again.append(Task(('search', n, w), (lambda h=h, w=w, near=near: verify.native(
                    h, a.seed + 1000 + w, 10 ** 7, 45 if not thorough else 120, near=near)), 200))
        elif not h.bounded:
            again.append(Task(('search', n, 0), (lambda h=h: verify.native(h, a.seed + 1000, 10 ** 7, 20 if not thorough else 120)), 200))
    found = any(hard(r) for r in res.values())
    res2 = run_tasks(again, note) if again and not found else {}
    known = [k for k in known_findings() if k.get('property') == a.pid]

    violations, knownhit, soft = [], [], []
    for n, h in hs.items():
        nats = [('native', res.get(('native', n)))] + [('search', v) for k, v in res2.items() if k[1] == n]
        hit = None
        for tag, r in nats:
            if r is not None and r.get('status') == 'fail':
                hit = dict(harness=n, label=r['label'], detail=r['detail'], kind='native', seed=r['seed'], case=r['case'], near=r.get('near'),
                           tag=r['tag'], input=r['input'])
                break
        p = res.get(('prove', n))
        if hit is None and p is not None:
            for f in p.get('failures', ()):
                if 'replayed' in f:
                    hit = dict(harness=n, label=f['label'], detail=str(f['replayed']), kind='counterexample', input=f['model'],
                               pickle=f.get('pickle'), verifier=f)
                    break
        if hit is None and p is not None and p['status'] == 'failed':
            # a counterexample that the real code does not confirm when run on it comes from what the contracts leave open
            ref = [f for f in p['failures'] if f['status'] == 'refuted' and not f.get('contradicted')]
            if ref:
                hit = dict(harness=n, label=ref[0]['label'], kind='obligation', detail=ref[0].get('detail', ''),
                           input=ref[0].get('model'), verifier=p['failures'])
            else:
                soft.append(n)
        if hit:
            k = next((k for k in known if k.get('harness') == n and k.get('label', '').replace('_', ' ') in ('', hit['label'])), None)
            if k:
                knownhit.append((k, hit))
            else:
                violations.append(hit)
    violations.sort(key=lambda v: v['kind'] == 'obligation')
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    for k, hit in knownhit:
        print('KNOWN-FINDING: property=%s %s' % (a.pid, k['what']))
    if violations:
        v = violations[0]
        path = os.path.join(VERIF, 'evidence', 'replay', '%s.json' % a.pid)
        json.dump(dict(property=a.pid, first=v, others=violations[1:]), open(path, 'w'), indent=1, default=str)
        print('failed: %s / %s' % (v['harness'], v['label']))
        print('  %s' % str(v.get('detail'))[:800])
        print('  input: %s' % str(v.get('input'))[:1200])
        print('VIOLATION property=%s replay=%s%s' % (a.pid, path, ' no-failing-input-found' if v['kind'] == 'obligation' else ''))
    ev = evidence(a, tier, hs, cons, res, res2, soft, violations, knownhit, time.monotonic() - t0)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', '%s.json' % a.pid), 'w'), indent=1, default=str)
    c = ev['coverage']
    print('%s %s: %d/%d obligations discharged (bounded: %d/%d) over %d functions, %d proofs, %d bounded, %d native runs, %.1f s' % (
        a.pid, tier, c['discharged'], c['obligations'], c['bounded_discharged'], c['bounded_obligations'], len(c['functions_under_contract']), len(c['proved']), len(c['bounded']),
        c['native_runs'], ev['wall_s']))
    return 1 if violations else 0


def evidence(a, tier, hs, cons, res, res2, soft, violations, knownhit, wall):
    from . import api
    obl = dis = bobl = bdis = nat = 0
    solver = 0.0
    q = 0
    fns, proved, bounded, labels, samples = {}, [], [], {}, []
    for n, h in hs.items():
        p = res.get(('prove', n))
        r = res.get(('native', n)) or {}
        nn = r.get('cases', 0) + sum(v.get('cases', 0) for k, v in res2.items() if k[1] == n)
        nat += nn
        if p is not None and p['status'] in ('proved', 'failed'):
            if h.bounded:                 # never counted as proved
                bobl += p['obligations']
                bdis += p['discharged']
            else:
                obl += p['obligations']
                dis += p['discharged']
            solver += p['solver_s']
            q += p['queries']
            fns.update({f: x for f, x in p['functions'].items() if f.startswith('bit/')})
            for l, c in p['labels'].items():
                labels['%s: %s' % (n, l)] = c
        if p is not None and p['status'] == 'proved':
            if h.bounded:
                bounded.append(dict(harness=n, bound=h.bounded, how='proved for every input within the bound',
                                    obligations=p['obligations'], native_runs=nn))
            else:
                proved.append(n)
        else:
            why = 'not attempted: ' + (h.bounded or 'outside the verifier') if p is None else \
                ('undischarged obligation' if p['status'] == 'failed' else p.get('why', ''))
            bounded.append(dict(harness=n, bound='%d generated inputs executed on the real code' % nn, why=why))
    return dict(
        property=a.pid, tier=tier, seed=a.seed, level='proof',
        coverage=dict(
            obligations=obl, discharged=dis, bounded_obligations=bobl, bounded_discharged=bdis,
            checker_cmd='/verif/check %s --tier %s' % (a.pid, tier),
            trusted_base=TRUSTED,
            back_end='z3 %s' % z3v(), solver_s=round(solver, 2), solver_queries=q,
            functions_under_contract=sorted(fns), function_hashes=fns,
            proved=proved, bounded=bounded, obligations_by_label=labels,
            contracts_used={c: dict(proved_by=api.CONTRACT[c].proofs, note=api.CONTRACT[c].note) for c in cons},
            native_runs=nat, undischarged=soft, known_findings=[k['what'] for k, _ in knownhit],
            exhaustive=False),
        assumptions=assumptions(a.pid, cons, hs),
        wall_s=round(wall, 2), violations=len(violations))


def z3v():
    import z3
    return z3.get_version_string()


def assumptions(pid, cons, hs):
    from . import api
    from specs import assume
    out = list(assume.COMMON) + list(assume.PER.get(pid, ()))
    for c in cons:
        if not api.CONTRACT[c].proofs:
            out.append('assumed contract %s: %s' % (c, api.CONTRACT[c].note))
    return out


def replay(path):
    load()
    from . import api, verify
    v = json.load(open(path))['first']
    h = api.REG[v['harness']]
    if v['kind'] == 'native':
        shown, r = verify.replay_case(h, v['seed'], v['case'], v['tag'], v.get('near') or ())
    elif v.get('pickle'):
        shown, r = verify.replay_input(h, pickle.loads(bytes.fromhex(v['pickle'])))
    else:
        print('obligation %s of %s failed; verifier output:' % (v['label'], v['harness']))
        print(json.dumps(v.get('verifier'), indent=1))
        p = verify.prove(h)
        print('re-run:', p['status'], p['why'])
        return 1 if p['status'] == 'failed' else 0
    print('input:', shown)
    print('result:', r)
    return 1 if r not in (None, 'skip') else 0


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    sys.exit(main())
