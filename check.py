"""check.py PROPERTY [--tier quick|thorough]   decide one property on /repo's current tree

exit 0: every obligation discharged (or, for parts the verifier cannot decide,
        the labelled bounded check found nothing); exit 1 + VIOLATION line otherwise"""
import argparse
import concurrent.futures as cf
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PYPY = os.environ.get('VERIF_PYPY', '/opt/pypyvenv/bin/python')
REPO = os.environ.get('VERIF_REPO', '/repo')

from contracts import reg                                   # noqa: E402

MODULES = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'contracts'))
                 if f.startswith('c_') and f.endswith('.py'))
TIER = {'quick': dict(secs=100.0, paths=6000, feas=400, prove=4000, portfolio=25, conc_n=250, conc_s=4.0,
                      search_n=4000, search_s=25.0, stand_s=15.0),
        'thorough': dict(secs=900.0, paths=60000, feas=1500, prove=30000, portfolio=240, conc_n=20000,
                         conc_s=60.0, search_n=100000, search_s=180.0, stand_s=120.0)}


def load_contracts():
    for m in MODULES:
        importlib.import_module('contracts.' + m)
    return reg.REG


def find(key):
    mod, name = key.split(':')
    m = importlib.import_module('contracts.' + mod)
    for c in reg.REG:
        if c.key == key:
            return c
    raise KeyError(key)


def sym_job(key, case, tier):
    """runs in a worker process: explore one contract (one structural case)"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from vc import load, sym, harness
    load.install()
    c = find(key)
    t = TIER[tier]
    h = harness.SymHarness()
    h.case = case
    opts = dict(c.opts)
    if tier == 'quick':
        secs = opts.get('secs', t['secs'])
    else:
        secs = max(t['secs'], opts.get('secs', 0))
    e = sym.Explorer(c.fn, max_paths=opts.get('paths', t['paths']), max_secs=secs,
                     feas_ms=opts.get('feas', t['feas']), prove_ms=max(opts.get('prove', 0), t['prove']),
                     linear=opts.get('linear', False))
    t0 = time.time()
    err = None
    try:
        e.run(h)
    except MemoryError:
        err = 'memory limit'
    except (Exception, sym.Unsupported, sym.Budget) as ex:   # engine or contract failure: undecided
        import traceback
        err = '%s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc())
    out = []
    for o in e.obls:
        if o.status == 'proved':
            out.append((o.name, 'proved', o.backend, round(o.secs, 4), None, None, None))
        else:
            m = None
            if o.model is not None:
                m = {k: (str(v) if isinstance(v, Fraction) else v) for k, v in o.model.items()}
            out.append((o.name, o.status, o.backend, round(o.secs, 4), m, o.note, o.smt))
    # proved obligations are aggregated to keep the result small
    agg, rest = {}, []
    for o in out:
        if o[1] == 'proved':
            a = agg.setdefault((o[0], o[2]), [0, 0.0])
            a[0] += 1
            a[1] += o[3]
        else:
            rest.append(o)
    return dict(key=key, case=case, probe=('sat' if 'sat' in e.probes else 'unknown' if 'unknown' in e.probes else 'none'), paths=e.paths, done=e.done_paths, decisions=e.decisions,
                error=err or e.error, proved=[(n, b, k, s) for (n, b), (k, s) in agg.items()], rest=rest,
                solver_secs=round(e.solver_secs, 3), secs=round(time.time() - t0, 3))


BACKENDS = [('cvc5', ['cvc5', '--lang=smt2', '--nl-ext-tplanes', '--tlimit={ms}']),
            ('z3-4.8.12', ['/usr/bin/z3', '-T:{s}']),
            ('z3-nlsat', None),
            ('cvc5-cov', ['cvc5', '--lang=smt2', '--nl-cov', '--tlimit={ms}'])]


def portfolio(smt, secs):
    """try the other back ends on one obligation left unknown"""
    d = tempfile.mkdtemp(prefix='vc')
    try:
        f = os.path.join(d, 'o.smt2')
        open(f, 'w').write('(set-logic ALL)\n' + smt if 'set-logic' not in smt else smt)
        g = os.path.join(d, 'n.smt2')
        open(g, 'w').write(smt.replace('(check-sat)', '(check-sat-using (then simplify solve-eqs (or-else '
                                       '(try-for qfnra-nlsat %d) smt)))' % (secs * 800)))
        ps = []
        for name, cmd in BACKENDS:
            if cmd is None:
                cmd = ['z3-new', '-T:{s}', g]
            else:
                cmd = cmd + [f]
            cmd = [x.format(s=secs, ms=secs * 1000) for x in cmd]
            try:
                ps.append((name, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)))
            except OSError:
                pass
        t0 = time.time()
        res = (None, None)
        live = dict(ps)
        while live and time.time() - t0 < secs + 3:
            for n, p in list(live.items()):
                if p.poll() is not None:
                    out = p.stdout.read().decode(errors='replace').strip().split('\n')[0]
                    del live[n]
                    if out in ('unsat', 'sat'):
                        res = (out, n)
                        live_kill(live)
                        live = {}
                        break
            time.sleep(0.02)
        live_kill(live)
        return res + (time.time() - t0,)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def live_kill(live):
    for p in live.values():
        try:
            p.kill()
            p.wait()
        except Exception:
            pass


def conc_start(jobs):
    """run concrete jobs in parallel PyPy processes (files instead of pipes: no threads needed)"""
    if not jobs:
        return []
    n = min(8, len(jobs))
    ps = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    for g in [jobs[i::n] for i in range(n)]:
        fi, fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile(), tempfile.TemporaryFile()
        fi.write(json.dumps(g).encode())
        fi.seek(0)
        p = subprocess.Popen([PYPY, os.path.join(HERE, 'vc', 'conc.py')], stdin=fi, stdout=fo, stderr=fe, env=env, cwd='/tmp')
        fi.close()
        ps.append((p, g, fo, fe, time.time() + sum(j.get('secs', 10) + 22 for j in g) + 30))
    return ps


def conc_wait(ps):
    out = {}
    for p, g, fo, fe, end in ps:
        try:
            p.wait(timeout=max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        fo.seek(0)
        fe.seek(0)
        for line in fo.read().decode(errors='replace').split('\n'):
            if line.strip():
                try:
                    r = json.loads(line)
                except ValueError:              # cut off
                    continue
                out[r['id']] = r
        e = fe.read().decode(errors='replace')[-500:]
        fo.close()
        fe.close()
        for j in g:
            if j['id'] not in out:
                out[j['id']] = {'id': j['id'], 'error': 'no answer: ' + e, 'evals': 0, 'fails': []}
    return out


def conc(jobs, secs=None):
    return conc_wait(conc_start(jobs))


def sym_all(tasks, lim, workers=8):
    """one forked child per task (parent single-threaded); a child that dies or overruns leaves its task undecided"""
    import pickle
    import select
    todo = list(tasks)[::-1]
    live = {}                    # fd -> [pid, task, bytes, deadline]
    res = {}

    def close(fd, err):
        pid, (k, case, t), buf, end = live.pop(fd)
        os.close(fd)
        if err:
            try:
                os.kill(pid, 9)
            except OSError:
                pass
        os.waitpid(pid, 0)
        r = None
        if not err:
            try:
                r = pickle.loads(bytes(buf))
            except Exception as ex:
                err = 'the verifier process ended early (%s)' % type(ex).__name__
        res[(k, repr(case))] = r or dict(key=k, case=case, paths=0, done=0, decisions=0, error=err, proved=[], rest=[],
                                         solver_secs=0, secs=0)
    while todo or live:
        while todo and len(live) < workers:
            task = todo.pop()
            rd, wr = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(rd)
                    for fd in live:
                        os.close(fd)
                    try:
                        r = sym_job(*task)
                    except BaseException as ex:
                        r = dict(key=task[0], case=task[1], paths=0, done=0, decisions=0, proved=[], rest=[], solver_secs=0,
                                 secs=0, error='%s: %s' % (type(ex).__name__, str(ex)[:300]))
                    d = pickle.dumps(r)
                    with os.fdopen(wr, 'wb') as f:
                        f.write(d)
                    code = 0
                finally:
                    os._exit(code)
            os.close(wr)
            live[rd] = [pid, task, bytearray(), time.time() + lim]
        for fd in select.select(list(live), [], [], 1.0)[0]:
            d = os.read(fd, 1 << 16)
            if d:
                live[fd][2].extend(d)
            else:
                close(fd, None)
        for fd in [f for f, v in live.items() if time.time() > v[3]]:
            close(fd, 'time limit of the verifier process')
    return [res[(k, repr(case))] for k, case, t in tasks]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--noconc', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in TIER else 'quick'
    T = TIER[tier]
    t0 = time.time()
    load_contracts()
    cs = [c for c in reg.REG if a.prop in c.prop and (not a.only or a.only in c.key)]
    if not cs:
        print('no contract for', a.prop)
        return 3
    # ---- 1. obligations of the current source
    tasks = [(c.key, case, tier) for c in cs for case in range(len(c.cases)) if not c.opts.get('nosym')]
    tasks = [(k, find(k).cases[i], t) for k, i, t in tasks]
    tasks.sort(key=lambda x: -find(x[0]).opts.get('weight', 1))
    # cross-check on concrete inputs runs alongside
    cj = []
    if not a.noconc:
        for c in cs:
            if c.conc:
                cj.append({'id': 'x:' + c.key, 'contract': c.key, 'n': int(T['conc_n'] * c.opts.get('conc_mult', 1)),
                           'secs': T['conc_s'] * c.opts.get('conc_mult', 1), 'seed': seed, 'cases': c.cases})
    xjobs = conc_start(cj)
    res = sym_all(tasks, (T['secs'] if tier == 'quick' else max(T['secs'], 900)) + 90)
    xres = conc_wait(xjobs)
    # ---- 2. obligations left unknown go to the other back ends
    unk = [(r, i) for r in res for i, o in enumerate(r['rest']) if o[1] == 'unknown' and o[6]]
    if unk:
        sub = unk[:40]
        with cf.ThreadPoolExecutor(3) as tp:
            for (r, i), (ans, be, s) in zip(sub, tp.map(lambda x: portfolio(x[0]['rest'][x[1]][6], T['portfolio']), sub)):
                o = list(r['rest'][i])
                r['solver_secs'] += s
                if ans == 'unsat':
                    o[1], o[2] = 'proved', be
                    r['proved'].append((o[0], be, 1, s))
                elif ans == 'sat':
                    o[1], o[2] = 'refuted', be
                r['rest'][i] = tuple(o)
    # ---- 3. collect
    nobl = ndis = 0
    bobl = bdis = 0
    backends = {}
    failing = []            # (contract, obligation tuple, case)
    undecided = {}          # contract key -> reasons
    for r in res:
        c = find(r['key'])
        k = sum(x[2] for x in r['proved'])
        bad = [o for o in r['rest'] if o[1] != 'proved']
        if c.bounded:
            bobl += k + len(bad)
            bdis += k
        else:
            nobl += k + len(bad)
            ndis += k
            for n, b, kk, s in r['proved']:
                backends[b] = backends.get(b, 0) + kk
        if r['error']:
            undecided.setdefault(r['key'], []).append('case %r: %s' % (r['case'], r['error'][:2000]))
        elif k + len(bad) == 0:
            undecided.setdefault(r['key'], []).append('case %r: no obligation was generated (vacuous)' % (r['case'],))
        for o in bad:
            if o[1] == 'refuted':
                failing.append((c, o, r['case']))
            else:
                undecided.setdefault(r['key'], []).append('%s unknown: %s' % (o[0], (o[5] or '')[:300]))
    # obligations that must be reached (vacuity guard): named by the contract
    for c in cs:
        must = set(c.opts.get('reach', []))
        if must:
            got = set()
            for r in res:
                if r['key'] == c.key:
                    got |= {x[0] for x in r['proved']} | {o[0] for o in r['rest']}
            miss = must - got
            if miss and c.key not in undecided:
                undecided.setdefault(c.key, []).append('obligation never reached: %s' % sorted(miss))
    # ---- 4. decide
    known = load_known(a.prop)
    violations = []
    bounded_runs = {}
    sat_keys = {}
    for c, o, case in failing:
        sat_keys.setdefault(c.key, []).append((o, case))
    # concrete failures of the cross-check on the real code
    for c in cs:
        xr = xres.get('x:' + c.key)
        if xr and xr.get('fails'):
            violations.append((c, xr['fails'][0]['names'][0], xr['fails'][0], None, 'cross-check'))
    for key, lst in sat_keys.items():
        c = find(key)
        if any(v[0] is c for v in violations):
            continue
        jobs = []
        for i, (o, case) in enumerate(lst[:12]):
            if o[4]:
                jobs.append({'id': 'r%d' % i, 'contract': key, 'inputs': o[4], 'case': case, 'secs': 10})
        rr = conc(jobs, 10) if c.conc else {}
        hit = None
        for i, (o, case) in enumerate(lst[:12]):
            x = rr.get('r%d' % i)
            if x and x.get('fails'):
                hit = (c, o[0], x['fails'][0], o, 'counterexample of the verifier replayed on the real code')
                break
        if hit is None and c.conc:
            sj = [{'id': 's%d' % i, 'contract': key, 'n': T['search_n'], 'secs': T['search_s'], 'seed': '%s.%s' % (seed, i),
                   'cases': c.cases, 'maxfails': 1} for i in range(6)]
            ss = conc(sj, T['search_s'])
            for x in ss.values():
                if x.get('fails'):
                    hit = (c, x['fails'][0]['names'][0], x['fails'][0], lst[0][0], 'search after a failed obligation')
                    break
        if hit is None and all('[abstract]' in (o[5] or '') for o, case in lst):
            # (invariants of a loop or sums are known in part only: the model need not be a run of the code)
            undecided.setdefault(key, []).append('%s not proved: %s' % (lst[0][0][0], (lst[0][0][5] or '')[:300]))
            continue
        if hit is None:
            o = lst[0][0]
            hit = (c, o[0], None, o, 'no-failing-input-found')
        violations.append(hit)
    # undecided contracts: bounded stand-in on the real code
    todo = [k for k in undecided if not any(v[0].key == k for v in violations) and find(k).conc]
    todo += [c.key for c in cs if c.opts.get('nosym')]
    if todo:
        sj = []
        for k in todo:
            c = find(k)
            m = max(1, 6 // len(todo))
            for i in range(m):
                sj.append({'id': 'b:%s:%d' % (k, i), 'contract': k, 'n': T['search_n'],
                           'secs': T['stand_s'] * c.opts.get('conc_mult', 1), 'seed': '%s.b%s' % (seed, i),
                           'cases': c.cases, 'maxfails': 1})
        ss = conc(sj, T['stand_s'])
        for x in ss.values():
            k = x['id'][2:].rsplit(':', 1)[0]
            b = bounded_runs.setdefault(k, [0, 0])
            b[0] += x.get('evals', 0)
            b[1] += x.get('ok', 0)
            if x.get('fails') and not any(v[0].key == k for v in violations):
                violations.append((find(k), x['fails'][0]['names'][0], x['fails'][0], None, 'bounded stand-in'))
    # ---- 5. report
    rep = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rep, exist_ok=True)
    lines = []
    nviol = 0
    kprinted = set()
    for v in violations:
        c, name, inp, o, how = v
        kf = match_known(known, c, name, inp)
        if kf:
            if kf['id'] not in kprinted:
                kprinted.add(kf['id'])
                lines.append('KNOWN-FINDING: property=%s %s' % (a.prop, kf['text']))
            continue
        nviol += 1
        path = os.path.join(rep, '%s-%s-%d.json' % (a.prop, c.fn.__name__, nviol))
        doc = dict(property=a.prop, contract=c.name, contract_key=c.key, functions=c.fns, obligation=name, how=how)
        if inp:
            doc.update(inputs=inp.get('inputs'), case=inp.get('case'), failed=inp.get('names'), note=inp.get('note'),
                       replay='%s -B /verif/replay.py %s' % (PYPY, path))
        if o:
            doc.update(verifier=dict(status=o[1], backend=o[2], model=o[4], detail=o[5]))
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s%s' % (a.prop, path, '' if inp else ' no-failing-input-found'))
    wall = time.time() - t0
    solver = sum(r['solver_secs'] for r in res)
    proved_fns = sorted({f for c in cs if not c.bounded and not c.opts.get('nosym') and c.key not in undecided for f in c.fns})
    bounded_fns = sorted({f for c in cs if c.bounded or c.opts.get('nosym') or c.key in undecided for f in c.fns})
    cov = dict(
        obligations=nobl, discharged=ndis,
        checker_cmd='python3-vt check.py %s --tier %s (own verification-condition generator over the real source, z3 %s; '
                    'left-over obligations: cvc5, z3 4.8.12, z3 nlsat)' % (a.prop, tier, _zv()),
        trusted_base=['/verif/vc (symbolic execution of the real code in CPython, rewrites described in DESIGN.md)',
                      'z3', 'CPython 3.12 semantics standing for PyPy 3.9'],
        discharged_by=backends, solver_seconds=round(solver, 2), paths=sum(r['paths'] for r in res),
        functions_under_contract=proved_fns,
        contracts=[dict(name=c.name, key=c.key, functions=c.fns, kind='bounded: ' + c.bounded if c.bounded else
                        ('bounded: concrete inputs only' if c.opts.get('nosym') else 'unbounded'),
                        paths=sum(r['paths'] for r in res if r['key'] == c.key),
                        discharged=sum(x[2] for r in res if r['key'] == c.key for x in r['proved']),
                        open=sum(len([o for o in r['rest'] if o[1] != 'proved']) for r in res if r['key'] == c.key),
                        satisfiable_cases='%d of %d' % (sum(r.get('probe') == 'sat' for r in res if r['key'] == c.key),
                                                        sum(1 for r in res if r['key'] == c.key)),
                        undecided=undecided.get(c.key), secs=round(sum(r['secs'] for r in res if r['key'] == c.key), 2))
                   for c in cs],
        bounded_obligations=bobl, bounded_discharged=bdis, bounded_functions=bounded_fns,
        bounded_stand_in_runs={k: dict(evaluations=v[0], completed=v[1]) for k, v in bounded_runs.items()},
        undecided={k: v[:5] for k, v in undecided.items()},
        crosscheck=dict(evaluations=sum(x.get('evals', 0) for x in xres.values()),
                        completed=sum(x.get('ok', 0) for x in xres.values()),
                        distinct=sum(x.get('distinct', 0) for x in xres.values()),
                        rule='same contract text on the unmodified modules under PyPy, random inputs seeded by VERIF_SEED'),
        explanation='Contracts on the real functions; obligations generated from /repo on this run and discharged by SMT. '
                    'Bounded parts are listed under bounded_* and not counted in obligations/discharged.')
    level = manifest_level(a.prop)
    ev = dict(property=a.prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2),
              violations=nviol, assumptions=assumptions(cs))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    if a.v:
        for r in res:
            print('  %-40s case=%r paths=%d obl=%d open=%d %.1fs %s' % (
                r['key'], r['case'], r['paths'], sum(x[2] for x in r['proved']),
                len([o for o in r['rest'] if o[1] != 'proved']), r['secs'], (r['error'] or '')[:1500]))
            for o in r['rest'][:6]:
                if o[1] != 'proved':
                    print('      ', o[0], o[1], o[4], (o[5] or '')[:600])
        for k, x in xres.items():
            print('  x', k, {y: x.get(y) for y in ('evals', 'ok', 'skip', 'secs', 'error', 'timeout') if x.get(y)},
                  x.get('fails', [])[:1])
        print('undecided:', json.dumps(undecided, indent=1)[:4000])
    print('%s %s: %d/%d obligations discharged, %d bounded (%d discharged), %d contract(s) undecided, cross-check %d runs, '
          '%d violation(s), %.1fs' % (a.prop, tier, ndis, nobl, bobl, bdis, len(undecided),
                                      cov['crosscheck']['completed'], nviol, wall))
    if nviol:
        return 1
    # nothing decided at all: error, never a silent pass
    if nobl + bobl == 0 and not any(v[1] for v in bounded_runs.values()):
        print('nothing was checked')
        return 3
    dead = [k for k in undecided if find(k).conc and not bounded_runs.get(k, [0, 0])[1]
            and not xres.get('x:' + k, {}).get('ok')]
    if dead:
        print('undecided and not covered by any bounded run:', dead)
        return 3
    return 0


def _zv():
    import z3
    return z3.get_version_string()


def manifest_level(prop):
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass
    return 'proof'


def load_known(prop):
    try:
        k = json.load(open(os.path.join(HERE, 'known_findings.json')))
        return [x for x in k['findings'] if x['property'] == prop]
    except Exception:
        return []


def match_known(known, c, name, inp):
    for k in known:
        if k['contract'] == c.fn.__name__ and k['obligation'] in (name, '*') and (
                not k.get('inputs') or (inp and all(str(inp['inputs'].get(x)) == str(v) for x, v in k['inputs'].items()))):
            return k
    return None


BASE_ASSUMPTIONS = [
    'floating point arithmetic is treated as real arithmetic; round(v, 8) returns some value within 5e-9 of v '
    '(exactly v if v is a sum of coordinates); acos carries an explicit floating-slack obligation',
    'hash values of unequal keys differ; sets iterate in insertion order (PyPy)',
    'sqrt, acos, atan2, sin, cos are axiomatised (defining equations, ranges, angle addition)',
    'CPython 3.12 executes the functions as PyPy 3.9 does',
    'plotting, printing and sleeping have no effect on results',
]


def assumptions(cs):
    out = list(BASE_ASSUMPTIONS)
    for c in cs:
        for n in c.notes:
            s = '%s: %s' % (c.name, n)
            if s not in out:
                out.append(s)
    return out


if __name__ == '__main__':
    sys.exit(main())
