#!/usr/bin/env python3-vt
"""Decide one property: python3-vt /verif/check.py C07 [--tier quick|thorough]; --replay FILE re-runs a failing input."""
import argparse
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import resource
import sys
import time
import traceback

sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GCU_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
logging.disable(logging.CRITICAL)
os.environ.setdefault('PYTHONHASHSEED', '0')

TOTAL = {'quick': 720, 'thorough': 3000}
NATIVE_S = {'quick': 25, 'thorough': 240}
RUNS_X = {'quick': 6, 'thorough': 60}


def load(prop):
    from contracts import INDEX
    for m in INDEX[prop]:
        importlib.import_module('contracts.' + m)
    from pydv import rt
    return [d for d in rt.REGISTRY if d.prop == prop]


def native_phase(d, seed, runs, seconds):
    """run the contract on generated inputs"""
    from pydv import rt
    t0 = time.time()
    cnt = {'ok': 0, 'skip': 0}
    checks = 0
    distinct = set()
    sample = None
    for i in range(runs):
        if time.time() - t0 > seconds:
            break
        rng = random.Random('%d/%s/%d' % (seed, d.name, i))
        r, msg, c = rt.native_run(d.fn, rng, size=1 + i % 9)
        if r == 'fail':
            return dict(fail=(c.record, msg), cnt=cnt, checks=checks, distinct=len(distinct), sample=sample)
        cnt[r] += 1
        checks += c.checks
        if c.checks:
            distinct.add(hashlib.md5(repr(c.record).encode()).hexdigest())
            if sample is None or i == 7:
                sample = repr(c.record)[:600]
    return dict(fail=None, cnt=cnt, checks=checks, distinct=len(distinct), sample=sample)


def work(d, tier, seed, deadline, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    except Exception:
        pass
    out = dict(driver=d.name, sym=d.sym)
    try:
        from pydv import rt, sym
        try:
            out['native'] = native_phase(d, seed, d.runs * RUNS_X[tier], NATIVE_S[tier])
        except Exception:
            out['native'] = dict(fail=None, cnt={}, checks=0, distinct=0, sample=None, error=traceback.format_exc()[-800:])
        conn.send(('part', dict(out)))
        if d.sym and not d.known:
            left = deadline - time.time()
            budget = min(d.budget * (1 if tier == 'quick' else 4), left * 0.6)
            try:
                r = sym.verify(d, budget=budget, timeout_ms=8000 if tier == 'quick' else 30000)
            except MemoryError:
                r = sym.Result()
                r.reason = 'out of memory'
            except RecursionError:
                r = sym.Result()
                r.reason = 'recursion limit of the executor'
            except Exception as e:
                r = sym.Result()
                r.status = 'unsupported'
                r.reason = 'executor: %s: %s' % (type(e).__name__, str(e)[:200])
                out['trace'] = traceback.format_exc()[-1500:]
            out['verify'] = dict(status=r.status, reason=r.reason, n=r.n, proved=r.proved, t_exec=round(r.t_exec, 2),
                                 t_solve=round(r.t_solve, 2), backends=r.backends, funcs=r.funcs, n_inv=r.n_inv,
                                 loops=[(a, b, dd) for a, b, c, dd in r.loops],
                                 failed=[dict(name=o.name, where=o.where, status=o.status, model=str(o.model)[:3000] if o.model is not None else None)
                                         for o in r.failed[:10]])
            conn.send(('part', dict(out)))
            failing = out['native'].get('fail')
            if r.status != 'proved' and not failing:
                # counterexamples of the failed obligations, then of bounded executions, replayed on the real code
                log = []
                hit = None
                t1 = time.time()
                if r.eng is not None and not any(rec[0] == 'seq' for rec in r.eng.inputs):
                    for o in r.failed:
                        if o.status != 'refuted' or time.time() > deadline - 20:
                            continue
                        try:
                            for vals in sym.counterexamples(r.eng, o):
                                k, msg, c = rt.native_run(d.fn, values=vals)
                                log.append('model of %s: replay %s %s' % (o.name, k, msg))
                                if k == 'fail':
                                    hit = (vals, msg, o.name)
                                    break
                        except Exception as e:
                            log.append('model of %s: %s' % (o.name, e))
                        if hit:
                            break
                complete = False
                if not hit and d.bmc:
                    left = deadline - time.time() - 10
                    if left > 5:
                        try:
                            complete, got = search(sym, d, left, log)
                            if got:
                                hit = (got[0], got[1], got[2].name)
                        except Exception as e:
                            log.append('bounded search: %s: %s' % (type(e).__name__, str(e)[:200]))
                if not hit:
                    left = min(60, deadline - time.time() - 5)
                    if left > 2:
                        nf = native_phase(d, seed + 1, d.runs * 20, left)
                        if nf['fail']:
                            hit = (nf['fail'][0], nf['fail'][1], 'generated input')
                        out['native']['checks'] += nf['checks']
                out['search'] = dict(hit=hit, complete=complete, log=log[:12], t=round(time.time() - t1, 1))
    except BaseException:
        out['error'] = traceback.format_exc()[-1500:]
    conn.send(('done', out))
    conn.close()


def search(sym, d, budget, log):
    """bounded symbolic search; returns (complete?, hit)"""
    from pydv.values import Unsupported
    from pydv import rt
    t0 = time.time()
    complete = True
    for n in d.bmc:
        if time.time() - t0 > budget:
            return False, None
        try:
            eng = sym.execute(d, unroll=n + 1, size=n, budget=budget - (time.time() - t0))
        except Unsupported as e:
            log.append('bounded executions of size %d: %s' % (n, str(e)[:120]))
            complete = False
            continue
        proved = 0
        for o in eng.obls:
            if o.cond is True:
                continue
            if time.time() - t0 > budget:
                return False, None
            sym.discharge(eng, o, 5000, second=False)
            if o.status == 'proved':
                proved += 1
                continue
            if o.status != 'refuted':
                complete = False
                continue
            replayed = None
            for vals in sym.counterexamples(eng, o):
                r, msg, c = rt.native_run(d.fn, values=vals)
                replayed = r
                if r == 'fail':
                    return False, (vals, msg, o)
            log.append('size %d %s: refuted, replay %s' % (n, o.name, replayed))
            if replayed is None:
                complete = False
        log.append('bounded executions of size %d: %d obligations hold' % (n, proved))
    return complete, None


def known_findings():
    """entries "known: property=<id> driver=<contract> <what fails>" of the known-findings file"""
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == 'known:' and w[1].startswith('property=') and w[2].startswith('driver='):
                out.append(dict(property=w[1][9:], driver=w[2][7:], what=w[3].strip(), status='known'))
    return out


def write_replay(prop, driver, data):
    rd = os.path.join(HERE, 'out', 'replay')
    os.makedirs(rd, exist_ok=True)
    p = os.path.join(rd, '%s-%s.json' % (prop, driver))
    with open(p, 'w') as f:
        json.dump(data, f, indent=1, default=str)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    tier = a.tier if a.tier in TOTAL else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or '1')
    prop = a.prop
    t0 = time.time()
    deadline = t0 + TOTAL[tier]
    load_error = None
    drivers = []
    try:
        drivers = load(prop)
    except Exception:
        load_error = traceback.format_exc()[-2000:]
    results = run_all(drivers, tier, seed, deadline, a.jobs)
    return conclude(prop, tier, seed, drivers, results, load_error, t0, a.v)


def run_all(drivers, tier, seed, deadline, jobs):
    ctx = mp.get_context('fork')
    order = sorted(range(len(drivers)), key=lambda i: -(drivers[i].budget if drivers[i].sym else 0))
    pending = list(order)
    running = {}
    results = [None] * len(drivers)
    while pending or running:
        while pending and len(running) < jobs:
            i = pending.pop(0)
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(drivers[i], tier, seed, deadline, wr))
            p.start()
            wr.close()
            running[i] = (p, rd)
        from multiprocessing.connection import wait
        wait([r for _, r in running.values()], timeout=0.5)
        for i in list(running):
            p, rd = running[i]
            fin = False
            try:
                while rd.poll():
                    kind, data = rd.recv()
                    results[i] = data
                    if kind == 'done':
                        fin = True
                        break
            except (EOFError, OSError):
                fin = True
                if results[i] is None:
                    results[i] = dict(driver=drivers[i].name, sym=drivers[i].sym, error='the worker ended early')
                else:
                    results[i].setdefault('error', 'the worker ended early')
            if not fin and time.time() > deadline + 30:
                fin = True
                results[i] = dict(results[i] or dict(driver=drivers[i].name, sym=drivers[i].sym), error='time limit')
            if fin:
                p.terminate()
                p.join(5)
                if p.is_alive():
                    p.kill()
                    p.join()
                rd.close()
                del running[i]
    return results


def conclude(prop, tier, seed, drivers, results, load_error, t0, verbose):
    known = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'known']
    lines, viol = [], 0
    n = proved = n_inv = 0
    t_exec = t_solve = 0.0
    backends, funcs = {}, {}
    undecided, bounded_only, per = [], [], []
    evals = distinct = 0
    samples = []
    for d, r in zip(drivers, results):
        r = r or {}
        nat = r.get('native') or {}
        ver = r.get('verify')
        evals += nat.get('checks', 0)
        distinct += nat.get('distinct', 0)
        if nat.get('sample') and len(samples) < 4:
            samples.append('%s: %s' % (d.name, nat['sample']))
        if d.known:
            ent = [k for k in known if k.get('driver') == d.name]
            if nat.get('fail'):
                if ent:
                    lines.append('KNOWN-FINDING: property=%s %s' % (prop, ent[0]['what']))
                else:
                    p = write_replay(prop, d.name, dict(property=prop, driver=d.name, inputs=nat['fail'][0], message=nat['fail'][1]))
                    lines.append('VIOLATION property=%s replay=%s' % (prop, p))
                    viol += 1
            continue
        hit = None
        if nat.get('fail'):
            hit = (nat['fail'][0], nat['fail'][1], 'contract of %s on a generated input' % d.name)
        elif r.get('search') and r['search'].get('hit'):
            hit = r['search']['hit']
        failed_ob = (ver or {}).get('failed') or []
        if hit:
            p = write_replay(prop, d.name, dict(property=prop, driver=d.name, inputs=hit[0], message=hit[1], obligation=hit[2],
                                                failed_obligations=failed_ob,
                                                how='python3-vt /verif/check.py --replay <this file>'))
            lines.append('# %s: %s' % (d.name, hit[1]))
            lines.append('VIOLATION property=%s replay=%s' % (prop, p))
            viol += 1
        elif ver and ver['status'] == 'refuted' and not (r.get('search') or {}).get('complete') and not d_spurious(r):
            p = write_replay(prop, d.name, dict(property=prop, driver=d.name, inputs=None, obligation=failed_ob[0]['name'] if failed_ob else None,
                                                failed_obligations=failed_ob, search=(r.get('search') or {}).get('log')))
            lines.append('# %s: obligation refuted: %s' % (d.name, failed_ob[0]['name'] if failed_ob else '?'))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
            viol += 1
        if ver:
            n += ver['n']
            proved += ver['proved']
            n_inv += ver['n_inv']
            t_exec += ver['t_exec']
            t_solve += ver['t_solve']
            for k, v in ver['backends'].items():
                backends[k] = backends.get(k, 0) + v
            for k, v in ver['funcs'].items():
                funcs[k] = funcs.get(k, 0) + v
            per.append('%s: %s, %d/%d obligations%s' % (d.name, ver['status'], ver['proved'], ver['n'], (' (' + ver['reason'] + ')') if ver['reason'] else ''))
            if ver['status'] != 'proved':
                undecided.append('%s: %s %s %s' % (d.name, ver['status'], ver['reason'], [o['name'] for o in failed_ob][:4]))
        elif d.sym:
            undecided.append('%s: no result (%s)' % (d.name, (r.get('error') or '?')[-200:]))
        else:
            bounded_only.append('%s: %s' % (d.name, d.note or 'bounded run-time check of the contract'))
        if verbose:
            print('  %-28s %s native=%s/%s %s' % (d.name, (ver or {}).get('status', 'bounded'), nat.get('cnt'), nat.get('checks'),
                                                 {k: v for k, v in (ver or {}).items() if k in ('reason', 't_exec', 't_solve', 'n', 'proved')}))
            if r.get('search'):
                print('      search', r['search'])
            if r.get('error'):
                print('      error', r['error'])
            if nat.get('error'):
                print('      native error', nat['error'])
            for o in failed_ob[:3]:
                print('      ', o['status'], o['name'], o['where'])
    meta = {}
    try:
        from contracts import META
        meta = META.get(prop, {})
    except Exception:
        pass
    level = 'proof' if n else 'exploration'
    if load_error:
        undecided.append('contracts could not be loaded: ' + load_error[-300:])
    from pydv.trust import TRUSTED, ASSUMED
    cov = dict(obligations=n, discharged=proved,
               checker_cmd='python3-vt /verif/check.py %s --tier %s' % (prop, tier),
               trusted_base=TRUSTED + meta.get('trusted', []),
               back_ends=backends, loop_invariant_conjuncts_inferred_and_proved=n_inv,
               symbolic_execution_s=round(t_exec, 2), solver_s=round(t_solve, 2),
               functions_under_contract=sorted(k for k in funcs if k.startswith('gcodeutils')),
               per_contract=per, undecided=undecided,
               contracts_used_for_calls=sorted(set('%s by %s' % (getattr(f, '__qualname__', f), c.__name__)
                                                   for d in drivers if d.sym for f, c in d.uses.items())),
               bounded_stand_ins=bounded_only,
               evaluations=evals, distinct_nontrivial=distinct,
               rule='inputs of the contracts drawn by seeded generators; distinct inputs on which at least one postcondition was evaluated',
               samples=samples or ['none'])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ASSUMED + meta.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    for u in undecided:
        print('UNDECIDED', u)
    print('%s: %d/%d obligations discharged (%s), %d run-time checks, %.1fs%s' % (
        prop, proved, n, ', '.join('%s %d' % x for x in sorted(backends.items())), evals, time.time() - t0,
        '' if not undecided else '; %d contract(s) undecided, bounded stand-in held' % len(undecided) if not viol else ''))
    if not viol and (n == 0 and evals == 0):
        if load_error:
            print(load_error)
        print('ERROR: nothing was checked')
        return 0 if False else 3
    return 1 if viol else 0


def d_spurious(r):
    """every countermodel was executed on the real code and none failed"""
    log = (r.get('search') or {}).get('log') or []
    rep = [l for l in log if l.startswith('model of')]
    return bool(rep) and all('replay ok' in l for l in rep)


def replay(path):
    data = json.load(open(path))
    if data.get('inputs') is None:
        print('no failing input is recorded; obligation: %s' % data.get('obligation'))
        return 1
    from pydv import rt
    for d in load(data['property']):
        if d.name == data['driver']:
            r, msg, c = rt.native_run(d.fn, values=data['inputs'])
            print('%s %s: %s %s' % (data['property'], d.name, r, msg))
            return 1 if r == 'fail' else 0
    return 3


if __name__ == '__main__':
    sys.exit(main())
