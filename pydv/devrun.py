"""development runner: python3-vt -m pydv.devrun c20 [driver] [--bmc] [--native]"""
import importlib, random, sys, time
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
import os
REPO = os.environ.get('GCU_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import logging
logging.disable(logging.CRITICAL)
from pydv import rt, sym


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    flags = [a for a in sys.argv[1:] if a.startswith('--')]
    importlib.import_module('contracts.' + args[0])
    seen = set()
    for d in rt.REGISTRY:
        if d.fn in seen or len(args) > 1 and d.name not in args[1:]:
            continue
        seen.add(d.fn)
        t = time.time()
        nf = None
        cnt = {'ok': 0, 'skip': 0, 'fail': 0}
        chk = 0
        for i in range(d.runs):
            r, msg, c = rt.native_run(d.fn, random.Random(i), size=1 + i % 8)
            cnt[r] += 1
            chk += c.checks
            if r == 'fail' and nf is None:
                nf = (msg, c.record)
        print('%-22s native %s checks=%d %.1fs' % (d.name, cnt, chk, time.time() - t))
        if nf:
            print('     NATIVE FAIL', nf[0], str(nf[1])[:1500])
        if d.sym and '--native' not in flags:
            r = sym.verify(d, budget=d.budget)
            print('     sym %s %s obls=%d proved=%d exec=%.1fs solve=%.1fs %s' % (r.status, r.reason, r.n, r.proved, r.t_exec, r.t_solve, r.backends))
            if '--loops' in flags:
                for l in r.loops:
                    print('        loop', l)
            for o in r.failed[:8]:
                print('       ', o.status, o.name, o.where, '%.1fs' % o.time)
                if '--model' in flags and o.model is not None:
                    print('           ', str(sym.input_values(r.eng, o.model))[:800])
                    if '--full' in flags: print(o.model)
            if '--bmc' in flags:
                log = []
                print('     bmc', sym.search(d, sizes=d.bmc, log=log))
                print('        ', log[:10])


main()
