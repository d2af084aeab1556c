#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the list below, and (with --test) confirms each planted bug in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'gcodeutils/gcoder.py'
SEEDS = []


def seed(id, prop, file, old, new, demo, needs, breaks):
    edits = [(file, old, new)] if isinstance(file, str) else [(f, o, n) for f, o, n in zip(file, old, new)]
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


PRE = '''import sys, io, warnings
warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)
sys.path.insert(0, '.')
from gcodeutils.gcoder import GCode, Line, split, unsplit, parse_coordinates, raw_to_line
def close(a, b): return abs(a - b) < 1e-6
def out(g):
    o = io.StringIO(); g.write(o); return o.getvalue().split('\\n')[:-1]
'''
exec(open(os.path.join(HERE, 'tools', 'seeds.py')).read())


def write(s, root):
    d = os.path.join(HERE, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    for f, old, new in s['edits']:
        p = os.path.join(root, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(s['id'], 'text occurs', t.count(old), 'times')
            return False
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', root, 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', root, 'checkout', '-q', '--', '.'])
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(PRE + s['demo'].strip() + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/sh\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return True


def main():
    only = [a for a in sys.argv[1:] if not a.startswith('--')]
    test = '--test' in sys.argv
    tmp = tempfile.mkdtemp(prefix='seed.')
    root = os.path.join(tmp, 'repo')
    subprocess.run(['git', 'clone', '-q', '/repo', root], check=True)
    subprocess.run('cp -a /repo/gcodeutils.egg-info %s/ 2>/dev/null' % root, shell=True)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for s in SEEDS:
        if only and s['id'] not in only:
            continue
        if not write(s, root) or not test:
            continue
        d = os.path.join(HERE, 'seeded', s['id'])
        demo = lambda: subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd=root, capture_output=True, text=True)
        a = demo()
        subprocess.run(['git', '-C', root, 'apply', os.path.join(d, 'patch.diff')], check=True)
        b = demo()
        t = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider'], cwd=root, capture_output=True, text=True)
        env = dict(os.environ, GCU_REPO=root, PYTHONWARNINGS='ignore')
        c = subprocess.run(['python3-vt', os.path.join(HERE, 'check.py'), s['prop']], capture_output=True, text=True, env=env) if '--check' in sys.argv else None
        subprocess.run(['git', '-C', root, 'checkout', '-q', '--', '.'])
        print('%-28s %s demo clean=%d patched=%d tests: %s' % (s['id'], s['prop'], a.returncode, b.returncode, t.stdout.strip().split('\n')[-1]))
        if a.returncode:
            print(a.stderr[-600:])
        if c is not None:
            print('      check exit %d: %s' % (c.returncode, ' | '.join(l for l in c.stdout.split('\n') if l.startswith(('#', 'VIOL')))[:300]))
    shutil.rmtree(tmp)


main()
