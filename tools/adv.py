#!/usr/bin/env python3
"""adv.py FILE [ID...]: tries a list of source changes with the quick check of a property, each in a private copy of /repo and /verif.
Sections '## ID PROPERTY', each with blocks '@ file', '<<<<', old text, '====', new text, '>>>>'. Prints CAUGHT, MISSED or BUILD."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse(f):
    r, cur, st, fn = [], None, 0, None
    for l in open(f).read().split('\n'):
        if st == 0 and l.startswith('## '):
            cur = dict(id=l.split()[1], prop=l.split()[2], blocks=[])
            r.append(cur)
        elif st == 0 and l.startswith('@ '):
            fn = l[2:].strip()
        elif st == 0 and l == '<<<<':
            st, old, new = 1, [], []
        elif st == 1 and l == '====':
            st = 2
        elif st == 2 and l == '>>>>':
            st = 0
            cur['blocks'].append((fn, '\n'.join(old), '\n'.join(new)))
        elif st == 1:
            old.append(l)
        elif st == 2:
            new.append(l)
    return r


def one(x):
    work = tempfile.mkdtemp(prefix='adv_', dir='/tmp')
    try:
        subprocess.check_call('git clone -q /repo %s/repo && cp -a /repo/submodules %s/repo/ && mkdir %s/verif && cd %s && for x in $(ls); do case $x in seeded|replay|evidence) ;; *) cp -a $x %s/verif/;; esac; done' % (work, work, work, V, work), shell=True)
        for f, o, n in x['blocks']:
            p = work + '/repo/' + f
            t = open(p).read()
            if t.count(o) != 1:
                return '%s %s PATCH: %d matches in %s' % (x['id'], x['prop'], t.count(o), f)
            open(p, 'w').write(t.replace(o, n))
        out = []
        for pr in x['prop'].split(','):
            p = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && VERIF_FIRST=1 VERIF_TIER=quick VERIF_SEED=%s exec nice python3 run.py %s' % (work, work, os.environ.get('VERIF_SEED', '1'), pr)], cwd='/', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in p.stdout.splitlines() if l.startswith('violated')]
            out.append('%s %s %s %s' % (x['id'], pr, {0: 'MISSED', 1: 'CAUGHT', 3: 'BUILD'}.get(p.returncode, 'rc=%d' % p.returncode), (v[0][:150] if v else '') if p.returncode < 2 else p.stdout[-1500:]))
        return '\n'.join(out)
    finally:
        shutil.rmtree(work, ignore_errors=True)


xs = [x for x in parse(sys.argv[1]) if not sys.argv[2:] or x['id'] in sys.argv[2:]]
with ThreadPoolExecutor(int(os.environ.get('ADV_JOBS', '3'))) as ex:
    for r in ex.map(one, xs):
        print(r, flush=True)
