#!/usr/bin/env python3
"""mutate.py PROPERTY N SEED [FILE...]: applies N random operator mutations (one at a time) to the anchored files of a property
in a private copy of /repo and /verif (own mount namespace) and reports which ones the property's quick check misses.
mutate.py --log LOG FILTER PROPERTY...: tries the survivors of an earlier run (those whose headline matches FILTER) with other properties."""
import json, os, random, re, shlex, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r'\*', '+'), (r' / ', ' * '), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '),
       (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+= ', ' -= '), (r' \+= ', ' = '), (r' -= ', ' += '),
       (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'std::min', 'std::max'), (r'std::max', 'std::min'),
       (r'= -', '= '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'std::abs', ''), (r'\b0\.5\b', '1.0'), (r'DEL', '')]


def cands(f):
    r = []
    com = False
    txt = open(f).read().split('\n')
    for n, l in enumerate(txt):
        s = l.strip()
        if s.startswith('/*'):
            com = True
        if com:
            if '*/' in s:
                com = False
            continue
        if not s or s[0] == '#' or s.startswith('//') or re.search(r'EDGE_LOG|EDGE_V_LOG|EDGE_CUT_LOG|CHECK|template|static_assert|typename|assert\(|include|import ', s):
            continue
        c = l.split('//')[0] if not f.endswith('.py') else l.split('#')[0]
        for a, b in OPS:
            if a == 'DEL':
                if re.match(r'^\s*[\w\[\]\.\->]+.* (\+|-)?= .*;\s*$', c) and not re.match(r'^\s*(const|int|unsigned|std::size_t|double|t_\w+|TL_T_\w+|real_\w+|bool|auto|std::\w+.*>|\w+::\w+) ', c):
                    r.append((n, re.match(r'^\s*', c).group() + ';' + ('// ' if 0 else '')))
                continue
            for m in re.finditer(a, c):
                r.append((n, c[:m.start()] + b + c[m.end():]))
    return [(f, n, x) for n, x in r if x.strip() != txt[n].split('//')[0].strip()]


def inner(pid, n, seed, files):
    fs = []
    if not files:
        for l in open('/verif/properties.jsonl'):
            q = json.loads(l)
            if q['id'] == pid:
                files = q['anchors']['files']
    for f in files:
        f = '/repo/' + f
        if os.path.isdir(f):
            for d, _, g in os.walk(f):
                fs += [os.path.join(d, x) for x in g]
        else:
            fs.append(f)
    fs = [f for f in sorted(set(fs)) if re.search(r'\.(cpp|hpp|h|inc|py)$', f) and '.test.' not in f and 'test' not in os.path.basename(f)]
    rnd = random.Random(seed)
    c = []
    for f in fs:
        k = cands(f)
        rnd.shuffle(k)
        c.append(k)
    every = [x for k in c for x in k]
    todo = rnd.sample(every, min(n, len(every)))
    run(pid, todo)


def replay(log, flt, pids):
    todo, cur = [], None
    for l in open(log):
        m = re.match(r'\S+ rc=\S+ (\S+):(\d+)$', l)
        if m:
            cur = (m.group(1), int(m.group(2)) - 1) if re.search(flt, l) else None
        elif cur and l.startswith('    - '):
            was = l[6:].strip()
        elif cur and l.startswith('    + '):
            if open(cur[0]).read().split('\n')[cur[1]].strip() != was:
                print('stale', cur)
            elif cur + (l[6:].strip(),) not in todo:
                todo.append(cur + (l[6:].strip(),))
    for p in pids:
        run(p, todo)


def run(pid, todo):
    st = {}
    for f, ln, new in todo:
        old = open(f).read()
        t = old.split('\n')
        was = t[ln]
        t[ln] = re.match(r'^\s*', was).group() + new.lstrip()
        open(f, 'w').write('\n'.join(t))
        try:
            p = subprocess.run('python3 run.py %s' % pid, shell=True, cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200,
                               env=dict(os.environ, VERIF_FIRST='1', VERIF_TIER='quick', VERIF_SEED='1'))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        st[rc] = st.get(rc, 0) + 1
        if rc in (0, 4, 'timeout') or (rc not in (1, 3)):
            print('%s rc=%s %s:%d\n    - %s\n    + %s' % (pid, rc, f, ln + 1, was.strip(), new.strip()), flush=True)
        open(f, 'w').write(old)
    print(pid, 'mutants by exit code:', st, flush=True)


def main():
    if os.environ.get('MUT_WORK'):
        if sys.argv[1] == '--log':
            return replay(sys.argv[2], sys.argv[3], sys.argv[4:])
        return inner(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:])
    work = tempfile.mkdtemp(prefix='mutwork_', dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', work + '/repo'])
        subprocess.call('cp -a /repo/submodules %s/repo/' % work, shell=True)
        os.makedirs(work + '/verif')
        for x in os.listdir(V):
            if x not in ('seeded', '.git', 'replay', 'evidence'):
                subprocess.check_call(['cp', '-a', V + '/' + x, work + '/verif/' + x])
        subprocess.call(['unshare', '-Urm', 'bash', '-c',
                         'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && MUT_WORK=1 exec nice python3 tools/mutate.py %s' % (work, work, ' '.join(shlex.quote(a) for a in sys.argv[1:]))], cwd='/')
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
