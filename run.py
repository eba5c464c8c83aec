#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--only CHECK] [--scale X]

Builds the harnesses of one property from /repo's working tree, searches for violations, writes
evidence/<property>.json. Exit 0: held on everything explored; exit 1 + VIOLATION line: violated."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import builder
import checks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only', default='')
    ap.add_argument('--unit', default='')
    ap.add_argument('--scale', default='1')
    a = ap.parse_args()
    a.replay = a.replay and os.path.abspath(a.replay)
    pid, tier = a.property, ('thorough' if a.tier == 'thorough' else 'quick')
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid, dir='/tmp')
    env = dict(os.environ, OMP_NUM_THREADS='1', MALLOC_PERTURB_='165', TMPDIR=tmp,
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:malloc_fill_byte=90:max_malloc_fill_size=67108864:free_fill_byte=165:max_free_fill_size=1048576:allocator_may_return_null=1:detect_odr_violation=0:handle_abort=0',
               UBSAN_OPTIONS='abort_on_error=1:print_stacktrace=1', PYTHONDONTWRITEBYTECODE='1',
               VERIF_SEED=str(a.seed), VERIF_TIER=tier, VERIF_SCRATCH=tmp)
    try:
        return go(a, pid, tier, t0, tmp, env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def go(a, pid, tier, t0, tmp, env):
    prop = checks.PROPS[pid](tmp, env)
    units = [u for u in prop['units'] if not a.unit or a.unit in u['name']]
    try:
        exes = builder.build([u for u in units if 'cmd' not in u])
    except builder.BuildError as e:
        print('BUILD-ERROR', e)
        return 3
    tb = time.time() - t0
    print('%s: built in %.1f s' % (pid, tb), flush=True)
    replays = os.path.join(VERIF, 'replay')
    os.makedirs(replays, exist_ok=True)
    budget = (480 if tier == 'quick' else 6 * 3600)
    res, vio, bad = [], [], []
    for u in units:
        if u.get('norun'):
            continue
        cmd = list(u['cmd']) if 'cmd' in u else [exes[u['name']]]
        if a.replay:
            if ('%s.%s.' % (pid, u['name'])) not in os.path.basename(a.replay):
                continue
            print(u['name'], flush=True)
            r = subprocess.run(cmd + ['--replay', a.replay, '--tmp', tmp] + u.get('args', []), env=dict(env, **u.get('env', {})), cwd=tmp)
            return r.returncode
        out = os.path.join(tmp, u['name'] + '.json')
        left = max(20, budget - (time.time() - t0 - tb))
        if tier == 'quick':
            left = min(left, u.get('budget', left))
        c = cmd + ['--tier', tier, '--seed', str(a.seed), '--out', out, '--tmp', tmp, '--budget', str(int(left)),
                   '--replay-out', os.path.join(replays, '%s.%s' % (pid, u['name'])), '--scale', a.scale]
        only = a.only or u.get('only', '')
        if only:
            c += ['--only', only]
        c += u.get('args', [])
        e2 = dict(env)
        e2.update(u.get('env', {}))
        print('%s / %s' % (pid, u['name']), flush=True)
        r = subprocess.run(c, env=e2, cwd=tmp)
        try:
            js = json.load(open(out))
        except Exception as ex:
            print('no result of', u['name'], r.returncode, ex)
            return 3
        for k in js['checks']:
            k['unit'] = u['name']
            res.append(k)
            if k['violation']:
                (vio if k['sure'] else bad).append(k)
        # a violation is known: leave time for a slow machine rather than finding further ones
        if vio and (os.environ.get('VERIF_FIRST') or tier == 'quick' and time.time() - t0 > 240):
            break
    if a.replay:
        print('no unit matches the replay file')
        return 3
    known = load_known(pid)
    news, seen = [], []
    for k in vio:
        hit = [f for f in known if f['check'] == k['name'] and f.get('match', '') in k['message'] and f.get('match')]
        (seen if hit else news).append((k, hit))
    samples = []
    for k in res:
        for s in k['samples'][:2]:
            samples.append({'check': k['unit'] + '/' + k['name'], 'case': s})
    ev = {'property': pid, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(k['evaluations'] for k in res),
                       'distinct_nontrivial': sum(k['distinct_nontrivial'] for k in res),
                       'rule': '; '.join('%s/%s: %s' % (k['unit'], k['name'], k['rule']) for k in res),
                       'samples': samples,
                       'per_check': [{x: k[x] for x in ('unit', 'name', 'planned', 'evaluations', 'distinct_nontrivial', 'trivial', 'discarded', 'wall_s')} for k in res]},
          'assumptions': prop.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(news)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for what in sorted({hit[0]['what'] for k, hit in seen}):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if not a.only and not a.unit:
        for k in res:
            if not k['violation'] and k['evaluations'] and k['distinct_nontrivial'] * 20 < k['evaluations']:
                print('note: %s/%s: few non-trivial cases' % (k['unit'], k['name']))
    print('%s: %d cases, %d distinct non-trivial, %.1f s' % (pid, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    if news:
        for k, _ in news:
            print('violated: %s/%s: %s' % (k['unit'], k['name'], k['message'].replace('\n', ' ')[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, news[0][0]['replay']))
        return 1
    if bad:
        for k in bad:
            print('not reproducible, not reported as a violation: %s/%s: %s' % (k['unit'], k['name'], k['message'][:500]))
        return 4
    return 0


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get('known', []) if f['property'] == pid]


if __name__ == '__main__':
    sys.exit(main())
