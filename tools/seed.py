#!/usr/bin/env python3
"""seed.py [--notest] [--all-checks] ID...: tries planted changes in a private copy of /repo and /verif
(bind-mounted over the originals in a mount namespace of its own): patch applies, builds, stable tests pass,
demo fails with it and passes without it, and which check reports it."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return p.returncode, p.stdout


def inner(args, work):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    opts = [a for a in args if a.startswith('--')]
    ids = [a for a in args if not a.startswith('--')]
    if '--notest' not in opts or True:
        rc, o = sh('bash /opt/vp/build.sh')
        if rc:
            print('base build failed', o[-2000:])
            return
    for i in ids:
        d = work + '/seeded/' + i
        meta = json.load(open(d + '/meta.json'))
        line = [i, meta['property']]
        rc, o = sh('bash %s/demo.sh' % d, cwd='/repo')
        line.append('demo-clean:%d' % rc)
        if rc:
            line.append(o[-1500:])
        rc, o = sh('git -C /repo apply %s/patch.diff' % d)
        if rc:
            print(*line, 'PATCH DOES NOT APPLY', o, flush=True)
            continue
        try:
            if '--notest' not in opts:
                rc, o = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
                try:
                    r = json.load(open('/tmp/seed_out.json'))
                    bad = sorted(stable - set(r['passed']))
                except Exception:
                    bad = ['no result']
                line.append('tests:%s' % (('FAIL ' + str(bad[:4]) + (o[-1500:] if len(bad) > 100 else '')) if bad else 'ok'))
            else:
                rc, o = sh('bash /opt/vp/build.sh')
                line.append('build:%d' % rc)
            rc, o = sh('bash %s/demo.sh' % d, cwd='/repo')
            line.append('demo-bug:%d' % rc)
            rc, o = sh('python3 run.py %s' % meta['property'], cwd='/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            hit = 'VIOLATION property=%s' % meta['property'] in o
            line.append('CAUGHT' if rc == 1 and hit else 'MISSED rc=%d %s' % (rc, o[-600:] if rc else ''))
            v = [l for l in o.splitlines() if l.startswith('violated')]
            if v:
                line.append(v[0][:160])
        finally:
            sh('git -C /repo checkout -- .')
        print(*line, flush=True)


def main():
    if os.environ.get('SEED_WORK'):
        return inner(sys.argv[1:], os.environ['SEED_WORK'])
    work = tempfile.mkdtemp(prefix='seedwork_', dir='/tmp')
    try:
        args = sys.argv[1:]
        if '--all' in args:
            args.remove('--all')
            args += sorted(os.listdir(V + '/seeded'))
        subprocess.check_call(['cp', '-a', '/repo', work + '/repo'])
        subprocess.check_call(['git', '-C', work + '/repo', 'checkout', '-q', '--', '.'])
        os.makedirs(work + '/verif')
        for x in os.listdir(V):
            if x not in ('seeded', '.git', 'replay', 'evidence'):
                subprocess.check_call(['cp', '-a', V + '/' + x, work + '/verif/' + x])
        shutil.copytree(V + '/seeded', work + '/seeded')
        subprocess.call(['unshare', '-Urm', 'bash', '-c',
                         'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && SEED_WORK=%s exec python3 tools/seed.py %s' % (work, work, work, ' '.join(args))], cwd='/')
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
