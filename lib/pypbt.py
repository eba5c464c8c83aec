"""Property-based testing engine for the Python parts (same replay and result format as pbt.hpp).

A case is a function of a finite sequence of bounded integer choices; failing sequences are shrunk and
written as replay files. Every batch of cases runs in forked workers, every shrink attempt in a child."""
import json, os, pickle, random, signal, subprocess, sys, time, traceback, zlib


class Fail(Exception):
    pass


class Discard(Exception):
    pass


class Hang(Exception):
    pass


class Src:
    def __init__(self, seed=None, rep=None):
        self.rng = random.Random(seed)
        self.rep, self.pos, self.rec = rep, 0, []

    def draw(self, n):
        n = max(1, int(n))
        if self.rep is not None:
            v = self.rep[self.pos] if self.pos < len(self.rep) else 0
            v = min(v, n - 1)
            self.pos += 1
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def i(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def b(self, p=0.5):
        return self.draw(1000) >= 1000 * (1 - p)

    def r(self, lo, hi):
        return lo + (hi - lo) * (self.draw(1 << 24) / float((1 << 24) - 1))

    def sr(self, a):
        v = a * (self.draw(1 << 24) / float((1 << 24) - 1))
        return -v if self.b() else v

    def pick(self, l):
        return l[self.draw(len(l))]

    def perm(self, n):
        p = list(range(n))
        for k in range(n - 1):
            j = k + self.draw(n - k)
            p[k], p[j] = p[j], p[k]
        return p


class Ctx:
    def __init__(self, tmp):
        self.tmp, self.nt, self.s = tmp, False, ''

    def nontrivial(self, v=True):
        self.nt = self.nt or bool(v)

    def sample(self, s):
        self.s = s[:1400]

    def fail(self, m):
        raise Fail(m)

    def require(self, c, m):
        if not c:
            raise Fail(m() if callable(m) else m)

    def close(self, a, b, tol, m):
        a, b = float(a), float(b)
        if not abs(a - b) <= tol * max(1, abs(a), abs(b)):
            raise Fail('%s: got %r expected %r' % (m, a, b))

    def closeM(self, a, b, tol, m):
        import numpy
        a, b = numpy.asarray(a, dtype=float), numpy.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Fail('%s: shape %s instead of %s' % (m, a.shape, b.shape))
        d = numpy.abs(a - b) - tol * numpy.maximum(1, numpy.maximum(numpy.abs(a), numpy.abs(b)))
        if a.size and not (d <= 0).all():
            k = numpy.unravel_index(numpy.nanargmax(numpy.where(numpy.isnan(d), numpy.inf, d)), a.shape)
            raise Fail('%s: entry %s is %r, expected %r' % (m, [int(x) for x in k], float(a[k]), float(b[k])))

    def discard(self):
        raise Discard()


CHECKS = []


def check(quick, thorough, rule):
    def deco(f):
        CHECKS.append((f.__name__, quick, thorough, rule, f))
        return f
    return deco


def _alarm(*_):
    raise Hang()


def run(f, s, tmp, limit):
    c = Ctx(tmp)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        f(s, c)
        return ('ok' if c.nt else 'trivial', '', s.rec, c.s)
    except Fail as e:
        return ('fail', str(e), s.rec, '')
    except Discard:
        return ('discard', '', s.rec, '')
    except Hang:
        return ('fail', 'case timed out (hang)', s.rec, '')
    except BaseException as e:
        t = traceback.format_exc().strip().split('\n')
        return ('fail', 'exception %s: %s | %s' % (type(e).__name__, str(e)[:300], ' '.join(x.strip() for x in t[-5:-1])), s.rec, '')
    finally:
        signal.alarm(0)


def forked(f, rep, tmp, limit):
    res = os.path.join(tmp, 'py_res.%d' % os.getpid())
    p = os.fork()
    if p == 0:
        try:
            n = os.open('/dev/null', os.O_WRONLY)
            os.dup2(n, 1)
            os.dup2(n, 2)
            o = run(f, Src(rep=rep), tmp, limit)
            with open(res, 'wb') as h:
                pickle.dump(o, h)
        finally:
            os._exit(0)
    os.waitpid(p, 0)
    try:
        o = pickle.load(open(res, 'rb'))
        os.unlink(res)
        return o
    except Exception:
        return ('fail', 'the interpreter died', rep, '')


def shrink(f, best, msg, tmp, limit):
    t0 = time.time()
    better = lambda a, b: (len(a), a) < (len(b), b)
    state = [best, msg]

    def attempt(cand):
        if time.time() - t0 > 45:
            return False
        o = forked(f, cand, tmp, limit)
        if o[0] == 'fail':
            r = o[2] if len(o[2]) <= len(cand) else cand
            if better(r, state[0]):
                state[0], state[1] = r, o[1]
                return True
        return False
    prog = True
    while prog and time.time() - t0 < 45:
        prog = False
        bl = max(1, len(state[0]) // 2)
        while bl >= 1 and time.time() - t0 < 45:
            k = 0
            while k + bl <= len(state[0]):
                if attempt(state[0][:k] + state[0][k + bl:]):
                    prog = True
                else:
                    k += bl
                if time.time() - t0 > 45:
                    break
            bl //= 2
        for k in range(len(state[0])):
            if k >= len(state[0]) or state[0][k] == 0:
                continue
            if attempt(state[0][:k] + [0] + state[0][k + 1:]):
                prog = True
                continue
            lo, hi = 0, state[0][k]
            while hi - lo > 1 and k < len(state[0]) and time.time() - t0 < 45:
                m = (lo + hi) // 2
                if attempt(state[0][:k] + [m] + state[0][k + 1:]):
                    prog, hi = True, (state[0][k] if k < len(state[0]) else 0)
                else:
                    lo = m
    return state


def seed(sd, name, k):
    return (sd * 1000003 + zlib.crc32(name.encode())) * 1000003 + k


def main():
    o = dict(tier='quick', seed='1', out='', tmp='/tmp', replay='', only='', budget='240', workers='8', scale='1')
    o['replay-out'] = ''
    o['case-timeout'] = '300'
    for k in range(1, len(sys.argv) - 1, 2):
        o[sys.argv[k].lstrip('-')] = sys.argv[k + 1]
    tmp, limit = o['tmp'], int(o['case-timeout'])
    if o['replay']:
        name, ch = '', []
        for l in open(o['replay']):
            w = l.split()
            if w and w[0] == 'check':
                name = w[1]
            elif w and w[0] == 'choices':
                ch = [int(x) for x in w[1:]]
        for n, _, _, _, f in CHECKS:
            if n == name:
                r = forked(f, ch, tmp, limit)
                print(('REPLAY-FAIL %s: %s' if r[0] == 'fail' else 'REPLAY-OK %s%s') % (name, r[1]))
                return 1 if r[0] == 'fail' else 0
        print('REPLAY-UNKNOWN-CHECK', name)
        return 2
    res, rc, deadline = [], 0, time.time() + float(o['budget'])
    for name, nq, nt, rule, f in CHECKS:
        if o['only'] and name not in o['only'].split(','):
            continue
        N = max(1, int((nt if o['tier'] == 'thorough' else nq) * float(o['scale'])))
        W = min(int(o['workers']), N)
        t0 = time.time()
        pids = []
        for w in range(W):
            p = os.fork()
            if p == 0:
                try:
                    n = os.open(os.path.join(tmp, 'py_w%d.log' % w), os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
                    os.dup2(n, 1)
                    os.dup2(n, 2)
                    l = []
                    for k in range(w, N, W):
                        if time.time() > deadline:
                            break
                        r = run(f, Src(seed=seed(int(o['seed']), name, k)), tmp, limit)
                        l.append((k, r[0], r[1], r[2] if r[0] == 'fail' else zlib.crc32(repr(r[2]).encode()), r[3] if len(l) < 3 else ''))
                        if r[0] == 'fail':
                            break
                    with open(os.path.join(tmp, 'py_out.%d' % w), 'wb') as h:
                        pickle.dump(l, h)
                finally:
                    os._exit(0)
            pids.append(p)
        al, dead = [], False
        for w, p in enumerate(pids):
            os.waitpid(p, 0)
            try:
                fn = os.path.join(tmp, 'py_out.%d' % w)
                al += pickle.load(open(fn, 'rb'))
                os.unlink(fn)
            except Exception:
                dead = True
        al.sort(key=lambda x: x[0])
        fails = [x for x in al if x[1] == 'fail']
        ok = [x for x in al if x[1] == 'ok']
        j = {'name': name, 'rule': rule, 'planned': N, 'evaluations': len(al), 'discarded': sum(x[1] == 'discard' for x in al),
             'trivial': sum(x[1] == 'trivial' for x in al), 'distinct_nontrivial': len({x[3] for x in ok}),
             'violation': bool(fails), 'samples': [x[4] for x in ok if x[4]][:3]}
        if dead:
            print('a worker of %s died' % name)
            return 3
        if fails:
            ch, msg = fails[0][3], fails[0][2]
            rf = '%s.%s.replay' % (o['replay-out'], name)
            if forked(f, ch, tmp, limit)[0] == 'fail':
                ch, msg = shrink(f, ch, msg, tmp, limit)
            with open(rf, 'w') as h:
                h.write('check %s\nchoices %s\nmessage %s\nfrom seed %s case %d\n' % (name, ' '.join(str(x) for x in ch), msg.replace('\n', ' '), o['seed'], fails[0][0]))
            again = 0
            for _ in range(3):
                again += subprocess.run([sys.executable, sys.argv[0], '--replay', rf, '--tmp', tmp, '--case-timeout', str(limit)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1
            j.update(sure=again == 3, message='%s [reproduced %d/3]' % (msg, again), replay=rf)
            rc = 1 if again == 3 else (rc or 4)
        j['wall_s'] = round(time.time() - t0, 2)
        res.append(j)
        print('  %-32s cases %8d nontrivial %8d trivial %6d discarded %6d %.1fs%s' % (name, j['evaluations'], j['distinct_nontrivial'], j['trivial'], j['discarded'], j['wall_s'], '  FAILED' if fails else ''))
        if fails:
            print('    ' + j['message'])
        sys.stdout.flush()
    with open(o['out'], 'w') as h:
        json.dump({'checks': res}, h)
    return rc
