# Whole simulations: EDGE-V prepares a generated mesh, EDGE (any number of ranks and threads) solves on it
import os, sys, math, shutil, subprocess, tempfile, time, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import pypbt
from pypbt import check

BIN = os.environ['E2E_BIN']
EDGE_V = os.path.join(BIN, 'edge_v_tool')
EDGE = os.path.join(BIN, os.environ['E2E_EDGE'])
EL, ORDER, PREC, NCR, RM, EQ = os.environ['E2E_CFG'].split(',')
ORDER, PREC, NCR, RM = int(ORDER), int(PREC), int(NCR), int(RM)
D = 2 if EL in ('tria3', 'quad4r') else 3
D = 1 if EL == 'line' else D
NQ = {'elastic': {2: 5, 3: 9}.get(D), 'advection': 1, 'swe': D + 1}[EQ]
SPEED = (1., .5, -1.)  # of the advection equation


# ---------------------------------------------------------------- polynomials: {(i,j,k): coefficient}
def padd(a, b, f=1.):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + f * v
    return r


def pdiff(a, d):
    r = {}
    for k, v in a.items():
        if k[d]:
            m = list(k)
            m[d] -= 1
            r[tuple(m)] = r.get(tuple(m), 0) + k[d] * v
    return r


def peval(a, x):
    return sum(v * x[0] ** k[0] * x[1] ** k[1] * x[2] ** k[2] for k, v in a.items())


def pscale(a, f):
    return {k: f * v for k, v in a.items()}


# names of the quantities: stresses and velocities
STRESS = {2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]}.get(D if EQ == 'elastic' else 0, [])


def elastic(q, rho, lam, mu):
    """time derivative of the solution of the equations"""
    if EQ == 'advection':
        r = {}
        for d in range(D):
            r = padd(r, pdiff(q[0], d), -SPEED[d])
        return [r]
    ns = len(STRESS)
    v = q[ns:]
    div = {}
    for d in range(D):
        div = padd(div, pdiff(v[d], d))
    r = []
    for a, b in STRESS:
        e = padd(pscale(pdiff(v[a], b), mu), pdiff(v[b], a), mu)
        if a == b:
            e = padd(e, div, lam)
        r.append(e)
    for d in range(D):
        f = {}
        for e in range(D):
            f = padd(f, pdiff(q[STRESS.index((min(d, e), max(d, e)))], e))
        r.append(pscale(f, 1. / rho))
    return r


def num(x):
    return '(%.17g)' % x if x < 0 else '%.17g' % x


def expr(q):
    o = ''
    for k, p in enumerate(q):
        t = ['*'.join([num(v)] + ['xyz'[d] for d in range(3) for _ in range(e[d])]) for e, v in sorted(p.items()) if v]
        o += 'q[%d] := %s;' % (k, '+'.join(t) if t else '0')
    return o


# ---------------------------------------------------------------- meshes
def mesh(s, grade, lo=4, hi=7, keep=False):
    """perturbed, graded, structured mesh; returns vertices, elements and the marked boundary faces"""
    n = [s.i(lo, hi) for _ in range(D)]
    crd = []
    for d in range(D):
        g = s.pick([1., 1., 1.3, 1.6]) if grade else 1.
        w = [g ** k for k in range(n[d])]
        if s.b():
            w = w[::-1]
        crd.append(np.concatenate([[0], np.cumsum(w)]) * (10. / sum(w)) * n[d] / 6.)
    pert = s.pick([0., .1, .2]) if EL in ('tria3', 'tet4') else 0.
    idx = lambda p: p[0] + (n[0] + 1) * (p[1] + ((n[1] + 1) * p[2] if D > 2 else 0))
    grid = [[i, j, k] for k in range(n[2] + 1 if D > 2 else 1) for j in range(n[1] + 1) for i in range(n[0] + 1)]
    X = np.zeros((len(grid), 3))
    for p in grid:
        x = [0., 0., 0.]
        for d in range(D):
            x[d] = crd[d][p[d]]
            if pert and 0 < p[d] < n[d] and not (keep and any(p[f] in (0, n[f]) for f in range(D))):
                x[d] += pert * s.sr(1.) * min(crd[d][p[d]] - crd[d][p[d] - 1], crd[d][p[d] + 1] - crd[d][p[d]])
        X[idx(p)] = x
    els = []
    for k in range(n[2] if D > 2 else 1):
        for j in range(n[1]):
            for i in range(n[0]):
                c = lambda a, b, e=0: idx([i + a, j + b, k + e])
                if EL == 'tria3':
                    els += [[c(0, 0), c(1, 0), c(1, 1)], [c(0, 0), c(1, 1), c(0, 1)]] if s.b() else [[c(0, 0), c(1, 0), c(0, 1)], [c(1, 0), c(1, 1), c(0, 1)]]
                elif EL == 'quad4r':
                    els.append([c(0, 0), c(1, 0), c(1, 1), c(0, 1)])
                elif EL == 'hex8r':
                    els.append([c(0, 0, 0), c(1, 0, 0), c(1, 1, 0), c(0, 1, 0), c(0, 0, 1), c(1, 0, 1), c(1, 1, 1), c(0, 1, 1)])
                else:
                    for p in ([0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]):
                        q, t = [0, 0, 0], [c(0, 0, 0)]
                        for d in p:
                            q[d] = 1
                            t.append(c(*q))
                        els.append(t)
    return X, els, n


FAVE = {'tria3': [[0, 1], [1, 2], [2, 0]], 'quad4r': [[0, 1], [1, 2], [2, 3], [3, 0]], 'tet4': [[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]],
        'hex8r': [[0, 3, 2, 1], [0, 1, 5, 4], [1, 2, 6, 5], [3, 7, 6, 2], [0, 4, 7, 3], [4, 5, 6, 7]]}[EL]


def faces(els):
    f = {}
    for e, v in enumerate(els):
        for l in FAVE:
            f.setdefault(tuple(sorted(v[k] for k in l)), []).append((e, [v[k] for k in l]))
    return f


def layers(els, fa):
    """number of faces to cross from an element at the boundary"""
    d = [-1] * len(els)
    ad = [[] for _ in els]
    cur = []
    for l in fa.values():
        if len(l) == 1:
            if d[l[0][0]] < 0:
                d[l[0][0]] = 0
                cur.append(l[0][0])
        else:
            ad[l[0][0]].append(l[1][0])
            ad[l[1][0]].append(l[0][0])
    while cur:
        nx = []
        for e in cur:
            for a in ad[e]:
                if d[a] < 0:
                    d[a] = d[e] + 1
                    nx.append(a)
        cur = nx
    return d


def cfl(vp):
    """stable time step of an element of diameter one"""
    if EQ == 'advection':
        return (1. if D == 1 else .5) * [.45, .9, .8, .7, .6, .5, .45, .4, .4][ORDER - 1] / (2 * ORDER - 1) / math.sqrt(sum(x * x for x in SPEED[:D]))
    return .5 / (2 * ORDER - 1) / vp


def india(X, v):
    p = X[v]
    if EL == 'tria3':
        a, b, c = [np.linalg.norm(p[i] - p[(i + 1) % 3]) for i in range(3)]
        s = (a + b + c) / 2
        return 2 * math.sqrt(s * (s - a) * (s - b) * (s - c)) / s
    if EL == 'tet4':
        ar = sum(np.linalg.norm(np.cross(p[l[1]] - p[l[0]], p[l[2]] - p[l[0]])) / 2 for l in FAVE)
        return 6 * abs(np.dot(p[1] - p[0], np.cross(p[2] - p[0], p[3] - p[0]))) / 6 / ar
    return min(np.linalg.norm(p[i] - p[j]) for i in range(len(v)) for j in range(i))


def write_msh(fn, X, els, fa, tag):
    ty = {'tria3': (2, 1), 'quad4r': (3, 1), 'tet4': (4, 2), 'hex8r': (5, 3)}[EL]
    with open(fn, 'w') as h:
        h.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%d\n' % len(X))
        for k, x in enumerate(X):
            h.write('%d %.17g %.17g %.17g\n' % (k + 1, x[0], x[1], x[2]))
        b = [l[0] for l in fa.values() if len(l) == 1]
        h.write('$EndNodes\n$Elements\n%d\n' % (len(b) + len(els)))
        i = 1
        for e, l in b:
            h.write('%d %d 2 %d %d %s\n' % (i, ty[1], tag(l), tag(l), ' '.join(str(v + 1) for v in l)))
            i += 1
        for v in els:
            h.write('%d %d 2 1 1 %s\n' % (i, ty[0], ' '.join(str(k + 1) for k in v)))
            i += 1
        h.write('$EndElements\n')


# ---------------------------------------------------------------- running the programs
def sh(c, cmd, d, env, limit):
    p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
    if p.returncode:
        c.fail('%s failed (%d): %s' % (os.path.basename(cmd[0]), p.returncode, why(p.stdout.decode(errors='replace'))))
    return p.stdout.decode(errors='replace')


def why(t):
    l = [x for x in t.splitlines() if any(w in x for w in ('FATAL', 'ERROR', 'rror:', 'Sanitizer', 'E2E-MPI', 'Check failed', ' #1 ', ' #2 '))]
    return ' | '.join((l or t.splitlines()[-5:])[:8])[:1000]


def edge_v(c, d, parts, groups, fun, extra='', model='', cen=1):
    with open(d + '/v.xml', 'w') as h:
        h.write('<edge_v><mesh><files><in>%s/in.msh</in><out><base>%s/m</base><extension>.msh</extension></out></files><n_partitions>%d</n_partitions>%s</mesh>%s'
                '<time><n_groups>%d</n_groups><fundamental_time_step>%.6g</fundamental_time_step><centroid_based_cfl>%d</centroid_based_cfl></time></edge_v>' % (d, d, parts, extra, model, groups, fun, cen))
    env = dict(os.environ, OMP_NUM_THREADS='1')
    sh(c, [EDGE_V, '-x', d + '/v.xml'], d, env, 120)


def h5(c, fn, mode, sets):
    """writes data sets (name, type, array) to an HDF5 file"""
    t = ''
    for n, ty, a in sets:
        a = np.asarray(a)
        t += '%s %s %d %s %s\n' % (n, ty, a.ndim, ' '.join(str(x) for x in a.shape), ' '.join('%.17g' % x for x in a.reshape(-1)))
    r = subprocess.run([os.path.join(BIN, 'e2e_h5'), fn, mode], input=t.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError('e2e_h5: %d %s' % (r.returncode, r.stdout[-300:]))


def h5_get(fn, names):
    """data sets of an HDF5 file, None for those which do not exist"""
    r = subprocess.run([os.path.join(BIN, 'e2e_h5'), fn, 'get'], input='\n'.join(names).encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError('e2e_h5: %d %s' % (r.returncode, r.stdout[-300:]))
    return [None if l == 'none' else np.array([float(x) for x in l.split()]) for l in r.stdout.decode().split('\n')[:len(names)]]


def read_msh(fn, tags=None):
    """nodes and elements of the highest dimension, in their order in the file (Gmsh's ASCII formats 2.2 and 4.1)"""
    L = open(fn).read().split('\n')
    v4 = L[1].startswith('4')
    i = L.index('$Nodes') + 1
    X, E = {}, []
    want = {'tria3': 2, 'quad4r': 3, 'tet4': 4, 'hex8r': 5}[EL]
    if v4:
        b = int(L[i].split()[0])
        i += 1
        for _ in range(b):
            n = int(L[i].split()[3])
            for k in range(n):
                X[int(L[i + 1 + k])] = [float(x) for x in L[i + 1 + n + k].split()[:3]]
            i += 1 + 2 * n
        i = L.index('$Elements') + 1
        b = int(L[i].split()[0])
        i += 1
        for _ in range(b):
            w = [int(x) for x in L[i].split()]
            if w[2] == want:
                E += [[int(x) for x in l.split()[1:]] for l in L[i + 1:i + 1 + w[3]]]
                if tags is not None:
                    tags += [int(l.split()[0]) for l in L[i + 1:i + 1 + w[3]]]
            i += 1 + w[3]
    else:
        for l in L[i + 1:i + 1 + int(L[i])]:
            w = l.split()
            X[int(w[0])] = [float(x) for x in w[1:4]]
        i = L.index('$Elements') + 1
        for l in L[i + 1:i + 1 + int(L[i])]:
            w = [int(x) for x in l.split()]
            if w[1] == want:
                E.append(w[3 + w[2]:])
                if tags is not None:
                    tags.append(w[0])
    return X, E


def mesh_model(c, d, parts, at):
    """adds a velocity model to the supplements of the mesh"""
    for r in range(parts):
        X, E = read_msh('%s/m_%d.msh' % (d, r + 1))
        m = np.array([at(np.mean([X[v] for v in e], axis=0)) for e in E])
        h5(c, '%s/m_%d.h5' % (d, r + 1), 'add', [('/edge_v/vp', 'f64', np.sqrt((m[:, 1] + 2 * m[:, 2]) / m[:, 0])), ('/edge_v/vs', 'f64', np.sqrt(m[:, 2] / m[:, 0])), ('/edge_v/rho', 'f32', m[:, 0])])


class Sources:
    """point sources of one fused run"""

    def __init__(self, s, X, els, end, n):
        self.el, self.x, self.sc, self.on, self.dt, self.v = [], [], [], [], [], []
        hot = s.draw(len(els))
        for _ in range(n):
            e = hot if s.b() else s.draw(len(els))
            self.el.append(e)
            self.x.append(inside(s, X, els[e])[:D])
            self.sc.append([s.pick([0., s.sr(1.), s.sr(1.)]) for _ in range(NQ)])
            self.on.append(s.pick([0., s.r(-.3, .8) * end]))
            self.dt.append(s.r(.05, .4) * end)
            self.v.append([s.sr(1.) / end for _ in range(s.i(2, 6))])

    def write(self, c, fn):
        f = lambda a: np.array(a, dtype=np.float32)
        self.on, self.dt = f(self.on).astype(float), f(self.dt).astype(float)
        ptr = np.cumsum([0] + [len(v) for v in self.v])
        h5(c, fn, 'new', [('points', 'f32', self.x), ('scalings', 'f64', self.sc), ('time_parameters', 'f32', np.array([self.on, self.dt]).T), ('time_pointers', 'u64', ptr), ('time_series', 'f32', np.concatenate(self.v))])

    def injected(self, k, t):
        """time integral of the series of source k up to time t"""
        o, v, dt = 0., self.v[k], self.dt[k]
        for i in range(len(v) - 1):
            t0 = self.on[k] + i * dt
            a, b = max(0., t0), min(t, t0 + dt)
            if b > a:
                o += (b - a) * (v[i] + ((a + b) / 2 - t0) / dt * (v[i + 1] - v[i]))
        return o


def volume(x):
    if EL == 'tria3':
        return abs(np.cross(x[1] - x[0], x[2] - x[0])[2]) / 2
    if EL == 'tet4':
        return abs(np.dot(x[1] - x[0], np.cross(x[2] - x[0], x[3] - x[0]))) / 6
    return np.prod((x.max(axis=0) - x.min(axis=0))[:D])


def waves(s):
    """initial values: sines; one description per fused run"""
    o = []
    for r in range(NCR):
        e = ''
        for q in range(NQ):
            e += 'q[%d] := %s*sin(%s*x+%s*y+%s%s);' % (q, num(round(s.sr(1.), 3)), num(round(s.sr(1.5), 3)), num(round(s.sr(1.5), 3)), num(round(s.sr(3.), 3)), '+%s*z' % num(round(s.sr(1.5), 3)) if D > 2 else '')
        o.append(e)
    return o


def cpu(pid):
    """seconds of CPU time; a run needs a few of them, however busy the machine is"""
    try:
        w = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(w[11]) + int(w[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return 0.


def edge(c, d, xml, ranks, threads, seed):
    with open(d + '/e.xml', 'w') as h:
        h.write(xml)
    shm = d + '/shm'
    with open(shm, 'wb') as h:
        h.truncate((1 << 30) + (1 << 25))
    ps = []
    for r in range(ranks):
        env = dict(os.environ, OMP_NUM_THREADS=str(threads), OMP_WAIT_POLICY='passive', E2E_SHM=shm, E2E_RANK=str(r), E2E_RANKS=str(ranks), E2E_SEED=str(seed))
        ps.append(subprocess.Popen([EDGE, '-x', d + '/e.xml'], cwd=d, env=env, stdout=open('%s/log%d' % (d, r), 'wb'), stderr=subprocess.STDOUT))
    t0, bad = time.time(), None
    try:
        while True:
            st = [p.poll() for p in ps]
            if any(s not in (None, 0) for s in st):
                bad = 'rank %d failed' % [k for k, s in enumerate(st) if s not in (None, 0)][0]
                break
            if all(s == 0 for s in st):
                break
            if time.time() - t0 > 240 or sum(cpu(p.pid) for p in ps) > 60:
                bad = 'no progress'
                break
            time.sleep(.02)
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
        os.unlink(shm)
    if bad:
        r = int(bad.split()[1]) if bad.startswith('rank') else 0
        c.fail('EDGE: %s: %s' % (bad, why(open('%s/log%d' % (d, r), errors='replace').read())))


def config(d, bnd, end, init, recv, freq, mat, wf=1e9, sync=None, ref=None, sep=None, extra=''):
    x = '<edge><build/><cfr><mesh><in><base>%s/m</base><extension>.msh</extension></in><boundary>%s</boundary></mesh>' % (d, bnd)
    x += '<velocity_model>%s</velocity_model>' % mat
    x += '<setups><initial_values>%s</initial_values>%s<end_time>%.17g</end_time></setups><output>' % (''.join('<expression><![CDATA[%s]]></expression>' % e for e in init), extra, end)
    x += '<wave_field><type>vtk_ascii</type><file>%s/wf</file><int>%.17g</int></wave_field>' % (d, wf)
    if recv:
        x += '<receivers><path_to_dir>%s/recv</path_to_dir><freq>%.17g</freq>' % (d, freq)
        for k, p in enumerate(recv):
            x += '<receiver><name>r%d</name><coords><x>%.17g</x><y>%.17g</y><z>%.17g</z></coords></receiver>' % (k, p[0], p[1], p[2])
        x += '</receivers>'
    if ref:
        x += '<error_norms><type>file</type><file>%s/norms.xml</file><reference_values>%s</reference_values></error_norms>' % (d, ''.join('<expression><![CDATA[%s]]></expression>' % e for e in ref))
    x += '</output></cfr>'
    if sync:
        x += '<synchronization><max_int>%.17g</max_int></synchronization>' % sync
    if sep is not None:
        x += '<parallelization><separate_workers>%d</separate_workers></parallelization>' % sep
    return x + '</edge>'


def material(rho, lam, mu, q=''):
    """a single domain: everything"""
    return '<domain><half_space><origin><x>-1e6</x><y>-1e6</y><z>-1e6</z></origin><normal><x>1</x><y>0</y><z>0</z></normal></half_space><rho>%.17g</rho><lambda>%.17g</lambda><mu>%.17g</mu>%s</domain>' % (rho, lam, mu, q)


def read_recv(c, d, k, ranks):
    f = [p for p in ('%s/recv/%d/r%d.csv' % (d, r, k) for r in range(ranks)) if os.path.exists(p)]
    c.require(len(f) == 1, lambda: 'receiver %d written by %d ranks' % (k, len(f)))
    rows = [l.split(',') for l in open(f[0]) if not l.startswith('#')]
    c.require(len(rows[0]) == 1 + NQ * NCR, lambda: 'columns of receiver %d: %s' % (k, rows[0]))
    want = ['Q%d_C%d' % (q, r) for r in range(NCR) for q in range(NQ)]
    col = [x.strip() for x in rows[0]]
    c.require(sorted(col[1:]) == sorted(want), lambda: 'columns of receiver %d: %s' % (k, col))
    v = np.array([[float(x) for x in r] for r in rows[1:]]).reshape(len(rows) - 1, 1 + NQ * NCR)
    return v[:, [0] + [col.index(x) for x in want]]


def samples(end, freq):
    """possible numbers of samples; whether a sample at the end time is part of the run is a matter of round-off"""
    n = end / freq
    e = 1E-4 + (1E-8 if PREC == 64 else 1E-4) / freq
    return {int(max(n - e, 0)) + 1, int(n + e) + 1}


def inside(s, X, v):
    w = [s.r(.1, 1.) for _ in v]
    if EL in ('quad4r', 'hex8r'):
        lo, hi = X[v].min(axis=0), X[v].max(axis=0)
        return [lo[d] + (hi[d] - lo[d]) * s.r(.1, .9) if d < D else 0. for d in range(3)]
    return list(sum(a * X[k] for a, k in zip(w, v)) / sum(w))


@check(60, 1500, 'a receiver recorded the exact solution after at least one time step, and the run used several time groups, ranks or threads')
def polynomial(s, c):
    d = tempfile.mkdtemp(dir=c.tmp)
    try:
        X, els, n = mesh(s, True, *((7, 11) if D == 2 else (4, 5)))
        fa = faces(els)
        lay = layers(els, fa)
        rho, lam, mu = s.r(.5, 3.), s.r(.5, 3.), s.r(.5, 3.)
        vp = math.sqrt((lam + 2 * mu) / rho)
        dt = min(india(X, v) for v in els) * cfl(vp)
        out = s.b()
        write_msh(d + '/in.msh', X, els, fa, lambda l: 105 if out or EQ != 'elastic' or (sum(l) + len(l)) % 3 else 101)
        ranks, threads, groups = s.pick([1, 1, 2, 3]), s.pick([1, 2, 3]), s.pick([1, 2, 2, 3])
        fun = round(s.r(.51, .7 if EL == "hex8r" else 1.), 4)
        edge_v(c, d, ranks, groups, fun)
        dt *= fun
        # steps which keep the solution exact somewhere
        deep = max(lay)
        end = s.r(.4, 1.1) * deep * dt
        nsync = s.pick([1, 1, 2, 3])
        cyc = 2 ** (groups - 1)
        full = int(end / nsync / (dt * cyc) * .9999) * cyc
        deg = ORDER - 1
        sols = []
        for r in range(NCR):
            p = []
            for q in range(NQ):
                m = {}
                for i in range(deg + 1):
                    for j in range(deg + 1 - i):
                        for k in range(deg + 1 - i - j if D > 2 else 1):
                            if s.b():
                                m[(i, j, k)] = s.sr(1.) * .15 ** (i + j + k)
                p.append(m)
            sols.append(p)
        order = sorted(range(len(els)), key=lambda e: -lay[e])
        rec = [order[min(s.draw(len(els)), s.draw(len(els)), s.draw(len(els)))] for _ in range(s.i(2, 8))]
        pts = [inside(s, X, els[e]) for e in rec] if RECV else []
        freq = s.r(.05, 1.) * end if s.b() else s.r(.2, 2.) * dt
        edge(c, d, config(d, '<free_surface>101</free_surface><outflow>105</outflow>', end, [expr(p) for p in sols], pts, freq, material(rho, lam, mu), wf=end, sync=end / nsync * 1.0001, sep=s.pick([0, 1])), ranks, threads, s.draw(1 << 20))
        exact = steps = 0
        ser = []
        for p in sols:
            l = [p]
            while any(l[-1]) and len(l) < ORDER + 1:
                l.append(elastic(l[-1], rho, lam, mu))
            ser.append(l)
        for k, e in enumerate(rec if RECV else []):
            v = read_recv(c, d, k, ranks)
            c.require(len(v) in samples(end, freq), lambda: 'receiver %d: %d samples at an interval of %g until %g' % (k, len(v), freq, end))
            for i, row in enumerate(v):
                c.require(abs(row[0] - i * freq) < 2E-6, lambda: 'receiver %d: sample %d at %g' % (k, i, row[0]))
                t = i * freq
                # bound on the number of steps: full ones and one cycle of the time groups up to the next synchronization
                j, tt = divmod(t, end / nsync * .9999)
                upper = j * (full + cyc) + (math.ceil(tt / dt) if tt < full * dt else full + cyc)
                c.require(np.isfinite(row).all(), lambda: 'receiver %d: %s' % (k, row))
                if upper > lay[e]:
                    continue
                exact += 1
                steps += upper > 1
                for r in range(NCR):
                    for q in range(NQ):
                        ref, mag, f = 0., 0., 1.
                        for o, l in enumerate(ser[r]):
                            if o:
                                f *= t / o
                            z = peval(l[q], pts[k])
                            ref += f * z
                            mag += abs(f * z)
                        mag += sum(abs(peval({kk: abs(vv) for kk, vv in p.items()}, [abs(xx) for xx in pts[k]])) for p in ser[r][0]) * .01
                        got = row[1 + r * NQ + q]
                        c.require(abs(got - ref) <= (2E-6 if PREC == 64 else 2E-4) * (mag + abs(ref)), lambda: 'receiver %d in element %s (%d layers from the boundary), run %d, quantity %d at time %g (time step %g): recorded %.9g, exact %.9g' % (k, els[e], lay[e], r, q, t, dt, got, ref))
        f = field(c, d, ranks, 0, X, els)
        last = nsync * (full + cyc)
        for e, v in enumerate(els):
            if lay[e] < last:
                continue
            pw = quad(X[v])
            exact += 1
            steps += 1
            for r in range(NCR):
                for q in range(NQ):
                    ref, mag, g = 0., 0., 1.
                    for o, l in enumerate(ser[r]):
                        if o:
                            g *= end / o
                        z = sum(w * peval(l[q], x) for x, w in pw)
                        ref += g * z
                        mag += abs(g * z)
                    mag += max(abs(peval({kk: abs(vv) for kk, vv in p.items()}, np.abs(X).max(axis=0))) for p in ser[r][0]) * .01
                    c.require(abs(f[e, r, q] - ref) <= max(TOL, 2E-5) * (mag + abs(ref)), lambda: 'wave field in element %s (%d layers from the boundary), run %d, quantity %d at the end time %g (time step %g): %.9g, exact average %.9g' % (v, lay[e], r, q, end, dt, f[e, r, q], ref))
        c.nontrivial(steps > 0 and (ranks > 1 or groups > 1 or threads > 1))
        c.sample('%s, %d elements, %d ranks, %d threads, %d groups, end time %g (%.1f time steps), %d receivers, %d exact samples' % (EL, len(els), ranks, threads, groups, end, end / dt, len(rec), exact))
    finally:
        if not os.environ.get('E2E_KEEP'):
            shutil.rmtree(d, ignore_errors=True)



def domains(s, X):
    """a random velocity model; returns the description and a function which evaluates it"""
    n = s.pick([1, 2, 2, 3]) if EQ == 'elastic' else 1
    doms, x, cond = [], '', []
    c = X[:, :D].mean(axis=0)
    w = X[:, :D].max(axis=0) - X[:, :D].min(axis=0)
    for k in range(n):
        hs = []
        if k < n - 1:
            for _ in range(s.pick([1, 1, 2])):
                nm = np.array([s.sr(1.) for _ in range(D)])
                if s.b() or np.linalg.norm(nm) < .1:
                    nm = np.eye(D)[s.draw(D)] * (1 if s.b() else -1)
                hs.append((c + np.array([s.sr(.3) for _ in range(D)]) * w, nm))
        else:
            hs.append((c - 1E6, np.ones(D)))
        rho, lam, mu = s.r(.7, 2.), s.r(.7, 2.), s.r(.7, 2.)
        q = '<qp>%.17g</qp><qs>%.17g</qs>' % (s.r(20., 200.), s.r(10., 100.)) if RM else ''
        doms.append((hs, rho, lam, mu))
        x += '<domain>'
        for o, nm in hs:
            ax = 'xyz'[:D]
            x += '<half_space><origin>%s</origin><normal>%s</normal></half_space>' % tuple(''.join('<%s>%.17g</%s>' % (ax[d], v[d], ax[d]) for d in range(D)) for v in (o, nm))
        cond.append('*'.join('(%s<%s)' % (num(float(np.dot(o[:D], nm))), '+'.join('%s*%s' % (num(nm[d]), 'xyz'[d]) for d in range(D))) for o, nm in hs))
        x += '<rho>%.17g</rho><lambda>%.17g</lambda><mu>%.17g</mu>%s</domain>' % (rho, lam, mu, q)

    def at(p):
        for hs, rho, lam, mu in doms:
            if all(np.dot(p[:D] - o, nm) > 0 for o, nm in hs):
                return rho, lam, mu
    # the same for EDGE-V
    ev = ''
    for k, (hs, rho, lam, mu) in reversed(list(enumerate(doms))):
        vp = '%.17g' % math.sqrt((lam + 2 * mu) / rho)
        ev = '%s*%s+(1-%s)*(%s)' % (cond[k], vp, cond[k], ev) if ev else vp
    return x, at, '<velocity_model><seismic_expression><![CDATA[vp := %s; vs := 1; qp := 1; qs := 1;]]></seismic_expression></velocity_model>' % ev


def attenuation(s, dt):
    # the fastest relaxation is resolved by the largest time step
    ra = s.r(10., 100.)
    fc = s.r(.1, 1.) * .3 / dt / (2 * math.pi * math.sqrt(ra))
    return '<attenuation><central_frequency>%.6g</central_frequency><frequency_ratio>%.6g</frequency_ratio></attenuation>' % (fc, ra) if RM else ''


def wave_field(c, fn):
    """points, cells and cell data of an unstructured mesh in the legacy VTK format"""
    w = open(fn).read().split()
    i = w.index('POINTS')
    n = int(w[i + 1])
    pt = np.array([float(x) for x in w[i + 3:i + 3 + 3 * n]]).reshape(n, 3)
    i = w.index('CELLS')
    n, k = int(w[i + 1]), int(w[i + 2])
    cl = [int(x) for x in w[i + 3:i + 3 + k]]
    v = k // max(n, 1)
    c.require(n * v == k and all(cl[j * v] == v - 1 for j in range(n)), lambda: 'cells in %s' % fn)
    cells = [cl[j * v + 1:(j + 1) * v] for j in range(n)]
    da = {}
    for r in range(NCR):
        for q in range(NQ):
            nm = 'crun_%d_var_%d' % (r, q)
            c.require(nm in w, lambda: '%s misses %s' % (fn, nm))
            i = w.index(nm)
            # either SCALARS name float, LOOKUP_TABLE default or FIELD: name 1 n float
            i = i + 4 if w[i - 1] == 'SCALARS' else i + 4
            da[(r, q)] = np.array([float(x) for x in w[i:i + n]])
    return pt, cells, da


def field(c, d, ranks, step, X, els):
    """cell averages of a wave field: [element][run][quantity]; every element is written by exactly one rank"""
    cen = np.array([X[v].mean(axis=0) for v in els])
    rad = np.array([np.abs(X[v] - X[v].mean(axis=0)).max() for v in els])
    o = np.full((len(els), NCR, NQ), np.nan)
    for r in range(ranks):
        fs = [f for f in os.listdir('%s/%d' % (d, r)) if f.endswith('_%d.vtk' % step)]
        c.require(len(fs) == 1, lambda: 'wave field %d of rank %d: %s' % (step, r, fs))
        pt, cells, da = wave_field(c, '%s/%d/%s' % (d, r, fs[0]))
        for k, v in enumerate(cells):
            e = int(np.argmin(np.abs(cen - pt[v].mean(axis=0)).max(axis=1)))
            z = [min(np.abs(X[w] - pt[u]).max() for w in els[e]) for u in v]
            c.require(max(z) < 1E-3 * rad[e] + 1E-5 * np.abs(X).max(), lambda: 'wave field %d of rank %d: cell %d is no element of the mesh: %s' % (step, r, k, pt[v].tolist()))
            c.require(np.isnan(o[e]).all(), lambda: 'wave field %d: element %s is written twice' % (step, els[e]))
            o[e] = [[da[(rr, q)][k] for q in range(NQ)] for rr in range(NCR)]
    c.require(not np.isnan(o).any(), lambda: 'wave field %d: %d elements are missing or not a number' % (step, np.isnan(o).any(axis=(1, 2)).sum()))
    return o


GL = np.polynomial.legendre.leggauss(5)


def quad(x):
    """points and weights (sum one) of a quadrature rule in an element"""
    P, W = [], []
    g = [(.5 + .5 * a, .5 * b) for a, b in zip(*GL)]
    o = x[0]
    if EL == 'line':
        return [(o + a * (x[1] - o), b) for a, b in g]
    if EL == 'quad4r':
        return [(o + a * (x[1] - o) + b * (x[3] - o), u * v) for a, u in g for b, v in g]
    if EL == 'hex8r':
        return [(o + a * (x[1] - o) + b * (x[3] - o) + e * (x[4] - o), u * v * w) for a, u in g for b, v in g for e, w in g]
    if EL == 'tria3':
        return [(o + a * (x[1] - o) + (1 - a) * b * (x[2] - o), 2 * u * v * (1 - a)) for a, u in g for b, v in g]
    return [(o + a * (x[1] - o) + (1 - a) * b * (x[2] - o) + (1 - a) * (1 - b) * e * (x[3] - o), 6 * u * v * w * (1 - a) ** 2 * (1 - b)) for a, u in g for b, v in g for e, w in g]


RECV = EQ == 'elastic'  # the other equations do not sample the receivers


def norms(fn):
    import xml.etree.ElementTree as ET
    r = ET.parse(fn).getroot()
    return np.array([[[float(x.text) for x in q] for q in r.find(k)] for k in ('l1', 'l2', 'linf')])


TOL = 2E-6 if PREC == 64 else 2E-4


@check(40, 1000, 'several ranks, threads or time groups, several materials, at least four time steps')
def rest(s, c):
    """rigid-body motion under free surfaces stays as it is, whatever the materials"""
    d = tempfile.mkdtemp(dir=c.tmp)
    try:
        peri = EQ != 'elastic'
        X, els, n = mesh(s, True, *((4, 7) if D == 2 else (3, 4)), keep=peri)
        fa = faces(els)
        dom, at, evm = domains(s, X)
        mat = [at(X[v].mean(axis=0)) for v in els]
        if any(m is None for m in mat):
            c.discard()
        vp = [math.sqrt((l + 2 * m) / r) for r, l, m in mat]
        dt = min(india(X, v) * cfl(p) for v, p in zip(els, vp))
        write_msh(d + '/in.msh', X, els, fa, lambda l: 106 if peri else 101)
        ranks, threads, groups = s.pick([1, 2, 2, 3]), s.pick([1, 2, 3]), s.i(1, 3)
        fun = round(s.r(.51, .7 if EL == "hex8r" else 1.), 4)
        edge_v(c, d, ranks, groups, fun, '<periodic>106</periodic>' if peri else '', evm)
        steps = s.i(2, 24)
        end = dt * fun * (steps + s.r(0., 1.))
        wf = end * s.pick([2., s.r(.2, .6), 1., .5])
        sols = []
        for r in range(NCR):
            x0 = X.mean(axis=0)
            v0 = [s.sr(1.) for _ in range(D)]
            w = [s.sr(.5) for _ in range(3)]
            if D == 2:
                w = [0., 0., w[2]]
            p = [{} for _ in STRESS]
            if EQ == 'advection':
                sols.append([{(0, 0, 0): s.r(.5, 2.)}])
                continue
            E = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
            for k in range(D):
                a, b = (k + 1) % 3, (k + 2) % 3
                m = {(0, 0, 0): v0[k] - w[a] * x0[b] + w[b] * x0[a]}
                if a >= D or b >= D:
                    m[(0, 0, 0)] = v0[k] - (w[a] * x0[b] if b < D else 0) + (w[b] * x0[a] if a < D else 0)
                if b < D:
                    m[E[b]] = m.get(E[b], 0) + w[a]
                if a < D:
                    m[E[a]] = m.get(E[a], 0) - w[b]
                p.append(m)
            sols.append(p)
        pts = [inside(s, X, els[s.draw(len(els))]) for _ in range(s.i(1, 6))] if RECV else []
        freq = s.r(.1, 1.) * end
        ex = [expr(p) for p in sols]
        edge(c, d, config(d, '<periodic>106</periodic>' if peri else '<free_surface>101</free_surface>', end, ex, pts, freq, dom, wf=wf, sync=end * s.r(.2, 1.1), ref=ex, sep=s.pick([None, 0, 1]), extra=attenuation(s, dt * 2 ** (groups - 1))), ranks, threads, s.draw(1 << 20))
        mag = max(abs(peval(p[q], x)) for p in sols for q in range(NQ) for x in X)
        for k, x in enumerate(pts):
            v = read_recv(c, d, k, ranks)
            c.require(len(v) in samples(end, freq), lambda: 'receiver %d: %d samples at an interval of %g until %g' % (k, len(v), freq, end))
            for row in v:
                for r in range(NCR):
                    for q in range(NQ):
                        c.require(abs(row[1 + r * NQ + q] - peval(sols[r][q], x)) <= TOL * mag, lambda: 'receiver %d at time %g, run %d, quantity %d: %g instead of %g' % (k, row[0], r, q, row[1 + r * NQ + q], peval(sols[r][q], x)))
        nm = norms(d + '/norms.xml')
        c.require(nm.shape == (3, NQ, NCR), lambda: 'error norms of shape %s' % (nm.shape,))
        size = np.prod(X.max(axis=0)[:D] - X.min(axis=0)[:D])
        for k, sc in enumerate((size, math.sqrt(size), 1.)):
            c.require((nm[k] <= TOL * mag * sc).all() and (nm[k] >= 0).all(), lambda: 'error norm %d of a stationary solution: %s' % (k, nm[k]))
        want = 0 if wf >= end else 1 + int(end / wf * (1 + 1E-9))
        if abs(end / wf - round(end / wf)) > 1E-2 and wf < end or wf > end * 1.01:
            for r in range(ranks):
                fs = os.listdir('%s/%d' % (d, r)) if os.path.isdir('%s/%d' % (d, r)) else []
                c.require(len(fs) == want, lambda: 'rank %d wrote %d wave fields, interval %g, end %g' % (r, len(fs), wf, end))
        for st in range(want - 1 if want else 0):
            f = field(c, d, ranks, st, X, els)
            for e, v in enumerate(els):
                for r in range(NCR):
                    for q in range(NQ):
                        ref = peval(sols[r][q], X[v].mean(axis=0))
                        c.require(abs(f[e, r, q] - ref) <= max(TOL, 2E-5) * mag, lambda: 'wave field %d, element %s, run %d, quantity %d: %g instead of %g' % (st, v, r, q, f[e, r, q], ref))
        c.nontrivial((ranks > 1 or threads > 1 or groups > 1) and (len(set(mat)) > 1 or EQ != 'elastic') and steps >= 4)
        c.sample('%s, %d elements, %d materials, %d ranks, %d threads, %d groups, %d steps, %d wave fields' % (EL, len(els), len(set(mat)), ranks, threads, groups, steps, want))
    finally:
        if not os.environ.get('E2E_KEEP'):
            shutil.rmtree(d, ignore_errors=True)


@check(30, 800, 'several ranks, at least two time groups or materials, and the solution changed by more than one percent')
def ranks(s, c):
    """the number of ranks and threads does not change the solution"""
    d = tempfile.mkdtemp(dir=c.tmp)
    try:
        bnd = s.pick(['free', 'out', 'mixed', 'periodic', 'periodic'] if EQ == 'elastic' else ['out', 'periodic'])
        X, els, n = mesh(s, True, *((4, 7) if D == 2 else (3, 4)), keep=bnd == 'periodic')
        fa = faces(els)
        dom, at, evm = domains(s, X)
        mat = [at(X[v].mean(axis=0)) for v in els]
        if any(m is None for m in mat):
            c.discard()
        vp = [math.sqrt((l + 2 * m) / r) for r, l, m in mat]
        dt = min(india(X, v) * cfl(p) for v, p in zip(els, vp))
        sel = s.draw(3)
        write_msh(d + '/in.msh', X, els, fa, lambda l: {'free': 101, 'out': 105, 'periodic': 106}.get(bnd) or (101 if sum(l) % 3 == sel else 105))
        nr, threads, groups = s.pick([2, 2, 3, 4]), s.pick([1, 2, 3]), s.i(1, 3)
        fun = round(s.r(.51, .7 if EL == "hex8r" else 1.), 4)
        end = dt * fun * s.r(2., 20.)
        init = waves(s)
        ref = [''.join('q[%d] := 0;' % q for q in range(NQ))] * NCR
        pts = [inside(s, X, els[s.draw(len(els))]) for _ in range(s.i(2, 8))] if RECV else []
        freq = s.r(.1, 1.) * end
        sync = end * s.r(.2, 1.1)
        att = attenuation(s, dt * 2 ** (groups - 1))
        vm = EQ == 'elastic' and not RM and s.b()
        src = ''
        if EQ == 'elastic' and s.b():
            for r in range(NCR):
                fn = '%s/src%d.h5' % (d, r)
                Sources(s, X, els, end, s.i(1, 6)).write(c, fn)
                src += '<file>%s</file>' % fn
            att += '<point_sources>%s</point_sources>' % src
        res = []
        for R, T in ((1, 1), (nr, threads)):
            w = '%s/%d' % (d, R)
            os.mkdir(w)
            shutil.copy(d + '/in.msh', w + '/in.msh')
            edge_v(c, w, R, groups, fun, '<periodic>106</periodic>' if bnd == 'periodic' else '', evm)
            if vm:
                mesh_model(c, w, R, at)
            edge(c, w, config(w, '<free_surface>101</free_surface><outflow>105</outflow>' if bnd != 'periodic' else '<periodic>106</periodic>', end, init, pts, freq, '' if vm else dom, wf=end, sync=sync, ref=ref, sep=s.pick([None, 0, 1]) if R > 1 else None, extra=att), R, T, s.draw(1 << 20))
            res.append(([read_recv(c, w, k, R) for k in range(len(pts))], norms(w + '/norms.xml'), field(c, w, R, 0, X, els)))
        mag = max([np.abs(v[:, 1:]).max() for v in res[0][0]] + [np.abs(res[0][2]).max()])
        c.require(np.isfinite(mag), lambda: 'the solution is not finite')
        ch = 0. if RECV else mag
        e = np.abs(res[0][2] - res[1][2]).max()
        c.require(e <= max(TOL, 2E-5) * mag, lambda: 'wave field: the solution of %d ranks and %d threads differs by %g (largest value %g)' % (nr, threads, e, mag))
        for k in range(len(pts)):
            a, b = res[0][0][k], res[1][0][k]
            m = min(len(a), len(b))
            c.require({len(a), len(b)} <= samples(end, freq), lambda: 'receiver %d: %s and %s samples' % (k, a.shape, b.shape))
            a, b = a[:m], b[:m]
            e = np.abs(a - b)
            c.require(e[:, 1:].max() <= TOL * mag, lambda: 'receiver %d at %s: the solution of %d ranks and %d threads differs by %g (largest value %g)' % (k, pts[k], nr, threads, e[:, 1:].max(), mag))
            ch = max(ch, np.abs(a - a[0])[:, 1:].max())
        for k in range(3):
            e = np.abs(res[0][1][k] - res[1][1][k]).max()
            c.require(e <= TOL * 5 * res[0][1][k].max(), lambda: 'norm %d of %d ranks differs: %s, %s' % (k, nr, res[0][1][k], res[1][1][k]))
        c.nontrivial((groups > 1 or len(set(mat)) > 1 or nr > 2) and ch > .01 * mag)
        c.sample('%s, %d elements, %d materials, %s%s%s, %d ranks, %d threads, %d groups, %d receivers' % (EL, len(els), len(set(mat)), bnd, ', sources' if src else '', ', model of the mesh' if vm else '', nr, threads, groups, len(pts)))
    finally:
        if not os.environ.get('E2E_KEEP'):
            shutil.rmtree(d, ignore_errors=True)


@check(40, 1000, 'several ranks, threads or time groups, and the momentum density of some element changed by more than ten percent of the largest one')
def conserve(s, c):
    """momentum (elastic) and mass (advection) change by what the sources inject only"""
    d = tempfile.mkdtemp(dir=c.tmp)
    try:
        peri = EQ != 'elastic' or s.b()
        X, els, n = mesh(s, True, *((4, 7) if D == 2 else (3, 4)), keep=peri)
        fa = faces(els)
        dom, at, evm = domains(s, X)
        mat = [at(X[v].mean(axis=0)) for v in els]
        if any(m is None for m in mat):
            c.discard()
        vp = [math.sqrt((l + 2 * m) / r) for r, l, m in mat]
        dt = min(india(X, v) * cfl(p) for v, p in zip(els, vp))
        write_msh(d + '/in.msh', X, els, fa, lambda l: 106 if peri else 101)
        ranks, threads, groups = s.pick([1, 2, 2, 3, 4]), s.pick([1, 2, 3]), s.i(1, 3)
        fun = round(s.r(.51, .7 if EL == 'hex8r' else 1.), 4)
        edge_v(c, d, ranks, groups, fun, '<periodic>106</periodic>' if peri else '', evm)
        vm = EQ == 'elastic' and not RM and s.b()
        if vm:
            mesh_model(c, d, ranks, at)
        end = dt * fun * s.r(2., 24.)
        nwf = s.pick([1, 2, 3])
        wf = end / (nwf + .5)
        extra = attenuation(s, dt * 2 ** (groups - 1))
        src = []
        if EQ == 'elastic' and s.b():
            src = [Sources(s, X, els, end, s.i(1, 6)) for _ in range(NCR)]
            for r in range(NCR):
                src[r].write(c, '%s/src%d.h5' % (d, r))
            extra += '<point_sources>%s</point_sources>' % ''.join('<file>%s/src%d.h5</file>' % (d, r) for r in range(NCR))
        edge(c, d, config(d, '<periodic>106</periodic>' if peri else '<free_surface>101</free_surface>', end, waves(s), [], 1., '' if vm else dom, wf=wf, sync=end * s.r(.2, 1.1), sep=s.pick([None, 0, 1]), extra=extra), ranks, threads, s.draw(1 << 20))
        vol = np.array([volume(X[v]) for v in els])
        ns = len(STRESS)
        w = np.array([[vol[e] * (mat[e][0] if EQ == 'elastic' else 1.)] for e in range(len(els))])
        qs = list(range(ns, NQ))
        if peri and len(set(mat)) == 1 and not RM:
            qs = list(range(NQ))  # a uniform medium conserves the stresses too
        f0 = field(c, d, ranks, 0, X, els)
        ch = 0.
        for k in range(1, nwf + 1):
            f = field(c, d, ranks, k, X, els)
            big = np.abs(f).max() + np.abs(f0).max()
            c.require(np.isfinite(big), lambda: 'the solution is not finite')
            for r in range(NCR):
                for q in qs:
                    want, tol = (w[:, 0] * f0[:, r, q]).sum(), max(TOL, 5E-5) * (w[:, 0] * (np.abs(f0[:, r, q]) + np.abs(f[:, r, q]))).sum() + TOL * (w[:, 0] * big).sum()
                    for j in range(len(src[r].el) if src else 0):
                        g = src[r].sc[j][q] * (mat[src[r].el[j]][0])
                        want += g * src[r].injected(j, k * wf)
                        tol += abs(g) * max(abs(v) for v in src[r].v[j]) * src[r].dt[j] * 1E-3
                    got = (w[:, 0] * f[:, r, q]).sum()
                    c.require(abs(got - want) <= tol, lambda: 'wave field %d, run %d: total of quantity %d is %.9g, initial and injected one is %.9g (tolerance %g)' % (k, r, q, got, want, tol))
                ch = max(ch, (np.abs(f - f0)[:, r, ns:]).max() / big)
        c.nontrivial((ranks > 1 or threads > 1 or groups > 1) and ch > .1)
        c.sample('%s, %d elements, %d materials%s, %s, %s, %d ranks, %d threads, %d groups, %d steps, %d wave fields' % (EL, len(els), len(set(mat)), ' of the mesh' if vm else '', 'periodic' if peri else 'free', '%d sources' % sum(len(x.el) for x in src) if src else 'no sources', ranks, threads, groups, end / dt / fun, nwf + 1))
    finally:
        if not os.environ.get('E2E_KEEP'):
            shutil.rmtree(d, ignore_errors=True)

# ---------------------------------------------------------------- shallow water
def gridded(s, c, X, els, fn, f):
    """writes a random grid which samples a function of x and y; returns the elements' averages of the vertices' values"""
    r32 = lambda a: np.array(a, dtype=np.float32).astype(float)
    ext = X.max(axis=0)
    g = [np.sort([-.1 * s.r(.1, 1.)] + [s.r(.01, .99) * ext[k] for _ in range(s.i(2, 9))] + [ext[k] * s.r(1.01, 1.2)]) for k in range(2)]
    z = r32([[f(x / ext[0], y / ext[1]) for x in g[0]] for y in g[1]])
    h5(c, fn, 'new', [('/x', 'f64', g[0]), ('/y', 'f64', g[1]), ('/z', 'f32', z)])
    ve = [z[np.searchsorted(g[1], x[1]), np.searchsorted(g[0], x[0])] for x in X]
    at = lambda x: z[np.searchsorted(g[1], x[1]), np.searchsorted(g[0], x[0])]
    return r32([sum(ve[k] for k in v) / len(v) for v in els]), at


def fwave(hl, hr, ul, ur, bl, br, g=9.80665):
    """net-updates of the f-wave solver with Einfeldt speeds: left and right (h, hu)"""
    wl, wr = np.sqrt(hl), np.sqrt(hr)
    u = (wl * ul + wr * ur) / (wl + wr)
    a = np.sqrt(g * (hl + hr) / 2)
    l0, l1 = np.minimum(ul - np.sqrt(g) * wl, u - a), np.maximum(ur + np.sqrt(g) * wr, u + a)
    d0 = hr * ur - hl * ul
    d1 = hr * ur * ur - hl * ul * ul + g / 2 * (hr * hr - hl * hl) + g / 2 * (hl + hr) * (br - bl)
    b = [(l1 * d0 - d1) / (l1 - l0), (d1 - l0 * d0) / (l1 - l0)]
    o = [[0., 0.], [0., 0.]]
    for k, l in ((0, l0), (1, l1)):
        for q in range(2):
            f = b[k] * (l if q else 1.)
            o[0][q] = o[0][q] + np.where(l < 0, f, 0.)
            o[1][q] = o[1][q] + np.where(l < 0, 0., f)
    return o, np.minimum(np.abs(l0), np.abs(l1)).min() if len(l0) else 1.


class Water:
    """finite volumes on the generated mesh"""

    def __init__(self, X, els, fa, tag, per):
        self.vol = np.array([volume(X[v]) for v in els])
        cen = np.array([X[v].mean(axis=0) for v in els])
        fs = []
        opp = {}
        for l in fa.values():
            (e, v) = l[0]
            m, t = X[v].mean(axis=0), X[v[1]] - X[v[0]]
            n = np.array([t[1], -t[0]])
            ln = np.linalg.norm(n)
            n = n / ln * (1 if np.dot(n, (m - cen[e])[:2]) > 0 else -1)
            if len(l) == 2:
                fs.append((e, l[1][0], n, ln, 0))
            elif per:
                d = 0 if abs(n[0]) > .5 else 1
                k = (d, round(m[1 - d], 6))
                if k in opp:
                    fs.append((opp.pop(k), e, -n, ln, 0))
                else:
                    opp[k] = e
            else:
                fs.append((e, e, n, ln, tag(v)))
        assert not opp
        self.l, self.r, self.n, self.a, self.t = [np.array(z) for z in zip(*fs)]
        self.dia = np.array([india(X, v) for v in els])

    def dt(self, q):
        with np.errstate(divide='ignore', invalid='ignore'):
            s = np.hypot(q[:, 1], q[:, 2]) / q[:, 0] + np.sqrt(9.80665 * np.abs(q[:, 0]))
        return (.9 * self.dia / s / 2)[q[:, 0] > 0].min()

    def step(self, q, b, dt):
        L, R = self.l, self.r
        hl, hr = q[L, 0], q[R, 0]
        ml, mr = (q[L, 1:] * self.n).sum(axis=1), (q[R, 1:] * self.n).sum(axis=1)
        mr = np.where(self.t == 101, -ml, mr)
        bl, br = b[L], b[R]
        dl, dr = bl >= 0, br >= 0
        hl, hr, ml, mr, bl, br = np.where(dl, hr, hl), np.where(dr, hl, hr), np.where(dl, -mr, ml), np.where(dr, -ml, mr), np.where(dl, br, bl), np.where(dr, bl, br)
        ok = ~(dl & dr)
        hl, hr = np.where(ok, hl, 1.), np.where(ok, hr, 1.)
        o, crit = fwave(hl, hr, ml / hl, mr / hr, bl, br)
        out = q.copy()
        for s, e, dry in ((0, L, dl), (1, R, dr)):
            m = ok & ~dry & ((s == 0) | (self.t == 0))
            f = -dt / self.vol[e] * self.a * m
            np.add.at(out[:, 0], e, f * o[s][0])
            for d in range(2):
                np.add.at(out[:, 1 + d], e, f * o[s][1] * self.n[:, d])
        return out, crit


TIME = 1E-9 if PREC == 64 else 1E-5  # EDGE's tolerance


@check(40, 1200, 'several bathymetries or boundaries, at least four steps, and some water height changed by more than one percent')
def swe(s, c):
    """finite volumes for the shallow water equations vs. a reference implementation"""
    d = tempfile.mkdtemp(dir=c.tmp)
    try:
        bnd = s.pick(['wall', 'out', 'mixed', 'periodic'])
        per = bnd == 'periodic'
        X, els, n = mesh(s, True, 4, 8, keep=per)
        fa = faces(els)
        sel = s.draw(3)
        tag = lambda l: {'wall': 101, 'out': 105, 'periodic': 106}.get(bnd) or (101 if sum(l) % 3 == sel else 105)
        write_msh(d + '/in.msh', X, els, fa, tag)
        w = Water(X, els, fa, tag, per)
        cen = np.array([X[v].mean(axis=0) for v in els])
        ext = X.max(axis=0)
        src = s.pick(['mesh', 'config', 'grid'])
        q = []
        mod = ''
        if src == 'grid':
            grid = lambda fn, f: gridded(s, c, X, els, fn, f)[0]
            land = s.pick([-2., -1.3, -.7])
            p = [s.sr(1.) for _ in range(3)]
            ba = grid(d + '/bath.h5', lambda x, y: land + .6 * math.sin(4 * p[0] * x + 4 * p[1] * y + 3 * p[2]) + (2.5 * (x - .3) if land > -1. else 0.))
            if np.abs(ba).min() < 1E-3:
                c.discard()
            mod = '<velocity_model><tsunami><dry_tolerance>0</dry_tolerance><bathymetry>%s/bath.h5</bathymetry>' % d
            for r in range(NCR):
                p = [s.sr(1.) for _ in range(4)]
                di = grid('%s/disp%d.h5' % (d, r), lambda x, y: p[0] * math.cos(3 * p[1] * x + 3 * p[2] * y + 3 * p[3]))
                mod += '<displacements>%s/disp%d.h5</displacements>' % (d, r)
                q.append(np.stack([np.maximum(-ba + di, 0), 0 * ba, 0 * ba], axis=1))
            mod += '<expression><![CDATA[min_speed := 1; max_speed := 2+data*data;]]></expression></tsunami></velocity_model>'
            init = ['q[0] := 1; q[1] := 0; q[2] := 0;'] * NCR
        edge_v(c, d, 1, 1, 1., '<periodic>106</periodic>' if per else '', mod, s.draw(2))
        if src == 'grid':
            pass
        elif src == 'mesh':
            p = [s.sr(1.) for _ in range(8)]
            land = s.pick([False, True, True])
            fb = lambda x: -2 + .8 * math.sin(p[0] * x[0] + p[1] * x[1] + 3 * p[2]) + .5 * p[3] + (3. * (x[0] * p[4] + x[1] * p[5]) / max(ext) if land else 0.)
            r32 = lambda a: np.array(a, dtype=np.float32).astype(float)
            mx, me = read_msh(d + '/m.msh' if os.path.exists(d + '/m.msh') else d + '/m_1.msh')
            mc = np.array([np.mean([mx[k] for k in v], axis=0) for v in me])
            order = [int(np.argmin(np.abs(mc - x).max(axis=1))) for x in cen]
            ba = r32([fb(x) for x in cen])
            sets = []
            for r in range(NCR):
                a = [s.sr(1.) for _ in range(4)]
                h = s.b()
                di = r32([(a[0] * math.cos(a[1] * x[0] + 2 * a[2] * x[1] + 3 * a[3])) if (not h or x[0] > ext[0] / 2) else 0. for x in cen])
                q.append(np.stack([np.maximum(-ba + di, 0), 0 * ba, 0 * ba], axis=1))
                z = np.zeros(len(els))
                z[order] = di
                sets.append(('/edge_v/disp_%d' % r, 'f32', z))
            z = np.zeros(len(els))
            z[order] = ba
            h5(c, d + ('/m.h5' if os.path.exists(d + '/m.h5') else '/m_1.h5'), 'add', [('/edge_v/bath', 'f32', z)] + sets)
            init = ['q[0] := 1; q[1] := 0; q[2] := 0;'] * NCR
        else:
            ba = np.full(len(els), -1.)
            init = []
            for r in range(NCR):
                co = [[s.r(.8, 3.), s.sr(.6) / max(ext), s.sr(.6) / max(ext)]] + [[s.sr(1.), s.sr(1.) / max(ext), s.sr(1.) / max(ext)] for _ in range(2)]
                if s.draw(4) == 0:
                    co[1][0] *= 8  # faster than its waves
                q.append(np.array([[k[0] + k[1] * x[0] + k[2] * x[1] for k in co] for x in cen]))
                init.append(''.join('q[%d] := %s+%s*x+%s*y;' % (k, num(z[0]), num(z[1]), num(z[2])) for k, z in enumerate(co)))
        wet = ba < 0
        if not wet.any() or min(z[wet, 0].min() for z in q) < .05:
            c.discard()
        dt = min(w.dt(z) for z in q)
        end = dt * s.r(1., 25.)
        nwf = s.pick([1, 1, 2, 3])
        wf = end / (nwf + s.r(.1, .9))
        sync = end * s.r(.2, 1.1)
        if PREC == 32:
            wf = round(wf, 5)
        # the same steps
        t, si, k, ref = 0., min(wf, sync), 0, [[z.copy() for z in q]]
        steps = 0
        while end - t > TIME:
            st = min(end - t, si)
            full = int(st / dt)
            for dd in [dt] * full + [max(0., st - full * dt)]:
                for r in range(NCR):
                    q[r], crit = w.step(q[r], ba, dd)
                    if not np.isfinite(q[r]).all() or q[r][wet, 0].min() < .02 or crit < 1E-5:
                        c.discard()
                steps += 1
            t += st
            if t + TIME > (k + 1) * wf:
                ref.append([z.copy() for z in q])
                k += 1
            si = min((k + 1) * wf - t, sync, end - t)
            if si < TIME:
                si = end
        edge(c, d, config(d, '<reflecting>101</reflecting><outflow>105</outflow>' if not per else '<periodic>106</periodic>', end, init, [], 1., '', wf=wf, sync=sync), 1, s.pick([1, 2, 3, 4]), s.draw(1 << 20))
        ch = 0.
        for k, z in enumerate(ref):
            f = field(c, d, 1, k, X, els)
            for r in range(NCR):
                mag = np.abs(z[r]).max()
                e = np.abs(f[:, r] - z[r])
                i = np.unravel_index(np.argmax(e), e.shape)
                c.require(e.max() <= (3E-5 if PREC == 64 else 5E-4) * mag, lambda: 'wave field %d, run %d, element %s, quantity %d: %.9g instead of %.9g' % (k, r, els[i[0]], i[1], f[i[0], r, i[1]], z[r][i]))
                ch = max(ch, np.abs(z[r] - ref[0][r])[:, 0].max() / mag)
        c.nontrivial(steps >= 4 and ch > .01)
        c.sample('%s, %d elements (%d dry), %s, initial values of the %s, %d steps, %d wave fields' % (EL, len(els), (~wet).sum(), bnd, src, steps, len(ref)))
    finally:
        if not os.environ.get('E2E_KEEP'):
            shutil.rmtree(d, ignore_errors=True)

# ---------------------------------------------------------------- EDGE-V on its own
class Ids:
    """finds entities of the generated mesh by their coordinates"""

    def __init__(self, X, els):
        self.X, self.h = X, {}
        self.els = {tuple(sorted(v)): e for e, v in enumerate(els)}

    def vertex(self, x, tol):
        d = np.abs(self.X - np.array(x)).max(axis=1)
        k = int(np.argmin(d))
        return k if d[k] <= tol else None

    def element(self, xs, tol=1E-9):
        return self.els.get(tuple(sorted(-1 if k is None else k for k in (self.vertex(x, tol) for x in xs))))


def view(c, fn, ids):
    """element data of a file: values in the order of the generated mesh"""
    c.require(os.path.exists(fn), lambda: '%s was not written' % os.path.basename(fn))
    T = []
    mx, me = read_msh(fn, T)
    el = {t: ids.element([mx[k] for k in v]) for t, v in zip(T, me)}
    L = open(fn).read().split('\n')
    i = L.index('$ElementData') + 1
    i += 1 + int(L[i])
    i += 1 + int(L[i])
    n = int(L[i + 3])
    i += 1 + int(L[i])
    o = np.full(len(ids.els), np.nan)
    for l in L[i:i + n]:
        k, v = l.split()
        e = el.get(int(k))
        c.require(e is not None and np.isnan(o[e]), lambda: '%s: %s' % (os.path.basename(fn), l))
        o[e] = float(v)
    c.require(not np.isnan(o).any(), lambda: '%s: %d elements without data' % (os.path.basename(fn), np.isnan(o).sum()))
    return o


def time_groups(ts, ad, fun, n):
    """the group of every element"""
    g = np.zeros(len(ts), dtype=int)
    for k in range(1, n):
        g[ts >= fun * 2 ** k] = k
    while True:
        m = g.copy()
        for a, b in ad:
            m[a] = min(m[a], g[b] + 1)
            m[b] = min(m[b], g[a] + 1)
        if (m == g).all():
            return g
        g = m


@check(300, 6000, 'several partitions and time groups which are both used')
def prep(s, c):
    """everything EDGE-V writes for a mesh and a configuration"""
    d = tempfile.mkdtemp(dir=c.tmp)
    try:
        per = s.draw(3) == 0
        X, els, n = mesh(s, True, *((3, 7) if D == 2 else (2, 4)), keep=per)
        if per and min(n) < 3:
            c.discard()
        fa = faces(els)
        write_msh(d + '/in.msh', X, els, fa, lambda l: 106 if per else 101 + sum(l) % 2 * 4)
        ids = Ids(X, els)
        # adjacency
        ad = [(l[0][0], l[1][0]) for l in fa.values() if len(l) == 2]
        if per:
            opp = {}
            for l in fa.values():
                if len(l) == 1:
                    v = X[l[0][1]]
                    ax = int(np.argmin(v.max(axis=0)[:D] - v.min(axis=0)[:D]))
                    k = (ax,) + tuple(np.round(np.delete(v, ax, axis=1).mean(axis=0), 6))
                    if k in opp:
                        ad.append((opp.pop(k), l[0][0]))
                    else:
                        opp[k] = l[0][0]
            assert not opp
        # METIS leaves partitions of tiny meshes empty
        parts, groups = min(s.pick([1, 2, 3, 4]), max(1, len(els) // 10)), s.i(1, 4)
        only = s.draw(5) == 0
        if only and parts > 1:
            groups = 1
        fun = s.pick([0, 1., round(s.r(.51, 1.), 4)])
        cen, ann, csv = s.draw(2), s.draw(3) > 0, s.b()
        ref = EL in ('tria3', 'tet4') and s.b()
        # speeds
        mod, co, bath, disp = '', None, None, []
        if s.draw(4):
            co = [s.r(1., 3.), s.sr(.9), s.sr(1.), s.sr(1.), s.sr(1.), s.r(.3, .9)]
            e = '%s+%s*sin(%s*x+%s*y%s)' % (num(co[0]), num(co[1]), num(co[2]), num(co[3]), '+%s*z' % num(co[4]) if D > 2 else '')
            mod = '<velocity_model><seismic_expression><![CDATA[vp := %s; vs := (%s)*%s; qp := 1; qs := 1;]]></seismic_expression></velocity_model>' % (e, e, num(co[5]))
        elif s.b():
            p = [s.sr(1.) for _ in range(4)]
            f = lambda x, y: p[0] * math.sin(3 * p[1] * x + 4 * p[2] * y + p[3])
            bath, bat = gridded(s, c, X, els, d + '/bath.h5', f)
            mod = '<velocity_model><tsunami><dry_tolerance>0</dry_tolerance><bathymetry>%s/bath.h5</bathymetry>' % d
            for k in range(s.i(0, 3)):
                disp.append(gridded(s, c, X, els, '%s/disp%d.h5' % (d, k), lambda x, y: p[k] + f(y, x))[0])
                mod += '<displacements>%s/disp%d.h5</displacements>' % (d, k)
            mod += '<expression><![CDATA[min_speed := 1+.1*data; max_speed := 2+data+%s*x;]]></expression></tsunami></velocity_model>' % num(round(.1 * p[0], 3))
        if bath is not None:
            vp, vs = lambda x: 2 + bat(x) + round(.1 * p[0], 3) * x[0], lambda x: 1 + .1 * bat(x)
        else:
            vp = lambda x: co[0] + co[1] * math.sin(co[2] * x[0] + co[3] * x[1] + co[4] * x[2]) if co else 1.
            vs = lambda x: vp(x) * co[5] if co else 1.
        rf = [s.r(.5, 3.), s.r(1., 5.), s.sr(.05), s.r(0., 1.)]
        base = d + '/m'
        with open(d + '/v.xml', 'w') as h:
            h.write('<edge_v><mesh><files><in>%s/in.msh</in><out><base>%s</base><extension>.msh</extension></out></files>' % (d, base))
            h.write('<n_partitions>%d</n_partitions>' % parts if parts > 1 or s.b() else '')
            h.write('<periodic>106</periodic>' if per else '')
            h.write('<write_element_annotations>%d</write_element_annotations>' % ann if ann or s.b() else '')
            h.write('<reorder_only>%d</reorder_only></mesh>' % only if only or s.b() else '</mesh>')
            h.write(mod)
            if ref:
                h.write('<refinement><expression><![CDATA[frequency := %s+%s*(maximum_wave_speed_ratio-1); edges_per_wave_length := %s+%s*x;]]></expression><out>%s/bg.msh</out></refinement>' % (num(rf[0]), num(rf[3]), num(rf[1]), num(rf[2]), d))
            h.write('<time><n_groups>%d</n_groups>' % groups)
            h.write('<fundamental_time_step>%.17g</fundamental_time_step>' % fun if fun or s.b() else '')
            h.write('<centroid_based_cfl>%d</centroid_based_cfl>' % cen if cen or s.b() else '')
            h.write('<files><out><time_steps>%s/ts.csv</time_steps></out></files></time></edge_v>' % d if csv else '</time></edge_v>')
        sh(c, [EDGE_V, '-x', d + '/v.xml'], d, dict(os.environ, OMP_NUM_THREADS=str(s.pick([1, 3]))), 120)

        # time steps and groups
        ts = np.array([india(X, v) / (vp(X[v].mean(axis=0)) if cen else np.mean([vp(X[k]) for k in v])) for v in els])
        ts /= ts.min()
        near = lambda f: any((np.abs(ts / (f * 2 ** k) - 1) < 1E-8).any() for k in range(1, groups))
        cand = [fun]
        if fun == 0:
            cand, x = [], 1.
            while x > .5:
                cand.append(x)
                x -= .01
        elif near(fun):
            c.discard()
        h0 = h5_get(d + '/m_1.h5', ['/edge_v/relative_time_steps'])[0]
        c.require(h0 is not None and len(h0) == groups + 1, lambda: 'relative time steps: %s' % h0)
        f = h0[0]
        c.require(any(abs(f - x) < 1E-12 for x in cand), lambda: 'fundamental time step %.17g, configured: %g' % (f, fun))
        c.require((np.abs(h0[:-1] / (f * 2. ** np.arange(groups)) - 1) < 1E-12).all() and h0[-1] > 1E300, lambda: 'relative time steps: %s' % h0)
        grp = time_groups(ts, ad, f, groups)
        if fun == 0:
            if near(f):
                c.discard()
            load = lambda x: (1. / (x * 2. ** time_groups(ts, ad, x, groups))).sum()
            best = min((load(x), x) for x in cand if not near(x))
            c.require(load(f) <= best[0] * (1 + 1E-9), lambda: 'fundamental time step %g has a load of %g, %g one of %g' % (f, load(f), best[1], best[0]))
        if csv:
            L = [l for l in open(d + '/ts.csv').read().split('\n') if l and not l.startswith('#')]
            v = np.array([float(x) for x in L[1:]])
            c.require(L[0] == 'ts_cfl' and len(v) == len(els) and (np.abs(np.sort(v) - np.sort(ts)) < 1E-4 * np.sort(ts)).all(), lambda: 'ts.csv: %s instead of %s' % (np.sort(v)[:5], np.sort(ts)[:5]))
        else:
            c.require(not os.path.exists(d + '/ts.csv'), lambda: 'ts.csv was not asked for')

        # the partitions' meshes
        np_ = 1 if only else parts
        pa, pos = np.full(len(els), -1), np.full(len(els), -1)
        seq = []
        for p_ in range(np_):
            fn = '%s_%d.msh' % (base, p_ + 1)
            c.require(os.path.exists(fn), lambda: 'partition %d was not written: %s' % (p_, sorted(os.listdir(d))))
            mx, me = read_msh(fn)
            for v in me:
                e = ids.element([mx[k] for k in v])
                c.require(e is not None and pa[e] < 0, lambda: 'partition %d: element with vertices %s is %s' % (p_, [mx[k] for k in v], 'no element of the mesh' if e is None else 'written twice'))
                pa[e], pos[e] = p_, len(seq)
                seq.append(e)
        c.require((pa >= 0).all() and len(seq) == len(els), lambda: '%d elements are in no partition' % (pa < 0).sum())
        c.require(not os.path.exists('%s_%d.msh' % (base, np_ + 1)) and not os.path.exists('%s_%d.h5' % (base, np_ + 1)), lambda: 'more than %d partitions' % np_)
        send = np.zeros(len(els), dtype=bool)
        for a, b in ad:
            if pa[a] != pa[b]:
                send[a] = send[b] = True
        for p_ in range(np_):
            mine = [e for e in seq if pa[e] == p_]
            key = [send[e] * groups + grp[e] for e in mine]
            c.require(key == sorted(key), lambda: 'partition %d: elements are not sorted by inner/send and time group: %s' % (p_, key))
            g = h5_get('%s_%d.h5' % (base, p_ + 1), ['/edge_v/' + x for x in ('relative_time_steps', 'n_time_group_elements_inner', 'n_time_group_elements_send', 'send_el', 'recv_el', 'communication_structure')])
            want = [[sum(1 for e in mine if send[e] == b and grp[e] == k) for k in range(groups)] for b in (False, True)]
            c.require(np.array_equal(g[0], h0), lambda: 'relative time steps of partition %d: %s, of the first one: %s' % (p_, g[0], h0))
            c.require(g[1] is not None and g[2] is not None and list(g[1]) == want[0] and list(g[2]) == want[1], lambda: 'partition %d: %s inner and %s send elements in the time groups, expected %s' % (p_, g[1], g[2], want))
            g2 = h5_get('%s_%d.h5' % (base, p_ + 1), ['/edge_v/bath'] + ['/edge_v/disp_%d' % k for k in range(len(disp) + 1)])
            for k, z in enumerate(([bath] if bath is not None else [None]) + disp + [None]):
                c.require(z is None and g2[k] is None or z is not None and g2[k] is not None and len(g2[k]) == len(mine) and (np.abs(g2[k] - z[mine]) <= 1E-5).all(), lambda: 'partition %d: %s is %s, expected %s' % (p_, 'displacement %d' % (k - 1) if k else 'bathymetry', g2[k], None if z is None else z[mine]))
            if np_ > 1:
                fc = [(a, b) for a, b in ad + [(b, a) for a, b in ad] if pa[a] == p_ and pa[b] != p_]
                c.require(g[3] is not None and len(g[3]) == len(fc) == len(g[4]), lambda: 'partition %d: %s send, %s receive faces, expected %d' % (p_, g[3], g[4], len(fc)))
                first = len([e for e in seq if pa[e] < p_])
                c.require(sorted(g[3]) == sorted(pos[a] - first for a, b in fc), lambda: 'partition %d: send elements %s, expected %s' % (p_, sorted(g[3]), sorted(pos[a] - first for a, b in fc)))
                ch = sorted({(grp[a], pa[b], grp[b]) for a, b in fc})
                c.require(len(g[5]) == 1 + 4 * len(ch) and g[5][0] == len(ch) and sorted((g[5][1 + 4 * k], g[5][2 + 4 * k], g[5][3 + 4 * k]) for k in range(len(ch))) == ch, lambda: 'partition %d: communication structure %s, expected %s' % (p_, g[5], ch))

        # annotations
        names = ['cfl_time_step', 'element_time_step_group', 'element_partition', 'element_id'] + (['target_length_el'] if ref else [])
        if not ann:
            c.require(not any(os.path.exists('%s_%s.msh' % (base, x)) for x in names), lambda: 'annotations were not asked for: %s' % sorted(os.listdir(d)))
        else:
            v = view(c, base + '_cfl_time_step.msh', ids)
            c.require((np.abs(v - ts) < 1E-9 * ts).all(), lambda: 'annotated time steps: %s instead of %s' % (v, ts))
            v = view(c, base + '_element_time_step_group.msh', ids)
            c.require((v == grp).all(), lambda: 'annotated time groups: %s instead of %s' % (v, grp))
            v = view(c, base + '_element_partition.msh', ids)
            c.require((v == pa).all() if not only else len(set(v)) == parts and (np.diff(v[seq]) >= 0).all(), lambda: 'annotated partitions: %s, written: %s' % (v, pa))
            v = view(c, base + '_element_id.msh', ids)
            c.require((v == pos).all(), lambda: 'annotated ids: %s instead of %s' % (v, pos))
        if ann and bath is not None:
            for k, z in enumerate([bath] + disp):
                v = view(c, base + ('_disp_%d.msh' % (k - 1) if k else '_bath.msh'), ids)
                c.require((np.abs(v - z) <= 1E-5).all(), lambda: 'annotated %s: %s instead of %s' % ('displacement %d' % (k - 1) if k else 'bathymetry', v, z))
        if ref:
            ws = np.array([vs(x) for x in X])
            te, tv = np.zeros(len(els)), np.full(len(X), np.inf)
            for e, v in enumerate(els):
                r = 1. / ((rf[0] + rf[3] * (ws[v].max() / ws[v].min() - 1)) * (rf[1] + rf[2] * X[v, 0].mean()))
                te[e] = r * ws[v].mean()
                tv[v] = np.minimum(tv[v], r * ws[v])
            if ann:
                v = view(c, base + '_target_length_el.msh', ids)
                c.require((np.abs(v - te) < 1E-5 * te).all(), lambda: 'annotated target lengths: %s instead of %s' % (v, te))
            L = open(d + '/bg.msh').read().split('\n')
            i = L.index('$Nodes')
            nv = int(L[i + 1].split()[1])
            xs = {int(a): ids.vertex([float(x) for x in b.split()], 2E-5 * np.abs(X).max()) for a, b in zip(L[i + 3:i + 3 + nv], L[i + 3 + nv:i + 3 + 2 * nv])}
            c.require(nv == len(X) and None not in xs.values() and len(set(xs.values())) == nv, lambda: 'vertices of the background mesh')
            i = L.index('$Elements')
            ne = int(L[i + 1].split()[1])
            got = sorted(tuple(sorted(xs[int(k)] for k in l.split()[1:])) for l in L[i + 3:i + 3 + ne])
            c.require(got == sorted(ids.els), lambda: 'elements of the background mesh')
            i = L.index('$NodeData') + 8
            c.require(int(L[i]) == nv, lambda: 'number of values in the background mesh: %s' % L[i])
            for l in L[i + 1:i + 1 + nv]:
                k, v = l.split()
                c.require(abs(float(v) - tv[xs[int(k)]]) <= 2E-5 * tv[xs[int(k)]], lambda: 'target length of vertex %s: %s instead of %g' % (X[xs[int(k)]], v, tv[xs[int(k)]]))
        c.nontrivial(np_ > 1 and len(set(grp)) > 1)
        c.sample('%s%s, %d elements, %d partitions%s, %d of %d time groups, %s CFL%s%s%s%s' % (EL, ' with gridded data' if bath is not None else '', len(els), parts, ' (ordering only)' if only else '', len(set(grp)), groups, 'centroid' if cen else 'vertex', ', periodic' if per else '', ', annotations' if ann else '', ', refinement' if ref else '', ', searched fundamental step' if fun == 0 else ''))
    finally:
        if not os.environ.get('E2E_KEEP'):
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(pypbt.main())
