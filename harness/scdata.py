"""scdata.py TYPE ORDER OUT: sub-grid of EDGEpre and independently computed operators as C++ source (data of edge::sc::Init)."""
import sys
import numpy as np
import pre
from pre import DIM, NFA, VES, FACE, Phi, quad, affine, grid, VOL

t, d, out = sys.argv[1], int(sys.argv[2]) - 1, sys.argv[3]
g = grid(t, d)
D, ns = DIM[t], 2 * d + 1
nsf, nsc, nf = ns**(D - 1), ns**D, NFA[t]
X = np.array(g['svs'], dtype=float)
cat = lambda k, n: [list(x) for i in range(n) for x in g[k][i]]
sv, adj, ty, da = cat('sv', 3), cat('adj', 3), cat('ty', 2), [list(x) for x in pre.mod('sc.grid.' + pre.NAME[t]).scDgAd(d)]
P, W = quad(t, d + 2)
avg = lambda q: (Phi(t, d, P @ affine(t, X[sv[q]])[1] + affine(t, X[sv[q]])[0]) * W).sum(axis=1) / W.sum()
S = np.array([avg(q) for q in range(nsc)]).T
n = len(S)
# least squares with the mean as constraint: columns of the identity as sub-cell values
e = np.full(nsc, 1. / nsc)
K = np.zeros((n + 1, n + 1))
K[:n, :n] = 2 * S @ S.T
K[:n, n] = K[n, :n] = S @ e
G = np.linalg.solve(K, np.vstack([2 * S, e]))[:n].T
sc = {f: np.array([avg(adj[nsc + f * nsf + q][0]) for q in range(nsf)]).T for f in range(nf)}
SS = [sc[f] for f in range(nf)] + [sc[f][:, da[v]] for v in range(len(da)) for f in range(nf)]
B = Phi(t, d, P)
mi = np.linalg.inv((B * W) @ B.T)
E = []
for f in range(nf):
    r = []
    if t == 'line':
        r = [Phi(t, d, np.array([[float(f)]]))[:, 0]]
    else:
        Y, V = quad(FACE[t], d + 2)
        for q in range(nsf):
            p = np.array([X[z] for z in sv[nsc + f * nsf + q] if z >= 0])
            pts = p[0] + np.outer(Y[:, 0], p[1] - p[0]) + (np.outer(Y[:, 1], p[2] - p[0]) if D == 3 else 0)
            r.append((Phi(t, d, pts) * V).sum(axis=1) / nsf)
    E.append(np.array(r) @ mi)
I, F = 'unsigned short', 'double'
o = '#include <cstddef>\nnamespace edge { namespace pre { namespace sc {\n'
for nm, ct, v in (('scsv', I, sv), ('scsfsc', I, adj), ('sctysf', I, ty), ('scdgad', I, da), ('svcrds', F, X), ('scatter', F, S), ('scattersurf', F, SS), ('gather', F, G), ('sfint', F, E)):
    a = [x for x in np.array(v).ravel().tolist()]
    a = [('65535' if x < 0 else str(int(x))) if ct == I else repr(float(x)) for x in a]
    o += 'extern %s const * g_%sRaw; extern std::size_t const g_%sSize; static %s const l_%s[] = { %s };\n%s const * g_%sRaw = l_%s; std::size_t const g_%sSize = %d;\n' % (ct, nm, nm, ct, nm, ','.join(a), ct, nm, nm, nm, len(a))
open(out, 'w').write(o + '} } }\n')
