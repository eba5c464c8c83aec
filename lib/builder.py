"""Builds harnesses against /repo's working tree. Objects are reused only if the compile command and the
content of every file the compiler read are unchanged."""
import hashlib, json, os, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
OBJ = os.path.join(BUILD, 'obj')

HDF5 = '/usr/lib/x86_64-linux-gnu/hdf5/serial/'
SYS = ['-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/hdf5/serial']
DEFS = ['-DPP_USE_OMP', '-DPP_USE_EASYLOGGING', '-DEIGEN_MAX_STATIC_ALIGN_BYTES=0', '-DPP_EDGE_VERSION="offline"']
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment,vptr,float-divide-by-zero,enum,bool']


class BuildError(Exception):
    pass


def _fhash(path, cache={}):
    try:
        st = os.stat(path)
    except OSError:
        return 'missing'
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in cache:
        with open(path, 'rb') as f:
            cache[key] = hashlib.sha256(f.read()).hexdigest()
    return cache[key]


def _deps(dfile):
    txt = open(dfile).read().replace('\\\n', ' ')
    return [d for d in txt.split(':', 1)[1].split() if d]


def compile_one(src, flags):
    cmd = ['g++'] + flags + ['-c', src]
    key = hashlib.sha256('\0'.join(cmd).encode()).hexdigest()[:24]
    os.makedirs(OBJ, exist_ok=True)
    obj = os.path.join(OBJ, key + '.o')
    meta = os.path.join(OBJ, key + '.json')
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(_fhash(p) == h for p, h in deps.items()):
                return obj
        except Exception:
            pass
    tmp = obj + '.%d.%d' % (os.getpid(), threading.get_ident())
    p = subprocess.run(cmd + ['-MMD', '-MF', tmp + '.d', '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('compile failed: %s\n%s' % (src, "\n".join([l for l in p.stdout.splitlines() if "error" in l or "undefined" in l][:12])[:3000]))
    deps = {d: _fhash(d) for d in _deps(tmp + '.d')}
    os.replace(tmp, obj)
    with open(tmp + '.j', 'w') as f:
        json.dump(deps, f)
    os.replace(tmp + '.j', meta)
    os.unlink(tmp + '.d')
    return obj


def build(units):
    """units: list of dicts with name, jobs [(src, flags)], libs, san; returns {name: exe}"""
    jobs, order = {}, []
    for u in units:
        for src, flags in u['jobs']:
            k = (src, tuple(flags))
            if k not in jobs:
                jobs[k] = None
                order.append(k)
    with ThreadPoolExecutor(8) as ex:
        futs = {k: ex.submit(compile_one, k[0], list(k[1])) for k in order}
        err = None
        for k, f in futs.items():
            try:
                jobs[k] = f.result()
            except BuildError as e:
                err = err or e
        if err:
            raise err

        def link(u):
            exe = os.path.join(BUILD, 'bin', u['name'])
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            objs = [jobs[(s, tuple(f))] for s, f in u['jobs']]
            tmp = exe + '.%d' % os.getpid()
            cmd = ['g++', '-o', tmp] + objs + u['ldflags'] + u['libs']
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise BuildError('link failed: %s\n%s' % (u['name'], "\n".join([l for l in p.stdout.splitlines() if "error" in l or "undefined" in l][:12])[:3000]))
            os.replace(tmp, exe)
            return exe
        return {u['name']: e for u, e in zip(units, ex.map(link, units))}


def _common(san, opt='-O1'):
    f = ['-std=c++14', '-w', opt, '-ftrivial-auto-var-init=pattern', '-fopenmp', '-I' + VERIF + '/lib', '-DELPP_NO_DEFAULT_LOG_FILE', '-DELPP_THREAD_SAFE', '-DELPP_DISABLE_DEFAULT_CRASH_HANDLING']
    ld = ['-fopenmp']
    if san:
        f += ASAN
        ld += ASAN
    return f, ld


def _base_jobs(f):
    return [('/usr/include/easylogging++.cc', f + ['-xc++']),
            (VERIF + '/lib/pbt_main.cpp', f)]


def edge_v(name, src, repo, san=True, defs=(), incs=()):
    f, ld = _common(san)
    v = REPO + '/tools/edge_v'
    g = f + list(defs) + DEFS + ['-DPP_USE_METIS'] + ['-I' + i for i in incs] + ['-I' + v, '-I' + v + '/src'] + SYS
    jobs = _base_jobs(f) + [(VERIF + '/harness/' + src, g)]
    for r in repo:
        p = r if r.startswith('/') else v + '/src/' + r
        jobs.append((p, g + (['-DPUGIXML_SOURCE'] if r.endswith('Config.cpp') else [])))
    return dict(name=name, jobs=jobs, ldflags=ld,
                libs=['-lpugixml', '-lgmsh', '-lmetis', HDF5 + 'libhdf5_hl.so', HDF5 + 'libhdf5.so', '-lpthread', '-ldl'])


def edge_cut(name, src, repo, san=True, defs=()):
    f, ld = _common(san)
    v = REPO + '/tools/edge_cut'
    g = f + list(defs) + ['-DPP_USE_EASYLOGGING', '-DPP_EDGE_VERSION="offline"', '-I' + v, '-I' + v + '/src', '-I/opt/vp/deps/include']
    jobs = _base_jobs(f) + [(VERIF + '/harness/' + src, g)]
    jobs += [(v + '/src/' + r, g) for r in repo]
    return dict(name=name, jobs=jobs, ldflags=ld, libs=['-lpugixml', '-lpthread', '-ldl'])


def edge_cut_tool(name='edge_cut_tool'):
    f, ld = _common(True)
    v = REPO + '/tools/edge_cut'
    g = f + ['-DPP_USE_EASYLOGGING', '-DPP_EDGE_VERSION="offline"', '-I' + v, '-I' + v + '/src', '-I/opt/vp/deps/include']
    jobs = [_base_jobs(f)[0]] + [(v + '/src/' + r, g) for r in ('main.cpp', 'io/Config.cpp', 'io/OptionParser.cpp', 'mesh/Extrude.cpp')]
    return dict(name=name, jobs=jobs, ldflags=ld, libs=['-lpugixml', '-lpthread', '-ldl'], norun=True)


def edge(name, src, repo, eq='elastic', el='tet4', order=4, prec=64, cfr=1, san=True, defs=(), incs=(), extra=(), rm=0, opt='-O1', omp=True, kern='VANILLA'):
    """src: harness (under /verif/harness); repo: paths under /repo/src or absolute; extra: absolute sources"""
    f, ld = _common(san, opt)
    g = f + list(defs) + DEFS + ['-DPP_HAS_HDF5', '-DPP_N_CRUNS=%d' % cfr, '-DPP_ORDER=%d' % order, '-DPP_PRECISION=%d' % prec,
                                 '-DPP_T_ELEMENTS_' + el.upper(), '-DPP_T_KERNELS_' + kern]
    if eq == 'elastic':
        g += ['-DPP_T_EQUATIONS_SEISMIC', '-DPP_N_RELAXATION_MECHANISMS=%d' % rm]
    else:
        g += ['-DPP_T_EQUATIONS_' + eq.upper()]
    if not omp:
        g = [x for x in g if x not in ('-fopenmp', '-DPP_USE_OMP')]
    g += ['-I' + i for i in incs] + ['-I' + REPO, '-I' + REPO + '/src', '-I/opt/vp/deps/include', '-I' + VERIF + '/stubs', '-I' + VERIF + '/stubs/libxsmm'] + SYS
    jobs = _base_jobs(f) + [(VERIF + '/harness/' + src, g)]
    jobs += [(r if r.startswith('/') else REPO + '/src/' + r, g) for r in ['parallel/global.cpp'] + list(repo) + list(extra)]
    return dict(name=name, jobs=jobs, ldflags=ld, libs=['-lpugixml', HDF5 + 'libhdf5_hl.so', HDF5 + 'libhdf5.so', '-lpthread', '-ldl'])


EV_LIB = ['geom/Generic.cpp', 'geom/Geom.cpp', 'geom/Hex8r.cpp', 'geom/Line.cpp', 'geom/Quad4r.cpp', 'geom/Tet4.cpp', 'geom/Tria3.cpp', 'io/Gmsh.cpp', 'io/Hdf5.cpp', 'mesh/Mesh.cpp', 'models/Constant.cpp', 'models/Model.cpp', 'time/Cfl.cpp', 'time/Groups.cpp']


def _ev_jobs(f, srcs):
    v = REPO + '/tools/edge_v'
    g = f + DEFS + ['-DPP_USE_METIS', '-I' + VERIF + '/stubs', '-I' + v, '-I' + v + '/src'] + SYS
    return [(v + '/src/' + r, g + (['-DPUGIXML_SOURCE'] if r.endswith('Config.cpp') else [])) for r in srcs]


def edge_v_tool(name='edge_v_tool', san=True):
    """EDGE-V itself"""
    f, ld = _common(san)
    jobs = [_base_jobs(f)[0], (VERIF + '/harness/e2e_gmsh.cpp', f)] + _ev_jobs(f, EV_LIB + ['main.cpp', 'io/Config.cpp', 'io/Csv.cpp', 'io/BgMeshMsh4.cpp', 'io/Grid.cpp', 'io/ExprTk.cpp', 'mesh/Refinement.cpp', 'mesh/Partition.cpp', 'mesh/Communication.cpp', 'models/GridExpression.cpp', 'models/seismic/Expression.cpp'])
    return dict(name=name, jobs=jobs, ldflags=ld, norun=True,
                libs=['-lpugixml', '-lgmsh', '-lmetis', HDF5 + 'libhdf5_hl.so', HDF5 + 'libhdf5.so', '-lpthread', '-ldl'])


def h5_tool(name='e2e_h5'):
    return dict(name=name, jobs=[(VERIF + '/harness/e2e_h5.cpp', ['-std=c++14', '-O1'] + SYS)], ldflags=[], norun=True, libs=[HDF5 + 'libhdf5.so'])


def edge_tool(name, eq='elastic', el='tet4', order=3, prec=64, cfr=1, rm=0, san=True, mpi=True):
    """EDGE itself"""
    src = ['main.cpp', 'data/Dynamic.cpp', 'data/EntityLayout.cpp', 'data/Expression.cpp', 'mesh/EdgeV.cpp', 'dg/Basis.cpp', 'io/OptionParser.cpp', 'io/logging.cpp', 'io/Config.cpp', 'io/Vtk.cpp', 'io/WaveField.cpp', 'io/ErrorNorms.cpp', 'io/Receivers.cpp',
           'parallel/Shared.cpp', 'parallel/LoadBalancing.cpp', 'parallel/Distributed.cpp', 'setups/Cpu.cpp', 'time/Manager.cpp', 'time/TimeGroupStatic.cpp']
    if eq == 'elastic':
        src += ['impl/seismic/io/Config.cpp', 'impl/seismic/setups/Elasticity.cpp', 'impl/seismic/setups/ViscoElasticity.cpp']
    if mpi:
        src.append('parallel/MpiRemix.cpp')
    u = edge(name, 'e2e_mpi.cpp', src + [REPO + '/submodules/FastGL/fastgl.cpp', REPO + '/submodules/visit_writer/visit_writer.cpp'], eq=eq, el=el, order=order, prec=prec, cfr=cfr, rm=rm, san=san,
             defs=['-DPP_USE_MPI'] if mpi else [], incs=[VERIF + '/stubs/mpi', VERIF + '/stubs/edge_v_inc'])
    f, _ = _common(san)
    u['jobs'].append((VERIF + '/harness/dgdata.cpp', [j[1] for j in u['jobs'] if j[0].endswith('e2e_mpi.cpp')][0]))
    u['jobs'] = [j for j in u['jobs'] if not j[0].endswith('/pbt_main.cpp')] + _ev_jobs(f, EV_LIB)
    u['libs'] = ['-lgmsh'] + u['libs']
    u['norun'] = True
    return u
