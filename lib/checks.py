"""Which harness units decide which property."""
import os
import subprocess
import builder as B

EV_CORE = ['io/Gmsh.cpp', 'mesh/Mesh.cpp', 'geom/Geom.cpp', 'geom/Generic.cpp', 'geom/Line.cpp', 'geom/Tria3.cpp', 'geom/Quad4r.cpp', 'geom/Tet4.cpp', 'geom/Hex8r.cpp']

BASIS = ['dg/Basis.cpp', B.REPO + '/submodules/FastGL/fastgl.cpp']

PROPS = {}


def prop(f):
    PROPS[f.__name__] = f
    return f


EV_LTS = EV_CORE + ['mesh/Partition.cpp', 'mesh/Communication.cpp', 'time/Cfl.cpp', 'time/Groups.cpp', 'models/Model.cpp']


def ev_mesh(only):
    return dict(B.edge_v('ev_mesh', 'ev_mesh.cpp', EV_CORE), only=only)


def ev_lts(only):
    u = B.edge_v('ev_lts', 'ev_lts.cpp', EV_LTS)
    u['ldflags'] = u['ldflags'] + ['-Wl,--wrap=METIS_PartGraphKway']
    return dict(u, only=only)


@prop
def V01(tmp, env):
    return dict(units=[ev_mesh('topology,periodic,sortlex')])


@prop
def V02(tmp, env):
    return dict(units=[ev_mesh('geometry')])


@prop
def V03(tmp, env):
    return dict(units=[ev_lts('cfl,groups')])


@prop
def V04(tmp, env):
    return dict(units=[ev_lts('priorities,pipeline')])


@prop
def V05(tmp, env):
    return dict(units=[ev_lts('communication,pipeline')])


@prop
def V06(tmp, env):
    return dict(units=[B.edge_v('ev_io', 'ev_io.cpp', ['io/Hdf5.cpp', 'io/Csv.cpp', 'io/BgMeshMsh4.cpp', 'io/Grid.cpp', 'io/Config.cpp', 'models/Model.cpp', 'models/Constant.cpp'])])


@prop
def C01(tmp, env):
    u = B.edge_cut('cut', 'cut.cpp', ['mesh/Extrude.cpp'])
    u['env'] = {'EDGE_CUT_EXE': B.BUILD + '/bin/edge_cut_tool'}
    return dict(units=[u, B.edge_cut_tool()])


@prop
def E01(tmp, env):
    return dict(units=[B.edge('geom', 'geom.cpp', [], el='tet4', order=2)])


@prop
def E02(tmp, env):
    return dict(units=[dict(B.edge('linalg', 'linalg.cpp', [], el='tet4', order=2), only='detinv,matmul,sparse,fillin')])


@prop
def E03(tmp, env):
    return dict(units=[dict(B.edge('linalg', 'linalg.cpp', [], el='tet4', order=2), only='series')])


@prop
def E04(tmp, env):
    cfg = [('tet4', 4), ('tria3', 5), ('quad4r', 4), ('hex8r', 3), ('line', 6)]
    us = [B.edge('basis_' + el, 'basis.cpp', BASIS, el=el, order=o) for el, o in cfg]
    for u in us[1:]:
        u['only'] = 'projection,quadeval'
    return dict(units=us)


@prop
def E07(tmp, env):
    return dict(units=[B.edge('seis', 'seis.cpp', ['impl/seismic/setups/Elasticity.cpp', 'impl/seismic/setups/ViscoElasticity.cpp'], el='tet4', order=4)])


EL_SRC = ['impl/seismic/setups/Elasticity.cpp', 'impl/seismic/setups/ViscoElasticity.cpp', 'data/Dynamic.cpp', 'dg/Basis.cpp', B.REPO + '/submodules/FastGL/fastgl.cpp']


@prop
def E09(tmp, env):
    cfg = [('tet4', 3, 64, 1, 0), ('tet4', 2, 64, 2, 2), ('tria3', 4, 64, 3, 3), ('tria3', 3, 64, 1, 0), ('quad4r', 3, 64, 2, 0), ('hex8r', 2, 64, 2, 0), ('tet4', 4, 32, 1, 0)]
    us = []
    for el, o, p, c, r in cfg:
        us.append(B.edge('adg_%s_o%d_f%d_c%d_r%d' % (el, o, p, c, r), 'adg_seis.cpp', EL_SRC, el=el, order=o, prec=p, cfr=c, rm=r))
        if r > 0:
            us[-1]['only'] = 'scheme,decayRest'
        elif el == 'hex8r':
            us[-1]['only'] = 'scheme'
    # kernels using LIBXSMM (stand-in with the documented semantics)
    for k, el, o, p, c, r in [('XSMM', 'tet4', 3, 64, 4, 0), ('XSMM', 'tria3', 3, 64, 2, 2), ('XSMM_DENSE_SINGLE', 'tet4', 3, 64, 1, 0), ('XSMM_DENSE_SINGLE', 'tria3', 3, 64, 1, 2), ('XSMM', 'hex8r', 2, 32, 2, 0)]:
        us.append(B.edge('adg_%s_%s_o%d_f%d_c%d_r%d' % (k.lower(), el, o, p, c, r), 'adg_seis.cpp', EL_SRC, el=el, order=o, prec=p, cfr=c, rm=r, kern=k))
        us[-1]['only'] = 'scheme,decayRest'
    return dict(units=us)


@prop
def E11(tmp, env):
    cfg = [('line', 3, 32, 1), ('line', 5, 64, 3), ('tria3', 3, 64, 2), ('quad4r', 3, 64, 1), ('tet4', 3, 64, 1), ('hex8r', 2, 64, 2), ('tet4', 1, 64, 1), ('tria3', 1, 64, 1)]
    return dict(units=[B.edge('adv_%s_o%d_f%d_c%d' % (el, o, p, c), 'adg_adv.cpp', ['data/Dynamic.cpp', 'dg/Basis.cpp', B.REPO + '/submodules/FastGL/fastgl.cpp'], eq='advection', el=el, order=o, prec=p, cfr=c) for el, o, p, c in cfg])


@prop
def E10(tmp, env):
    return dict(units=[B.edge('swe', 'swe.cpp', [], eq='swe', el='quad4r', order=1)])


@prop
def E05(tmp, env):
    return dict(units=[B.edge('data', 'data.cpp', ['data/Dynamic.cpp', 'data/EntityLayout.cpp', 'parallel/Distributed.cpp'], el='tet4', order=2)])


@prop
def E12(tmp, env):
    i = [B.VERIF + '/stubs/par', B.VERIF + '/stubs/mpi']
    src = ['time/Manager.cpp', 'time/TimeGroupStatic.cpp', 'parallel/Shared.cpp', 'parallel/LoadBalancing.cpp', 'parallel/Distributed.cpp', 'data/Dynamic.cpp']
    mpi = ['parallel/MpiRemix.cpp']
    m = ['-DPP_USE_MPI']
    u = [B.edge('par_seis_ranks', 'par.cpp', src + mpi, incs=i, defs=m, omp=False),
         B.edge('par_adv_single', 'par.cpp', src, eq='advection', el='quad4r', order=2, incs=i, omp=False),
         B.edge('par_seis_threads', 'par.cpp', src + mpi, incs=i, defs=m, san=False, opt='-O2'),
         B.edge('par_adv_threads', 'par.cpp', src, eq='advection', el='quad4r', order=2, incs=i, san=False, opt='-O2'),
         B.edge('par_swe_threads', 'par.cpp', src, eq='swe', el='quad4r', order=1, incs=i, san=False, opt='-O2')]
    r = dict(budget=100, args=['--workers', '3', '--retries', '12'])
    return dict(units=u[:2] + [dict(x, **r) for x in u[2:]])


@prop
def E08(tmp, env):
    cfg = [('tria3', 3, 64, 2), ('quad4r', 1, 64, 1), ('tet4', 2, 64, 2), ('hex8r', 2, 64, 1), ('tet4', 3, 32, 2)]
    us = [B.edge('rup_%s_o%d_f%d_c%d' % (el, o, p, c), 'rup.cpp', ['data/Dynamic.cpp'], el=el, order=o, prec=p, cfr=c) for el, o, p, c in cfg]
    for u in us[1:]:
        u['only'] = 'net_updates,setup'
    return dict(units=us)


def pre(name, only):
    return dict(name=name, cmd=['/usr/bin/python3', B.VERIF + '/harness/pre.py'], only=only,
                env={'PYTHONPATH': '/opt/vp/py/sympy-1.4', 'MPLBACKEND': 'Agg', 'VERIF_REPO': B.REPO, 'OMP_NUM_THREADS': '1'})


@prop
def V07(tmp, env):
    us = [B.edge_v_tool(), B.h5_tool()]
    for el in ('tria3', 'quad4r', 'tet4', 'hex8r'):
        us.append(dict(name='prep_' + el, cmd=['/usr/bin/python3', B.VERIF + '/harness/e2e.py'], only='prep', args=['--workers', '5'],
                       env={'E2E_BIN': B.BUILD + '/bin', 'E2E_EDGE': 'none', 'E2E_CFG': '%s,1,64,1,0,elastic' % el, 'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0'}))
    return dict(units=us)


@prop
def E15(tmp, env):
    us = [B.edge_v_tool(), B.h5_tool()]
    for eq, el, o, p, c, r in [('elastic', 'tria3', 3, 64, 1, 0), ('elastic', 'tet4', 3, 32, 2, 0), ('elastic', 'hex8r', 2, 64, 4, 2), ('elastic', 'quad4r', 4, 64, 1, 3), ('advection', 'tria3', 4, 64, 2, 0), ('advection', 'tet4', 2, 32, 1, 0)]:
        n = 'e2e_%s_%s_o%d_f%d_c%d_r%d' % (eq, el, o, p, c, r)
        us.append(B.edge_tool(n, eq=eq, el=el, order=o, prec=p, cfr=c, rm=r))
        us.append(dict(name='run_' + n, cmd=['/usr/bin/python3', B.VERIF + '/harness/e2e.py'], only='rest,ranks,conserve' if r else 'polynomial,rest,ranks,conserve', args=['--workers', '5'],
                       env={'E2E_BIN': B.BUILD + '/bin', 'E2E_EDGE': n, 'E2E_CFG': '%s,%d,%d,%d,%d,%s' % (el, o, p, c, r, eq), 'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0'}))
    for el, p, c in [('quad4r', 64, 2), ('tria3', 32, 1)]:
        n = 'e2e_swe_%s_f%d_c%d' % (el, p, c)
        us.append(B.edge_tool(n, eq='swe', el=el, order=1, prec=p, cfr=c, mpi=False))
        us.append(dict(name='run_' + n, cmd=['/usr/bin/python3', B.VERIF + '/harness/e2e.py'], only='swe', args=['--workers', '5'],
                       env={'E2E_BIN': B.BUILD + '/bin', 'E2E_EDGE': n, 'E2E_CFG': '%s,1,%d,%d,0,swe' % (el, p, c), 'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0'}))
    return dict(units=us)


@prop
def P01(tmp, env):
    return dict(units=[pre('pre_dg', 'basis,integrals,flux')])


@prop
def P02(tmp, env):
    return dict(units=[pre('pre_sc', 'subgrid,project,maps')])


@prop
def P03(tmp, env):
    return dict(units=[pre('pre_driver', 'convert,driver')])


@prop
def E06(tmp, env):
    us = []
    for el, o, p, c in [('tria3', 2, 64, 2), ('tria3', 3, 32, 3), ('quad4r', 3, 64, 1), ('tet4', 2, 64, 2), ('tet4', 3, 64, 1), ('hex8r', 2, 64, 2)]:
        out = os.path.join(B.BUILD, 'scdata_%s_%d.cpp' % (el, o))
        os.makedirs(B.BUILD, exist_ok=True)
        r = subprocess.run(['/usr/bin/python3', B.VERIF + '/harness/scdata.py', el, str(o), out], env=dict(env, PYTHONPATH='/opt/vp/py/sympy-1.4', MPLBACKEND='Agg', VERIF_REPO=B.REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise B.BuildError('sub-grid of %s: %s' % (el, r.stdout[-800:]))
        us.append(B.edge('sub_%s_o%d_f%d_c%d' % (el, o, p, c), 'sub.cpp', ['data/Dynamic.cpp', out], el=el, order=o, prec=p, cfr=c))
    return dict(units=us)


@prop
def E14(tmp, env):
    cfg = [('tet4', 3, 64, 2, 0), ('tria3', 2, 32, 3, 0), ('hex8r', 2, 64, 2, 0), ('quad4r', 3, 64, 1, 0), ('tet4', 2, 64, 1, 2)]
    return dict(units=[B.edge('pts_%s_o%d_f%d_c%d_r%d' % (el, o, p, c, r), 'pts.cpp', ['data/Dynamic.cpp', 'dg/Basis.cpp', 'parallel/Distributed.cpp', B.REPO + '/submodules/FastGL/fastgl.cpp'], el=el, order=o, prec=p, cfr=c, rm=r) for el, o, p, c, r in cfg])


@prop
def E13(tmp, env):
    src = ['io/Config.cpp', 'io/Receivers.cpp', 'io/OptionParser.cpp', 'io/WaveField.cpp', 'io/Vtk.cpp', 'io/ErrorNorms.cpp', 'data/Dynamic.cpp', 'dg/Basis.cpp', 'parallel/Distributed.cpp', B.REPO + '/submodules/FastGL/fastgl.cpp', B.REPO + '/submodules/visit_writer/visit_writer.cpp']
    us = []
    for eq, el, o, p, c, r in [('elastic', 'tet4', 2, 64, 2, 0), ('elastic', 'tria3', 3, 64, 3, 2), ('elastic', 'hex8r', 2, 32, 2, 0), ('elastic', 'quad4r', 3, 32, 1, 0), ('advection', 'line', 3, 64, 2, 0), ('swe', 'quad4r', 1, 64, 1, 0)]:
        us.append(B.edge('io_%s_%s_o%d_f%d_c%d_r%d' % (eq, el, o, p, c, r), 'io.cpp', src + (['impl/seismic/io/Config.cpp'] if eq == 'elastic' else []), eq=eq, el=el, order=o, prec=p, cfr=c, rm=r))
        if len(us) > 1:
            us[-1]['only'] = 'wave_field,error_norms,config' if el == 'line' else 'receivers,wave_field,error_norms,config,seismic_config'
    for el, o, c, r in [('tria3', 3, 2, 2), ('tet4', 3, 1, 0)]:  # the solver hands the prediction at the sampling time to the receivers
        us.append(B.edge('io_adg_%s_o%d_c%d_r%d' % (el, o, c, r), 'adg_seis.cpp', EL_SRC, el=el, order=o, prec=64, cfr=c, rm=r))
        us[-1]['only'] = 'scheme'
    return dict(units=us)
