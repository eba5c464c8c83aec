"""Definitions of the properties; `python3 lib/props.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, note, tech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, tech=tech))


EV = 'tools/edge_v/src/'

p('V01', 'EDGE-V derives a consistent, complete mesh topology',
  "For every conforming triangle, quadrilateral, tetrahedral or hexahedral mesh, EDGE-V's vertices, faces and elements and their adjacencies agree with the mesh that was read: every face of the mesh appears exactly once, has one or two adjacent elements, face-vertex, element-face and face-neighbor relations are mutually consistent, sparse types of marked entities are kept, and no entity is invented or lost. With periodic boundaries every boundary face is joined with exactly the face opposite to it, and the local face/vertex orientation reported for neighbors maps matching vertices onto each other. Entities are ordered as documented (lexicographically by their vertices).",
  ['inputs', 'configurations'], 'all conforming meshes of the supported element types, with any numbering of vertices and elements, any boundary markers, periodic or not',
  'The tests use a few fixed meshes; numbering, orientation and boundary combinations are unbounded.',
  [EV + 'mesh/Mesh.cpp', EV + 'mesh/Mesh.h', EV + 'io/Gmsh.cpp', EV + 'geom/Generic.cpp'],
  [('Mesh constructor, getFa*/getElFa/getElFaEl, periodic matching, normOrder', EV + 'mesh/Mesh.cpp'), ('mesh input', EV + 'io/Gmsh.cpp')],
  'randomly generated meshes (types, sizes, numbering, holes, markers, periodicity) against a naive topology derived from the generator', 'PBT: random meshes vs. naive reference topology')
p('V02', 'EDGE-V geometry: areas, volumes, in-diameters, normals and tangents are right',
  "For every non-degenerate mesh, EDGE-V reports the exact length/area/volume of every face and element, its centroid, its in-circle or in-sphere diameter, and for every face an orthonormal frame whose normal points from the left to the right adjacent element (outward at the boundary). The sum of normal times area over the faces of an element vanishes.",
  ['inputs'], 'all non-degenerate elements in any position, orientation, scale and vertex order',
  'Tests compare a handful of hard-coded elements.',
  [EV + 'geom/Geom.cpp', EV + 'geom/Line.cpp', EV + 'geom/Tria3.cpp', EV + 'geom/Quad4r.cpp', EV + 'geom/Tet4.cpp', EV + 'geom/Hex8r.cpp', EV + 'geom/Generic.cpp', EV + 'mesh/Mesh.cpp'],
  [('volumes, inDiameter, normal, tangents, normVesFas', EV + 'geom')],
  'random meshes and elements against independent geometry formulas and metamorphic relations', 'PBT: random elements vs. independent geometry')
p('V03', 'EDGE-V time steps and time groups satisfy the CFL and neighbor rules',
  "Every element's time step is proportional to its in-diameter divided by its wave speed (the element's maximum speed, or the mean of the maximum speeds at its vertices), normalized by the global minimum. Every element is assigned to the largest time group whose step does not exceed its own step, lowered only as far as needed so that face neighbors differ by at most one group, and no element ever uses a larger step than its own CFL bound. The reported time step statistics, group sizes, loads and speed-ups follow from the assignment, and invalid rates are rejected.",
  ['inputs', 'configurations'], 'all meshes, velocity fields, group rates and fundamental time steps',
  'Tests check one small mesh per function; the fix-point of the neighbor rule depends on the whole mesh.',
  [EV + 'time/Cfl.cpp', EV + 'time/Groups.cpp'],
  [('Cfl::setTimeSteps', EV + 'time/Cfl.cpp'), ('Groups::setElTg, normalizeElTgs, getLoads', EV + 'time/Groups.cpp')],
  'random face graphs, steps and rates against a naive fix-point computed independently', 'PBT: random graphs vs. naive fix-point model')
p('V04', 'EDGE-V partitioning and reordering is a load-aware, lossless renumbering',
  "Partitioning assigns every element to exactly one partition, and the dual graph handed to the partitioner carries for every element the work of its time group and for every face the communication of its two sides. The reordering is a permutation which stores the elements of a partition contiguously, inside a partition inner elements before elements with neighbors in other partitions, and each of these sorted by time group; re-reading the reordered mesh gives the same mesh.",
  ['inputs', 'configurations'], 'all meshes, time group assignments and numbers of partitions',
  'Tests run the partitioner for single configurations without checking the graph it is given.',
  [EV + 'mesh/Partition.cpp', EV + 'mesh/Partition.h', EV + 'io/Gmsh.cpp'],
  [('Partition::kWay, getElPr, getWeights', EV + 'mesh/Partition.cpp'), ('Gmsh::reorder', EV + 'io/Gmsh.cpp')],
  'random meshes through the full pipeline with the partitioner call intercepted; priorities on random graphs', 'PBT: pipeline on random meshes with intercepted partitioner')
p('V05', 'EDGE-V communication structure: both sides of every channel agree',
  "For every partitioned and time-grouped mesh, the communication structure lists for every partition exactly the faces whose two elements lie in different partitions, grouped into channels by (local time group, remote partition, remote time group). The send list of one partition and the receive list of its neighbor describe the same faces in the same order, with matching local face ids, so that data sent for a face is received for that same face.",
  ['inputs', 'configurations'], 'all face graphs, partitions and time groups',
  'Tests check three-partition toy examples.',
  [EV + 'mesh/Communication.cpp', EV + 'mesh/Communication.h'],
  [('Communication constructor, getStruct, setSeReElFaOff', EV + 'mesh/Communication.cpp')],
  'random sorted face graphs and full-pipeline meshes; both sides of every channel are matched face by face', 'PBT: random partitioned graphs, cross-partition matching oracle')
p('V06', "EDGE-V's files round-trip",
  "Whatever EDGE-V writes can be read back unchanged: HDF5 data sets of all value types keep count, values and groups across reopening; CSV tables keep columns, rows and values to the requested precision; background meshes keep connectivity, coordinates and target lengths. Every setting of the XML configuration reaches the program as written, absent settings take their defaults. Grid lookups return the value of the grid node bounding the point from above in both directions, and element averages are the mean of the vertex values.",
  ['inputs', 'histories'], 'all value sequences, all orders of creating, writing, reopening and reading, all configurations',
  'Tests write and read one short array per type and never parse a configuration.',
  [EV + 'io/Hdf5.cpp', EV + 'io/Csv.cpp', EV + 'io/BgMeshMsh4.cpp', EV + 'io/Grid.cpp', EV + 'io/Config.cpp', EV + 'models/Model.cpp'],
  [('Hdf5::set/get/nVas/exists', EV + 'io/Hdf5.cpp'), ('Config', EV + 'io/Config.cpp')],
  'stateful histories of container operations against a map model; random tables, meshes and configurations parsed back', 'PBT: stateful round-trip against a map model')
p('V07', 'EDGE-V writes what it computed, for every mesh and configuration',
  "Running EDGE-V on a mesh with a configuration writes, for every partition, the elements of that partition (every element of the mesh in exactly one file, in the order of time groups with inner elements first), and next to it the time groups' relative time steps, the sizes of the groups, the send and receive faces, the channels, and the partition's own share of all gridded bathymetry and displacement data. Time steps are the in-sphere diameter over the wave speed at the vertices or the centroid relative to the smallest one; groups and a searched fundamental step follow from them. Annotated meshes, the time step table and the refinement's background mesh hold these values for the right elements and vertices, and exist exactly if they were asked for.",
  ['inputs', 'configurations'], 'all meshes, numbers of partitions and time groups, velocity models and output options',
  'No test runs the driver; unit tests cover the parts one by one with single partitions and constant models.',
  [EV + 'main.cpp', EV + 'time/Cfl.cpp', EV + 'time/Groups.cpp', EV + 'mesh/Mesh.cpp', EV + 'mesh/Partition.cpp', EV + 'mesh/Communication.cpp', EV + 'mesh/Refinement.cpp', EV + 'models/GridExpression.cpp', EV + 'io/Gmsh.cpp'],
  [('main', EV + 'main.cpp'), ('Groups', EV + 'time/Groups.cpp'), ('Cfl', EV + 'time/Cfl.cpp')],
  'random meshes and configurations through the program; everything in its files is recomputed by an independent model', 'PBT: random configurations of the whole program against an independent model of its output')
p('C01', 'EDGEcut extrudes a topography grid to a closed, outward oriented surface',
  "For every rectilinear topography grid, in any point order, any number of coarsening levels the grid admits and any target depth below the grid, the six panels EDGEcut writes form one closed surface: every edge is shared by exactly two triangles with opposite directions, normals point outward, the top panel covers the grid once and holds its points unaltered, and the bottom lies at the target depth. The counts in each file match its content, and vertical steps do not exceed the smallest spacing of the coarsened grid.",
  ['inputs', 'configurations'], 'all rectilinear grids (non-uniform spacing, map coordinates), orders, levels and depths',
  'The test compares two fixed 4x3 and one coarsened example.',
  ['tools/edge_cut/src/mesh/Extrude.cpp', 'tools/edge_cut/src/main.cpp', 'tools/edge_cut/src/io/Config.cpp'],
  [('Extrude constructor, writeOff, writeTriaOff', 'tools/edge_cut/src/mesh/Extrude.cpp')],
  'random grids through the library and the tool; closedness, orientation, coverage and spacing judged on the written files', 'PBT: random grids, watertightness invariant on written OFF files')

import props_core  # noqa: E402  (EDGE and EDGEpre)
props_core.register(p)


NOT_APPLICABLE = props_core.NOT_APPLICABLE


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'],
                                'quantifier': {'over': q['over'], 'text': q['qtext']},
                                'why_tests_cant': q['why'],
                                'anchors': {'files': q['files'], 'mechanism': [{'name': a, 'where': b} for a, b in q['mech']]}}) + '\n')
    na = {x['property'] for x in NOT_APPLICABLE}
    man = {'version': 1, 'setup_cmd': 'python3 lib/setup.py',
           'checks': [{'property': q['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % q['id'],
                       'thorough_cmd': 'python3 run.py %s --tier thorough' % q['id'],
                       'evidence_file': 'evidence/%s.json' % q['id'],
                       'technique': q['tech'], 'level': 'exploration',
                       'level_note': q['note']} for q in P if q['id'] not in na],
           'not_applicable': NOT_APPLICABLE,
           'notes': 'No hooks: the checks use the public interfaces and the source files of /repo as they are. Every check builds its harnesses from /repo in /verif/build (ignored by git).'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
