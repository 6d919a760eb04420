#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SESS = "all domains (shape, orientation, holes, markers, size function, fixed points, placement) and all call sequences of a meshing session"
def P(i, title, stmt, over, text, why, files, mech, obs, tech=None, note=None):
    return dict(i=i, title=title, stmt=stmt, over=over, text=text, why=why, files=files, mech=mech, obs=obs, tech=tech, note=note)
A = "src/algorithm/"
TR = "TLA+: sessions generated from Session.tla by TLC, replayed into the library, recorded traces validated by TLC against MeshCore/MeshOps (MeshTrace.tla)"
TRN = ("Bounded: every replayed session (sampled from the protocol model, seeded) is decided completely against the specification; nothing is claimed for sessions that were not "
       "replayed. Trusts the harness projection (exact coordinate interning, quad-precision signs) and TLC.")
DT = "TLA+: definition histories generated from Dom.tla by TLC simulation plus all lattice quadrilaterals (exhaustive), replayed into Domain/Boundary, every observed state validated by TLC against exact integer geometry (DomTrace.tla, Poly.tla)"
DTN = "Bounded: exhaustive for quadrilaterals on a 3x3 lattice, sampled for longer histories; trusts the harness projection to lattice coordinates and TLC."
PROPS = [
P("C01", "A mesh is a conforming set of positively oriented, non-overlapping elements",
  "After every meshing call, all elements of a mesh are simple counter-clockwise triangles or quads over distinct vertices inside the domain, two elements meet only along complete common sides, no side is used by two elements in the same direction, and the mesh's interior edges are exactly the element sides that are not boundary edges. When the elements reach every boundary edge without leaving open sides, they cover the domain exactly once, without overlaps, hanging nodes or unused vertices.",
  ["inputs", "histories"], SESS,
  "The tests mesh a handful of domains and compare element counts or areas; validity of every element and edge after every operation for arbitrary domains and call orders is never examined.",
  [A+"Triangulation.h", A+"FrontUpdate.h", A+"QuadLayering.h", A+"Front.h", A+"Mesh.h", A+"MeshCleanup.h", A+"Triangle.h", A+"Quad.h", A+"FacetGeometry.h", "src/utils/Geometry.h"],
  [("validity checks of candidate triangles", A+"FrontUpdate.h triangle_is_valid"), ("advancing front update", A+"FrontUpdate.h advance_front")],
  ["vertices, elements, interior and boundary edges of every mesh after every call"], TR, TRN),
P("C02", "The mesh boundary subdivides the declared boundary and keeps its markers",
  "The boundary edges of a mesh always form, for every declared boundary edge, one connected path from its first to its last point along that straight edge, oriented with the domain on the left, and each carries the marker the user declared for that edge (unless the edge is shared with a neighbouring mesh). No call except quad-layer generation and refinement changes the boundary edges, and these two only subdivide it further.",
  ["inputs", "histories"], SESS,
  "Tests check total edge counts for a few boundaries given in one orientation; markers per subdivided edge for every shape, orientation and operation sequence are not checked.",
  [A+"Front.h", A+"FrontInitData.h", A+"Boundary.h", A+"MeshBuilder.h", A+"QuadLayering.h", A+"RefinementStrategy.h"],
  [("boundary discretisation along the size function", A+"Front.h create_sub_vertex_coords / create_sub_edges"), ("collection of declared edges and markers", A+"FrontInitData.h")],
  ["boundary edges with markers after every call"], TR, TRN),
P("C03", "Triangulation reports success truthfully, honours its limit and can be resumed",
  "An unlimited triangulation call returns true exactly when the mesh now fills its domain, which it always does for a domain bounded by a single polygon without fixed points, fixed edges or quad layers; with a limit of n elements it adds at most n elements and, as long as the domain is not filled, returns true exactly when it added n. Triangulation may be interrupted and resumed any number of times, before or after quad layers: elements that exist are kept, the meshed region never shrinks, the boundary stays, and a call on a filled mesh succeeds without changing it.",
  ["inputs", "histories"], SESS,
  "The tests call the triangulation once per mesh on inputs known to succeed; limits, repeated calls, failing inputs and their return values are not compared with what was built.",
  [A+"Triangulation.h", A+"MeshingStrategy.h", A+"FrontUpdate.h", A+"Front.h"],
  [("main and exhaustive search loops", A+"Triangulation.h"), ("re-creation of the front from a partial mesh", A+"MeshingStrategy.h")],
  ["return value, elements before and after each call"], TR, TRN),
P("C04", "Fixed points of the domain are vertices of the mesh",
  "Every fixed point declared in a domain, and every end point of a declared fixed edge, is a vertex of that domain's mesh from its creation on, at exactly the declared position, after every later operation including merging with other meshes, and stays marked as fixed. When the mesh fills its domain, every fixed point is a corner of some element.",
  ["inputs", "histories"], SESS,
  "One test places a few fixed vertices and meshes once; later smoothing, conversion, clean-up and merging, and other positions, are not covered.",
  [A+"Front.h", A+"FrontInitData.h", A+"MeshBuilder.h", A+"MeshCleanup.h", A+"SmoothingStrategy.h", A+"ModificationStrategy.h", A+"Domain.h"],
  [("fixed property of vertices", A+"Vertex.h"), ("creation of mesh vertices from the domain", A+"MeshBuilder.h")],
  ["mesh vertices after every call"], TR, TRN),
P("C05", "Converting triangles to quads re-tiles the same region on the same vertices",
  "Converting triangles into quads adds no vertex, moves none, keeps all boundary and fixed vertices and all boundary edges, and covers, for every element colour, exactly the same region as before with elements of that colour. It never increases the number of triangles or elements, and no two original triangles of equal colour that share a side are left unpaired next to each other.",
  ["inputs", "histories"], SESS,
  "The test converts one mesh and checks that quads exist; colour regions, vertex sets and leftover pairs over arbitrary histories (layers, merges, refinement) are not examined.",
  [A+"ModificationStrategy.h", A+"MeshCleanup.h", A+"Mesh.h"],
  [("merging of triangle pairs along edges", A+"ModificationStrategy.h"), ("clean-up of doubly connected and degenerate elements", A+"MeshCleanup.h")],
  ["mesh before and after the call"], TR, TRN),
P("C06", "Refinement subdivides every element exactly",
  "Refinement keeps every vertex, adds the midpoint of every edge and one interior point per element, and replaces each n-sided element by exactly n quads of the same colour joining corner, side midpoints and interior point, while every boundary edge is replaced by its two halves with the same marker. A mesh that shares edges with another mesh refuses refinement and stays as it was.",
  ["inputs", "histories"], SESS,
  "The test refines one mesh and checks counts; exact subdivision for every mixed, partial, merged or converted mesh is not checked.",
  [A+"RefinementStrategy.h", A+"Mesh.h", A+"MeshCleanup.h"],
  [("quad refinement", A+"RefinementStrategy.h")],
  ["mesh before and after the call"], TR, TRN),
P("C07", "Smoothing moves only free vertices and keeps every element valid",
  "Smoothing changes nothing but the positions of interior vertices: connectivity, colours, markers and the boundary stay the same, boundary and fixed vertices do not move, vertices of quad layers move only if layer smoothing was requested, zero iterations move nothing, which vertices belong to quad layers is not changed by triangulation, conversion or smoothing, and every element that was valid stays a simple counter-clockwise polygon.",
  ["inputs", "histories"], SESS,
  "The tests smooth a single mesh and look at it; fixed, boundary and layer vertices and element validity are not compared for all smoothers, iterations and mesh kinds.",
  [A+"SmoothingStrategy.h", A+"MeshCleanup.h"],
  [("Laplace, torsion and mixed smoothing", A+"SmoothingStrategy.h")],
  ["vertex positions and elements before and after the call"], TR, TRN),
P("C08", "Neighbouring meshes match edge by edge and do not overlap",
  "Whenever boundary edges of two meshes of one generator coincide, both meshes record each other's edge as shared partner (same end points and marker, opposite direction), the relation is mutual and never refers to a mesh that no longer exists, and it stays so through all later operations and merges. Elements of different meshes never overlap.",
  ["inputs", "histories"], "all arrangements of touching domains, all orders of creating, meshing, modifying and merging their meshes",
  "The tests build two or three fixed arrangements in one order; partners after layers, refinement attempts, merges and re-creation are not checked.",
  [A+"FrontInitData.h", A+"Front.h", A+"MeshBuilder.h", A+"MeshMerger.h", A+"MeshGenerator.h", A+"QuadLayering.h", A+"Edge.h"],
  [("search for coinciding neighbour edges", A+"FrontInitData.h"), ("twin edges", A+"Edge.h / Front.h mark_twin_edges")],
  ["boundary edges and their partners in all meshes after every call"], TR, TRN),
P("C09", "Merging unites two meshes without loss, or changes nothing",
  "Merging succeeds exactly when the two meshes share boundary edges that both have meshed; the receiver then holds exactly the elements (with colours), vertices and remaining boundary edges (with markers and partners) of both, every vertex keeps its fixed and quad-layer marks, the shared boundary becomes interior and its vertices fixed, the donor is gone and third meshes now share their edges with the receiver. Otherwise the call returns false and both meshes are unchanged.",
  ["inputs", "histories"], "all arrangements and states of the meshes at the time of the merge, and all merge orders",
  "Two tests merge one pair after full triangulation; unmeshed, partly meshed, unrelated, chained and third-party cases are not covered.",
  [A+"MeshMerger.h", A+"MeshGenerator.h", A+"Mesh.h"],
  [("interface search and transfer of entities", A+"MeshMerger.h"), ("mesh list and cached algorithms", A+"MeshGenerator.h")],
  ["all meshes before and after the call"], TR, TRN),
P("C10", "Exports describe the mesh and its connectivity faithfully",
  "A written TXT or VTU file contains exactly the vertices, elements, colours, edges, markers, interface partners and element neighbours of the mesh at that time, with neighbour relations that follow from the elements (side by side, none on the boundary), and exporting changes nothing in any mesh. The call returns true exactly when the file was written.",
  ["inputs", "histories"], SESS,
  "The examples write files that nobody reads back; index consistency after merges, conversions and partial meshing is never checked.",
  [A+"MeshWriter.h", A+"MeshCleanup.h", A+"Mesh.h", "src/utils/VtkIO.h"],
  [("index assignment and connectivity set-up", A+"MeshCleanup.h"), ("writers", A+"MeshWriter.h")],
  ["exported files read back; edge and element neighbours"], TR, TRN),
P("C14", "Quad layers add elements along the boundary and leave the rest alone",
  "Generating quad layers keeps every existing element, shared interface edge and boundary marker, gives new elements the mesh's colour, and never leaves the mesh invalid; when it returns true new elements exist. On an empty, plain polygonal domain (no holes, fixed points or neighbours) with layers thinner than the boundary edges, away from the corners, the new vertices lie at the requested layer heights (first height, growing by the growth rate) from the boundary, every boundary edge between the start and end position (counter-clockwise) is covered after success, and no other boundary edge is. The call always returns, for any start and end position, height, growth rate and number of layers, on empty, partly meshed and complete meshes.",
  ["inputs", "histories"], SESS,
  "A few tests generate layers on convex domains before triangulation; layers on partly meshed, neighbouring or exhausted meshes and odd parameters are not tested.",
  [A+"QuadLayering.h", A+"FrontUpdate.h", A+"MeshingStrategy.h"],
  [("layer construction", A+"QuadLayering.h")],
  ["mesh before and after the call"], TR, TRN),
P("C15", "The application does exactly what the parameter file says",
  "Running the application on a parameter file has exactly the effect of the library calls the file stands for: one mesh per definition, with its boundaries of every kind, markers, vertex sizes, size function, fixed vertices and edges, quad layers, element colour, algorithm, refinements and smoothing, merged with the meshes before it and written under the given name in the given format. Parameters that are left out have their defaults (colour 0, triangulation, no refinement, two smoothing iterations, no layer smoothing) whatever earlier meshes of the file set, and neither the order of different parameters nor comments matter. The exit status is success exactly when every mesh was written and fills its domain; a file with a missing or invalid definition ends with a failure status, without a crash and without a mesh file for the faulty mesh.",
  ["inputs", "histories"], "all parameter files of one or several connected meshes, with or without a mistake",
  "No test runs the application; the examples use the library interface.",
  ["src/app/TQMeshApp.h", "src/app/main.cpp", "src/app/size_function.cpp", "src/utils/ParaReader.h", A+"MeshGenerator.h"],
  [("translation of parameters to calls", "src/app/TQMeshApp.h MeshConstruction"), ("exit status", "src/app/main.cpp"), ("size function expressions", "src/app/size_function.cpp")],
  ["files written, printed meshes and exit status of the application"],
  "TLA+: parameter files generated from App.tla by TLC; the real application and the library calls demanded by App!Calls are run on each, and TLC validates written meshes, exit status and demanded contents (AppTrace.tla)",
  "Bounded: sampled files; the library itself is the reference for how a mesh looks (its correctness is decided by the other properties). Meshes of a file that do not touch are not claimed."),
P("C16", "The completeness check is right",
  "The mesh checker reports a single-domain mesh as complete exactly when its elements fill the domain without gaps, at any time during a session, and checking changes nothing.",
  ["inputs", "histories"], SESS,
  "The checker is only used on finished meshes in the tests, so wrong verdicts on partial or modified meshes go unnoticed.",
  [A+"MeshChecker.h", A+"EntityChecks.h", A+"Mesh.h"],
  [("area, edge and overlap comparison", A+"MeshChecker.h")],
  ["verdict of the checker"], TR, TRN),
P("C19", "Meshes of one generator are isolated and results are reproducible",
  "A call on one mesh never changes the vertices, elements or edges of another mesh, and meshes appear and disappear only by creation and merging, each keeping the identifier and colour it was created with. The result of a sequence of calls depends only on these calls and not on unrelated meshes created, meshed or merged away by the same or another generator before or in between.",
  ["inputs", "histories"], "all interleavings of operations on several meshes of one or more generators",
  "Tests use one mesh at a time, or two without comparing the untouched one.",
  [A+"MeshGenerator.h", A+"MeshMerger.h", A+"Mesh.h"],
  [("per-mesh algorithm cache", A+"MeshGenerator.h")],
  ["all meshes after every call"], TR, TRN),
P("C20", "Derived mesh data agrees with the elements",
  "After every call, each vertex lists exactly the elements and edges it belongs to and is marked as boundary vertex exactly if it ends a boundary edge, every entity is found by a spatial query at its own position, cached areas, lengths, centroids, angles and edge directions equal those computed from the current vertex positions, and the reported element counts and total area agree with the elements.",
  ["inputs", "histories"], SESS,
  "Tests compare a few cached values right after construction, not after every modification of the mesh.",
  [A+"Mesh.h", A+"Vertex.h", A+"Triangle.h", A+"Quad.h", A+"Edge.h", A+"EdgeList.h", A+"MeshCleanup.h", "src/utils/Container.h"],
  [("update of cached measures", A+"Triangle.h / Quad.h / Edge.h update_metrics")],
  ["adjacency lists, spatial queries, cached measures after every call"], TR, TRN),
P("C11", "The spatial container behaves like an ordered collection",
  "After any sequence of insertions, removals and moves, the spatial container holds exactly the remaining items in insertion order, circle and rectangle queries (with or without a filter) return exactly the items that lie in the region, each once, and the nearest-item query returns an item of minimal distance. Removing an item that is not in the container is refused without any effect.",
  ["inputs", "histories"], "all sequences of insertions, removals, moves and queries, including coinciding items and items on the lines between quads",
  "The tests insert random items once and query them; removal and motion histories, items on quad borders and coinciding items are hardly exercised.",
  ["src/utils/Container.h", "src/utils/QuadTree.h"],
  [("quad tree with splitting and merging quads", "src/utils/QuadTree.h"), ("list with waste collection", "src/utils/Container.h")],
  ["contents, query results and return values after every call"],
  "TLA+: histories of Store.tla (all short ones by exhaustive TLC search, long ones by simulation) replayed into Container/QuadTree, every result validated by TLC against the abstract collection (StoreTrace.tla)",
  "Bounded: exhaustive for short histories on a small lattice, sampled beyond; trusts the harness and TLC."),
P("C12", "Unusable domains are refused, usable ones accepted",
  "A domain is accepted for meshing exactly when it has an outer boundary, all its boundaries are closed, correctly directed curves that neither cross nor touch themselves or each other except in common corners, all holes lie inside an outer boundary and outside each other, and outer boundaries lie outside each other. A refused domain yields an empty mesh and every meshing call on it ends without success; the validity check never crashes or hangs.",
  ["inputs", "histories"], "all domains built by any sequence of definition calls (shapes, single edges, files, splitting, removal)",
  "The tests check two or three hand-made invalid domains; crossings of edges of all lengths, holes in all places and domains after edits are not covered.",
  [A+"EntityChecks.h", A+"EdgeList.h", A+"Domain.h", A+"Boundary.h", A+"MeshGenerator.h"],
  [("validity check", A+"EntityChecks.h check_domain_validity"), ("crossing search", A+"EdgeList.h intersects_self / intersects_edgelist")],
  ["verdict of the validity check, and size and return value of a mesh generated for the domain"],
  DT, DTN),
P("C18", "Boundary files are read exactly or rejected",
  "Reading a boundary from a CSV file yields exactly the boundary described by its rows: one edge per row with its colour, corner positions and per-corner mesh size and size range, in any accepted number format, line ending and direction. A missing or malformed file is rejected by an exception and leaves the boundary unchanged.",
  ["inputs"], "all boundary files",
  "The tests read one or two well-formed files; malformed rows, optional columns and number formats are not tried.",
  [A+"Boundary.h"],
  [("CSV reader", A+"Boundary.h set_shape_from_csv")],
  ["boundary edges, colours and sizes after reading; exception or not"],
  DT, DTN),
P("C21", "Boundaries and domains describe the declared geometry",
  "After any sequence of definition calls (shapes, single edges, splitting, removing), a domain consists of exactly the declared boundaries with their edges, colours and corner sizes, outer shapes directed counter-clockwise and holes clockwise; its area and extent, and the answer whether a point lies inside a boundary or the domain, are those of the declared geometry.",
  ["inputs", "histories"], "all sequences of domain definition calls and all query points",
  "The tests define a few shapes and query a few points away from edges and corners; edits and their effect on areas are not tested.",
  [A+"Domain.h", A+"Boundary.h", A+"EdgeList.h"],
  [("shape definition", A+"Boundary.h"), ("area, splitting and point location", A+"EdgeList.h")],
  ["edges, areas, extent and point location after every call"],
  DT, DTN),
P("C13", "The local mesh size follows the user's declarations",
  "At every point the mesh size used is positive, never larger than the user's size function, nor larger at a declared corner or fixed point than the size declared there or the length of the adjacent declared edges, and never smaller than all of these contributions; a declared size governs its surroundings within a fraction of its range (by default the edge length or local size) and has no effect far beyond it; further size declarations only refine and removing them only coarsens. The declared boundary edges are subdivided, and the domain filled, with edges and elements of about that size.",
  ["inputs", "histories"], "all domains, size functions, declared corner sizes and ranges, fixed points, and their order of definition",
  "The tests use constant size functions and look at element counts; size contributions of corners, fixed points and edges and their effect on the mesh are not checked.",
  [A+"Domain.h", A+"Boundary.h", A+"Front.h", A+"Triangulation.h", A+"Vertex.h"],
  [("size function of the domain", A+"Domain.h size_function"), ("boundary discretisation", A+"Front.h create_sub_vertex_coords")],
  ["size function at probe points after every definition call; subdivision of declared edges and element sizes of the mesh"],
  DT, DTN),
P("C17", "Geometric predicates are exact",
  "Orientation, segment crossing, point-in-triangle, -quad and -rectangle, and the intersection and overlap tests between vertices, edges, triangles and quads give the exact geometric answer for all well-separated or exactly represented points, independent of the order and rotation of their arguments; distances, angles and polygon areas agree with exact values.",
  ["inputs"], "all configurations of points",
  "The tests evaluate each predicate for a few configurations; collinear, touching, shared-corner and permuted cases are not enumerated.",
  ["src/utils/Geometry.h", A+"FacetGeometry.h", "src/utils/VecND.h", A+"EntityChecks.h"],
  [("orientation, crossing and containment tests", "src/utils/Geometry.h"), ("tests between facets", A+"FacetGeometry.h")],
  ["results of the predicates"],
  "TLA+: all configurations of small integer lattices enumerated, evaluated by the real predicates, every result compared by TLC with exact integer geometry (Geo.tla, GeoTrace.tla); the model's own laws checked exhaustively (GeoMC)",
  "Exhaustive within the lattices (5x5 for triples, 4x4 for quadruples, 3x3 for facet pairs), sampled on larger and shifted lattices; trusts the harness and TLC."),
P("C22", "The parameter file reader returns exactly what the file defines",
  "Queries of a parameter return its definitions one after the other in file order, only those inside the current block, with exactly the values written there (missing entries replaced by the default value where the caller gives one), regardless of comments, empty lines, spacing and brackets. A query finds nothing exactly when no further definition exists, and a definition that is incomplete or unreadable is reported as an error.",
  ["inputs", "histories"], "all parameter files and all sequences of queries",
  "The test reads one file and prints it, without comparing any value.",
  ["src/utils/ParaReader.h"],
  [("search for keys", "src/utils/ParaReader.h get_query_data"), ("conversion of values", "src/utils/ParaReader.h query_scalar / query_vector / query_matrix")],
  ["return value, values and row count of every query"],
  "TLA+: files and query histories generated from Para.tla by TLC, run against the real reader, every answer validated by TLC (ParaTrace.tla)",
  "Bounded: sampled files and histories; trusts the rendering of abstract lines to text and TLC."),
]
NOT = []
def main():
    try:
        from extra_props import PROPS2, NOT2
        PROPS.extend(PROPS2); NOT.extend(NOT2)
    except ImportError: pass
    PROPS.sort(key=lambda p: p["i"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["i"]
            f.write(json.dumps(dict(id=p["i"], title=p["title"], statement=p["stmt"], quantifier=dict(over=p["over"], text=p["text"]),
              why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["obs"], hook_needed=None))) + "\n")
    na = {n["property"] for n in NOT}
    m = dict(version=1, setup_cmd="bash setup.sh",
      hooks=dict(guard="none", enable="no hooks are needed: the harnesses use the public interface of the header-only library", source_commits=[]),
      checks=[dict(property=p["i"], quick_cmd="python3 check.py %s quick" % p["i"], thorough_cmd="python3 check.py %s thorough" % p["i"],
                   technique=p["tech"], level="model_checking", level_note=p["note"]) for p in PROPS if p["i"] not in na],
      not_applicable=NOT)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
