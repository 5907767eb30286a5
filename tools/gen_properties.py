#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording is reviewed in one place)."""
import json, os
I = "include/kigumi/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

T6 = "The tests that run reliably here only cover the local classification of six hand-made fans; "

prop("C01", "A Boolean of two solids is exactly the regularised set operation",
  "For any two valid closed boundary meshes and any of the 16 Boolean operators, the produced region contains exactly the points that the set-theoretic definition of the operator gives, up to the boundary (regularised). Its boundary is a valid mesh - closed and consistently oriented, every face separating inside from outside, no degenerate, duplicated or dangling face - and neither an exception nor a warning is raised.",
  ["inputs"], "all pairs of valid closed meshes (convex or not, non-manifold, several components, cavities, inverted, sharing vertices/edges/faces or parts of them) x 16 operators",
  T6 + "the quantifier is over pairs of meshes in every relative position, where the degenerate contacts (coplanar, opposite, cocircular, vertex on edge, ...) number in the thousands and no test enumerates them.",
  [I+"Boolean_region_builder.h", I+"Mix.h", I+"Corefine.h", I+"Triangulation.h", I+"Classify_faces_locally.h", I+"Classify_faces_globally.h", I+"Extract.h", I+"Boolean_operator.h"],
  [("corefinement through symbolic face/face intersections", I+"Corefine.h"), ("radial local classification", I+"Classify_faces_locally.h"), ("global classification", I+"Classify_faces_globally.h"), ("face output table", I+"Boolean_operator.h")],
  observe=["Boolean_region_builder::operator()", "Region::boundary()"])

prop("C02", "Empty, full and vanishing results are recognised exactly",
  "For every operator and every combination of operands that are the empty set, the universe or a solid (including equal, complementary, disjoint and nested solids), the result is reported empty exactly if the set it denotes is empty, full exactly if it is the universe, and boundary-defined otherwise, with a boundary denoting the right set. Constructing a boundary-defined region without faces is refused.",
  ["inputs"], "all pairs of operands over {empty, universe, meshes, their complements} x 16 operators x preference",
  "The library's tests sample some special cases; the kind of the result is decided by operator-specific fall-back code that must agree with set theory for every operand class and operator.",
  [I+"Boolean_region_builder.h", I+"Region.h", I+"Boolean_operator.h"],
  [("early tagging of faces when one operand is special", I+"Boolean_region_builder.h"), ("kind decision when no face is output", I+"Boolean_region_builder.h")])

prop("C03", "Open meshes clipped by a common convex region combine correctly inside it",
  "For any two valid open meshes whose borders lie on the boundary of a common convex region, each dividing that region into two sides, every Boolean operator yields the set operation of the two sides inside that region. No warning or exception is raised.",
  ["inputs"], "all pairs of open meshes (height-field sheets, closed meshes mixed with open ones) clipped by a common convex region x operators",
  T6 + "open meshes exercise ray-based classification from faces whose rays may hit nothing or only a border; positions are combinatorial.",
  [I+"Classify_faces_globally.h", I+"Side_of_triangle_soup.h", I+"Mix.h"],
  [("nearest-hit side test towards a face of the other mesh", I+"Side_of_triangle_soup.h")])

prop("C04", "One computation answers any sequence of operators, independent of order",
  "After the operands of a Boolean computation have been combined once, any sequence of operators and preferences can be asked of it and every answer equals the one a fresh computation would give, whatever was asked before. The preference between the two operands never changes the set denoted by the result, and the operands are never modified.",
  ["histories", "inputs"], "all sequences of (operator, preference) queries up to a length, on pairs of operands of every kind",
  "Tests ask a builder one or a few operators in one order; reuse, copies and preference are history properties.",
  [I+"Boolean_region_builder.h", I+"Extract.h"],
  [("const extraction from the mixed mesh", I+"Extract.h")],
  state=[("mixed mesh of the builder", "classified faces of both operands, computed once", I+"Boolean_region_builder.h")])

prop("C05", "Face data follow the faces they were attached to",
  "Every face of a Boolean result is a piece of a face of one of the operands and carries exactly that face's attached data. Where both operands contribute the same piece of surface, the data come from the preferred operand, uniformly over the whole overlap.",
  ["inputs"], "all pairs of meshes with distinct data per face x operators x preference",
  "Each face needs its own identity to observe a swap; tests attach data to few faces and few configurations.",
  [I+"Mix.h", I+"Extract.h", I+"Mixed.h", I+"Boolean_operator.h", I+"Boolean_region_builder.h"],
  [("per-face data copied on refinement and extraction", I+"Mix.h"), ("coplanar/opposite masks", I+"Boolean_operator.h")])

prop("C06", "Results of Booleans are valid operands: set algebra holds under composition",
  "Any expression built by feeding results of Boolean operations into further Boolean operations denotes the set the expression says, at every depth, including results reached through different expressions for the same set. Every intermediate boundary satisfies the documented preconditions for operands (no degenerate faces, no self-intersection, closed).",
  ["histories", "programs"], "all expressions over a few base solids up to a depth, explored as a graph of reachable regions",
  "A composition feeds exactly computed, non-double coordinates and non-manifold contacts back in; tests never chain operations.",
  [I+"Boolean_region_builder.h", I+"Corefine.h", I+"Extract.h", I+"Point_list.h"],
  [("exact constructions", I+"Intersection_point_inserter.h"), ("vertex identity by exact coordinates", I+"Point_list.h")])

prop("C07", "Point location is exact for every point and mesh",
  "For every region and every query point the reported side is exact: boundary exactly if the point lies on some face (its interior, an edge or a vertex), otherwise inside exactly if the point belongs to the region. This holds for solids, complements, non-manifold and multi-component boundaries and for the empty set and the universe, and asking never changes later answers.",
  ["inputs", "histories"], "all points of a grid (vertices, edges, face interiors, near and far) x all meshes of a family",
  "Rays through shared edges and vertices, and queries on the surface, are measure-zero cases that have to be enumerated.",
  [I+"Region.h", I+"Side_of_triangle_soup.h", I+"AABB_tree/AABB_tree.h"],
  [("ray towards each face's centroid in turn until the nearest hit is unambiguous", I+"Side_of_triangle_soup.h")])

prop("C08", "Triangle-triangle intersection is exact and symmetric",
  "For any two non-degenerate triangles in space, the symbolic intersection (which vertices, edges and faces meet) describes exactly the geometric intersection of the two triangles as a closed set, in boundary order. It is consistent under swapping the triangles and under relabelling or reversing their vertices.",
  ["inputs"], "all pairs of triangles over a grid: every mutual position class, coplanar or not, with all vertex orders",
  "Tests list some tens of configurations; the decision table has thousands of sign patterns and each is hit only by specific coordinates.",
  [I+"Face_face_intersection.h", I+"Triangle_region.h", I+"Intersection_point_inserter.h", I+"Point_list.h"],
  [("dimension-by-dimension recursion over vertices, edges and faces", I+"Face_face_intersection.h"), ("cached orientation predicates", I+"Face_face_intersection.h")])

prop("C10", "The defect finder reports exactly the defects of a mesh",
  "For every triangle soup - with duplicated points, unused points, repeated or zero-area faces, borders, flipped or fan-like edges, pinched vertices, overlaps - each reported list contains exactly the elements that satisfy that defect's definition, identified on the mesh with coincident points merged. A face pair is an overlap exactly if the two faces meet outside the vertices or edge they share; it is reported by the face that comes first.",
  ["inputs"], "all soups of a few triangles over a small set of points",
  "Combinations of defects interact (degenerate faces inside fans, doubled faces at pinched vertices); tests check one defect at a time.",
  [I+"Find_defects.h", I+"Dense_undirected_graph.h", I+"Face_face_intersection.h"],
  [("vertex links as graphs", I+"Dense_undirected_graph.h"), ("halfedge counting", I+"Find_defects.h")])

prop("C11", "The binary format stores and restores a region without any loss",
  "Reading back what was written to a .kigumi file or stream yields the same region: kind, exact coordinates (doubles of any magnitude and rationals of any size and sign), faces, order and attached data, and a restored region, written and read again, yields the same bytes every time. Saving and restoring at any point of a chain of Boolean operations changes no later result, and restoring into a region that already holds something gives the same as restoring into a fresh one.",
  ["inputs", "histories"], "all regions of a family (special kinds, results of exact computations) x coordinate values x target states",
  "Tests write a few values; sign, size and laziness of numbers, and the state of the target, span a product of cases.",
  [I+"io.h", I+"Region.h", I+"Region_io.h", I+"Triangle_soup.h", I+"Mesh_indices.h"],
  [("double or exact rational encoding per vertex", I+"Triangle_soup.h"), ("length-prefixed big integers", I+"io.h")])

prop("C12", "Text formats restore the same mesh up to double rounding",
  "A mesh written as OBJ, OFF or PLY and read back has the same vertices in the same order (bit-exact for coordinates representable as doubles, one of the two neighbouring doubles otherwise), and the same faces in the same order and orientation, including vertices used by no face and meshes with no face. Converting between any two of the formats in any order preserves this, and files written are the same whatever locale the program has chosen.",
  ["inputs", "histories"], "all meshes of a family x coordinate values (extremes, subnormals, signed zero) x all conversion chains up to a length",
  "Tests round-trip a handful of values in one format at a time.",
  [I+"io/obj.h", I+"io/off.h", I+"io/ply.h", I+"io/ascii.h", I+"Triangle_soup_io.h"],
  [("shortest round-trip formatting and exact parsing", I+"io/ascii.h")])

prop("C13", "All spellings of a text mesh are read as the same mesh",
  "Every file that is valid OBJ, OFF or ASCII PLY in the usual layout of one element per line and describes the same polygons - whatever its comments, blank lines, spacing, number spelling, index style, polygon size, and extra elements or properties - is read as the same triangle mesh, polygons as triangle fans. Files that differ only in such spelling never differ in result.",
  ["inputs"], "all combinations of syntactic variations up to a size, per format",
  "The grammar's variations multiply; the unit tests read a few fixed strings.",
  [I+"io/obj.h", I+"io/off.h", I+"io/ply.h", I+"io/ascii.h"],
  [("line-oriented stream parsers", I+"io/off.h")])

prop("C14", "Malformed input is rejected cleanly and changes nothing",
  "Reading a file that is truncated at any point (unless what remains is itself a valid file), corrupted, not of the format, or whose faces refer to vertices that do not exist reports failure - it neither crashes, hangs nor exhausts memory - and leaves the target exactly as it was. A file is accepted only if it denotes a mesh all of whose faces can be used.",
  ["inputs", "fault_sequences"], "all truncations, all single-byte corruptions and all token substitutions of small valid files, for each of the four formats",
  "Each byte position and each value is its own case; tests try a few bad strings.",
  [I+"io/obj.h", I+"io/off.h", I+"io/ply.h", I+"io/ascii.h", I+"io.h", I+"Region_io.h", I+"Triangle_soup.h", I+"Region.h"],
  [("stream state checks", I+"io/off.h"), ("checked narrowing casts", I+"io.h")])

prop("C15", "I/O errors are reported at whatever byte they strike",
  "If the underlying device fails at any byte while a mesh is read or written - an error, a full disk, including only when the data are finally flushed - the operation reports failure and never success. On success everything has been handed to the operating system, and a failed read leaves the target unchanged.",
  ["fault_sequences", "crash_points"], "every failing call/byte position x every format x read and write",
  "Tests run on a healthy file system only.",
  [I+"io/obj.h", I+"io/off.h", I+"io/ply.h", I+"Region_io.h", I+"Triangle_soup_io.h"],
  [("stream state returned as success", I+"Region_io.h")])

prop("C16", "The parallel loop runs every item exactly once under every schedule",
  "Under every interleaving of its worker threads the parallel loop applies its body exactly once to each item, each worker's private state is merged exactly once and merges never overlap, and it returns only after all work is done, without deadlock and without a data race. If bodies throw, exactly one of the thrown exceptions reaches the caller after every worker has ended, and the number of workers never exceeds the limit in force.",
  ["schedules", "inputs"], "all interleavings of the workers up to a preemption bound, for all small sizes, thread counts and sets of throwing items",
  "A unit test sees the schedules the operating system happens to produce, and an error path with two simultaneous exceptions practically never.",
  [I+"parallel_do.h", I+"threading.h"],
  [("shared atomic index", I+"parallel_do.h"), ("mutex around merge and error", I+"parallel_do.h")],
  state=[("next index, first error", "shared between workers", I+"parallel_do.h")])

prop("C17", "Parallel sort sorts every input under every schedule and thread count",
  "For every sequence, comparator and thread limit, the parallel sort returns a sorted permutation of its input. This holds under every interleaving of its workers, without deadlock and without a data race.",
  ["schedules", "inputs", "configurations"], "all lengths around the partition boundaries x thread counts x orderings, and all interleavings up to a preemption bound",
  "Tests sort a few arrays with the machine's thread count; odd partition counts and merge phases depend on the configuration.",
  [I+"parallel_sort.h"],
  [("barrier between merge rounds", I+"parallel_sort.h")])

prop("C18", "Bounding-box tree queries return exactly the intersecting leaves",
  "For every collection of boxes (any number, equal, nested, flat or point-like, sharing centres) and every query, the tree returns each leaf whose box intersects the query exactly once and no other. The answer does not depend on the order of the boxes or on how many threads built the tree.",
  ["inputs", "configurations"], "all multisets of small boxes up to a size x all queries (boxes, rays, segments) x thread counts",
  "Leaf counts select different node layouts; ties in the split and queries touching a face need enumeration.",
  [I+"AABB_tree/AABB_tree.h", I+"AABB_tree/AABB_node.h", I+"AABB_tree/AABB_leaf.h"],
  [("implicit node numbering by leaf counts", I+"AABB_tree/AABB_tree.h")])

prop("C19", "Results do not depend on the number of threads or on scheduling",
  "For any operands that meet the documented preconditions, a Boolean computation or a point query gives the same result - the same set, the same kind, the same warnings, the same error - for every thread limit and under every schedule of the worker threads, and so does a defect search on any mesh whatsoever. No schedule makes two threads access the same data unsynchronised, deadlock or crash.",
  ["schedules", "configurations", "inputs"], "all thread limits x input pairs; all interleavings of the pipeline's parallel stages up to a preemption bound on small meshes",
  "Tests run with one thread count on one schedule; races show only under particular interleavings.",
  [I+"Mix.h", I+"Corefine.h", I+"Find_coplanar_faces.h", I+"Find_possibly_intersecting_faces.h", I+"Classify_faces_locally.h", I+"Classify_faces_globally.h", I+"Find_defects.h", I+"parallel_do.h"],
  [("order-independent merging of worker results", I+"Corefine.h"), ("tags decided redundantly from every intersecting edge", I+"Mix.h")],
  state=[("face tags", "shared between workers during classification", I+"Mixed.h")])

prop("C20", "No call influences a later one",
  "The result of any library call depends only on its arguments: whatever was computed, failed or was destroyed before in the same thread or process, a Boolean computation, a defect search, a point query, reading or writing gives the same answer as in a fresh process. No state of a finished call is touched again.",
  ["histories"], "all sequences of library calls up to a length over a small alphabet of operations and operands, including failing ones",
  "Tests run each operation in a near-fresh process; state kept per thread or cached in objects shows up only in a second, different call.",
  [I+"Corefine.h", I+"Find_defects.h", I+"Classify_faces_globally.h", I+"Find_possibly_intersecting_faces.h", I+"Mix.h", I+"io.h", I+"io/ascii.h"],
  [("per-thread scratch objects", I+"Corefine.h")],
  state=[("thread_local scratch objects", "survive the call that created them", I+"Corefine.h")])

prop("C21", "Thread-limit settings nest, clamp and are obeyed",
  "A thread limit set for a scope is in force exactly within that scope and on that thread, nested scopes restore the outer limit on every exit path including exceptions, and requested values are clamped to between one and the hardware's number. Every parallel stage obeys the limit in force: with a limit of one nothing runs on another thread.",
  ["histories", "configurations"], "all nestings of settings up to a depth x values x hardware answers, and every parallel entry point x limits",
  "Tests use the default only.",
  [I+"Context.h", I+"threading.h", I+"parallel_do.h", I+"parallel_sort.h", I+"AABB_tree/AABB_tree.h"],
  [("scoped save and restore of a per-thread value", I+"Context.h")])

prop("C22", "Meshes are values: edits, copies and moves never show stale answers",
  "After any sequence of adding vertices and faces, setting data, copying, moving, assigning and querying, every query on a mesh or region (spatial search, point location, bounding box, defects, Booleans) answers for its current contents. Copies are independent of their source.",
  ["histories"], "all sequences of edits, copies, moves and queries up to a length",
  "Caches built by an earlier query survive in objects edited afterwards; only query-edit-query histories show it.",
  [I+"Triangle_soup.h", I+"Triangle_mesh.h", I+"Region.h"],
  [("lazily built search tree", I+"Triangle_soup.h")],
  state=[("cached search tree", "derived from points and faces", I+"Triangle_soup.h")])

prop("C23", "The command-line tool does what it reports",
  "For every combination of command, operands (files of each format, the special names, missing or malformed files) and requested outputs, the tool exits with zero exactly if every requested output was completely written with the right contents, and otherwise exits non-zero with a message. The defects command prints exactly the non-empty defect counts.",
  ["inputs", "fault_sequences"], "all combinations of arguments over a small alphabet",
  "There is no test of the command-line tool at all.",
  ["cli/main.cc", "cli/boolean_command.cc", "cli/convert_command.cc", "cli/defects_command.cc", "cli/utility.h"],
  [("exceptions turned into exit status", "cli/main.cc")])

prop("C25", "Faces around an intersection edge are classified by the true geometry",
  "For every fan of faces of the two meshes around a common edge, with any angles, order, coincidences and orientations that two valid solids can produce, each face is classified exactly as inside, outside or coincident with equal or opposite orientation relative to the other mesh. A fan that ends at the border of an open mesh never produces a wrong answer, and the order of the input does not matter.",
  ["inputs"], "all fans of up to several faces over all ray directions, orientations and face orders",
  "Six hand-made fans are tested; the number of fans with two meshes, eight or more directions and two orientations is in the tens of thousands.",
  [I+"Classify_faces_locally.h", I+"Propagate_face_tags.h", I+"Triangle_mesh.h"],
  [("exact radial sort and parity walk", I+"Classify_faces_locally.h")])

prop("C27", "Concurrent use of shared regions is safe",
  "Several threads may query, copy, write and combine the same constant regions, and evaluate operators on the same Boolean computation, at the same time: every answer equals the sequential one, under every interleaving, including the first, cache-building queries, without data race or deadlock.",
  ["schedules"], "all interleavings of two or three threads' operations on shared regions up to a preemption bound",
  "Tests are single-threaded.",
  [I+"Triangle_soup.h", I+"Region.h", I+"Side_of_triangle_soup.h"],
  [("mutex around the lazily built tree", I+"Triangle_soup.h")],
  state=[("cached search tree", "built by whichever thread asks first", I+"Triangle_soup.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
