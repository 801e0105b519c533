#!/usr/bin/env python3
"""The table of properties; writes properties.jsonl and MANIFEST.json from it."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "model-based verification: TLA+ specification checked with TLC; traces of the real code validated against it"
P = []      # (id, title, statement, over, text, why, files, mechanism, level_note)
def p(id, title, statement, over, text, why, files, mech, note, technique=TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique))
BP = "include/fcl/broadphase/"
NP = "include/fcl/narrowphase/"

p("B01", "Broadphase queries report exactly the overlapping registered objects",
  "After any history of registrations, removals, clears, setups and object moves followed by an update, every collision query on a broadphase manager (itself, one object, another manager) offers the callback each pair of currently registered objects whose world bounding boxes touch or overlap exactly once. It never offers an unregistered object, a repeated pair or an object paired with itself, and a callback that asks to stop is not called again.",
  ["histories", "inputs"], "every history of operations on each of the managers, every set of boxes (including equal, touching, flat and coincident ones)",
  "The tests compare managers on one random environment with one batch of updates; touching, duplicated and re-registered objects, long histories and early termination are not sampled.",
  [BP + "broadphase_collision_manager.h", BP + "broadphase_SaP-inl.h", BP + "broadphase_SSaP-inl.h", BP + "broadphase_interval_tree-inl.h", BP + "broadphase_spatialhash-inl.h", BP + "broadphase_dynamic_AABB_tree-inl.h", BP + "broadphase_dynamic_AABB_tree_array-inl.h", BP + "broadphase_bruteforce-inl.h", BP + "detail/interval_tree-inl.h", BP + "detail/hierarchy_tree-inl.h", BP + "detail/simple_hash_table-inl.h"],
  [("sorted end-point lists and overlap pair list", BP + "broadphase_SaP-inl.h"), ("interval trees", BP + "detail/interval_tree-inl.h"), ("dynamic AABB hierarchy", BP + "detail/hierarchy_tree-inl.h"), ("spatial hash", BP + "broadphase_spatialhash-inl.h")],
  "exhaustive model checking of the contract and of the sweep-and-prune lists for small bounds; generated and random histories replayed on 20 manager configurations and every recorded query validated against the contract")
p("B02", "Broadphase manager bookkeeping is exact",
  "After any history of operations a broadphase manager's size, emptiness and object listing describe exactly the registered objects: registered and not removed since, each once. Clearing leaves an empty manager that can be used again as a new one.",
  ["histories"], "every history of registrations (one or several), removals, clears, moves and updates on each manager",
  "Tests check sizes after registration at most; the listing and the state after removal, clearing and reuse are never compared with the history.",
  [BP + "broadphase_collision_manager.h", BP + "broadphase_SaP-inl.h", BP + "broadphase_SSaP-inl.h", BP + "broadphase_interval_tree-inl.h", BP + "broadphase_spatialhash-inl.h", BP + "broadphase_dynamic_AABB_tree-inl.h", BP + "broadphase_dynamic_AABB_tree_array-inl.h", BP + "broadphase_bruteforce-inl.h"],
  [("registration tables", BP + "broadphase_dynamic_AABB_tree-inl.h"), ("object map", BP + "broadphase_spatialhash-inl.h")],
  "histories with frequent size/emptiness/listing observations on 20 manager configurations, each observation validated against the specification")
p("B03", "Broadphase distance queries visit every pair that can matter",
  "A distance query on a broadphase manager offers the callback only distinct pairs of registered objects, each at most once, and always ends. It leaves out no pair whose bounding boxes are closer than the smallest distance the callback has returned, so the minimum found is the true minimum over all pairs.",
  ["histories", "inputs"], "every history of operations on each manager and every set of boxes",
  "Tests compare the minimum of a few random scenes; pruning errors need particular arrangements (flat, coincident, far or off-grid objects) and histories.",
  [BP + "broadphase_collision_manager.h", BP + "broadphase_SaP-inl.h", BP + "broadphase_SSaP-inl.h", BP + "broadphase_interval_tree-inl.h", BP + "broadphase_spatialhash-inl.h", BP + "broadphase_dynamic_AABB_tree-inl.h", BP + "broadphase_dynamic_AABB_tree_array-inl.h"],
  [("growing search box", BP + "broadphase_SSaP-inl.h"), ("AABB distance pruning", BP + "broadphase_dynamic_AABB_tree-inl.h")],
  "generated and random histories on 20 manager configurations; every offered pair and every omission validated against the specification's box distances")

NPD = NP + "detail/"
SHAPE_FILES = [NP + "collision-inl.h", NPD + "collision_func_matrix-inl.h", NPD + "gjk_solver_libccd-inl.h", NPD + "gjk_solver_indep-inl.h",
  NPD + "convexity_based_algorithm/gjk-inl.h", NPD + "convexity_based_algorithm/epa-inl.h", NPD + "convexity_based_algorithm/gjk_libccd-inl.h", NPD + "convexity_based_algorithm/minkowski_diff-inl.h"]
PRIMS = [NPD + "primitive_shape_algorithm/" + x for x in ("box_box-inl.h", "halfspace-inl.h", "plane-inl.h", "sphere_box-inl.h", "sphere_capsule-inl.h", "sphere_cylinder-inl.h", "sphere_sphere-inl.h")]
p("S01", "Shape collision queries answer truly for every pair of shapes",
  "A collision query between two primitive or convex shapes in any poses reports a collision when the shapes share points by more than the solver tolerance and none when they are separated by more than it. The answer holds with both solvers, either order of the arguments and with or without contacts requested, and the returned count and the result agree.",
  ["inputs"], "all pairs of the nine shape kinds (sphere, box, ellipsoid, capsule, cylinder, cone, convex, halfspace, plane), all sizes and poses, both solvers",
  "Tests check a handful of poses per pair; wrong answers need particular orientations, axis alignments, near-touching or contained configurations, argument orders.",
  SHAPE_FILES + PRIMS, [("dispatch matrix", NPD + "collision_func_matrix-inl.h"), ("closed-form tests", NPD + "primitive_shape_algorithm/halfspace-inl.h"), ("GJK", NPD + "convexity_based_algorithm/gjk-inl.h")],
  "bodies as support functions in TLA+; separation and overlap decided by certificates (separating direction, common interior point), the certificate machinery itself model-checked on a grid; generated scenes for all pairs run on the real code and every answer validated by TLC")
p("S02", "Contacts separate the shapes they describe",
  "For colliding shapes the reported contacts have unit normals pointing from the first to the second object, non-negative depths and positions near the overlap region. The depth never exceeds the overlap along the normal, moving the second object by depth times normal separates shapes whose contact is computed in closed form, and no more contacts are returned than requested.",
  ["inputs"], "all collidable pairs of shape kinds, all sizes and poses, both solvers, both argument orders",
  "Tests compare a few hand-computed contacts; sign, frame, order and degenerate-alignment errors show up only for particular pairs, poses and orders.",
  SHAPE_FILES + PRIMS, [("contact conversion", NP + "collision_result-inl.h"), ("closed-form contacts", NPD + "primitive_shape_algorithm/halfspace-inl.h"), ("EPA", NPD + "convexity_based_algorithm/epa-inl.h")],
  "every contact returned for generated scenes judged by TLC against the specification's support functions; iterative penetration solvers judged by hard bounds plus an accuracy budget")
p("S03", "Shape distance queries return the true minimum distance",
  "The distance between two separated bounded shapes is the minimum distance over their points, and when nearest points are requested they lie on the respective shapes and are exactly that far apart. Intersecting shapes never get a positive distance and every query ends.",
  ["inputs"], "all pairs of bounded shape kinds, all sizes, gaps and poses, both solvers, both argument orders",
  "Tests check few poses; wrong minima need particular feature combinations (edge-edge, vertex-rim), swapped arguments or early termination of the iteration.",
  [NP + "distance-inl.h", NPD + "distance_func_matrix-inl.h"] + SHAPE_FILES[2:] + PRIMS[3:], [("GJK distance", NPD + "convexity_based_algorithm/gjk_libccd-inl.h"), ("own GJK", NPD + "convexity_based_algorithm/gjk-inl.h"), ("closed forms", NPD + "primitive_shape_algorithm/sphere_box-inl.h")],
  "scenes built around a known gap (certificate re-checked by the specification) or random; the returned nearest points give a direction whose gap certifies minimality")
p("S04", "Signed distance describes separation and penetration",
  "With signed distance enabled, separated shapes get their true distance and penetrating shapes a finite negative value whose magnitude is a translation that separates them. The nearest points returned by the default solver in penetration lie on the shapes and are that far apart.",
  ["inputs"], "all pairs of bounded shape kinds, all sizes and poses, both solvers, both argument orders",
  "Tests cover spheres and a few boxes; degenerate polytopes, contained shapes and touching faces need particular alignments.",
  [NP + "distance-inl.h"] + SHAPE_FILES[2:] + PRIMS[3:], [("EPA of libccd", NPD + "convexity_based_algorithm/gjk_libccd-inl.h"), ("fallback over contacts", NPD + "traversal/collision/shape_collision_traversal_node-inl.h")],
  "as S03, plus overlaps of known length and inscribed balls as bounds on the depth")

BVH = "include/fcl/geometry/bvh/"
BVM = "include/fcl/math/bv/"
MESH_FILES = [BVH + x for x in ("BVH_model-inl.h", "BVH_model.h", "BV_node.h", "BV_node_base.h", "detail/BV_fitter-inl.h", "detail/BV_splitter-inl.h")]
p("M01", "Mesh construction obeys its protocol of calls",
  "A mesh model accepts vertices, triangles and point sets only in the phase of its life in which they make sense, and answers every call in any order with the documented code. A call that is refused changes nothing, a call that is accepted adds exactly the given data, and no order of calls reads or writes outside the model's memory or leaks it.",
  ["histories"], "every sequence of building, replacing, updating, ending, copying and hierarchy-rebuilding calls on every bounding volume type",
  "The tests build a mesh once in the intended order; refused calls, repeated phases, wrong counts and copies of half-built models are not sampled.",
  MESH_FILES, [("life cycle", BVH + "BVH_model-inl.h")],
  "the life cycle is a TLA+ state machine whose every reachable transition up to small sizes is executed on the real class; random longer histories; return codes, contents and memory validated by TLC")
p("M02", "Mesh hierarchies enclose their geometry",
  "After a model is built, replaced or updated, each node's bounding volume encloses all triangles or points below it (in both the previous and the current frame when updated with motion), and every primitive is in exactly one leaf. Copies of a model carry the same hierarchy.",
  ["inputs", "histories"], "all triangle meshes and point clouds (including coincident, collinear, flat, tiny and far-away ones), all bounding volume types, split methods and histories of replacing and updating",
  "Tests compare collision results of a few models; a volume that misses a sliver of one triangle shows up only for a query through exactly that sliver.",
  MESH_FILES + [BVM + x for x in ("OBB-inl.h", "RSS-inl.h", "kIOS-inl.h", "OBBRSS-inl.h", "kDOP-inl.h", "AABB-inl.h", "utility-inl.h")] + ["include/fcl/math/geometry-inl.h"],
  [("refit and merge", BVH + "BVH_model-inl.h"), ("fitting", BVM + "utility-inl.h"), ("splitting", BVH + "detail/BV_splitter-inl.h")],
  "bounding volumes as point sets in TLA+; the whole hierarchy of every model built, replaced, updated or copied is dumped and every node checked against all its primitives by TLC")

p("V01", "Bounding volume operations are sound",
  "A bounding volume built from points, grown by a point, merged with another, translated or converted from another kind in any pose encloses everything it stands for. Overlap of two volumes, in one frame or in relative poses, is never denied when they share points, and their distance where it is implemented never exceeds the distance of anything they enclose; for boxes, oriented boxes and swept spheres both answers are exact.",
  ["inputs", "histories"], "all eight bounding volume types, all point sets (coincident, collinear, flat, tiny, far away), all poses and sequences of operations",
  "Tests build volumes of a few random point clouds; a lost sliver or a missed separating axis needs particular alignments or sequences of merges.",
  [BVM + x for x in ("AABB-inl.h", "OBB-inl.h", "RSS-inl.h", "kIOS-inl.h", "OBBRSS-inl.h", "kDOP-inl.h", "utility-inl.h")] + ["include/fcl/math/geometry-inl.h"],
  [("rectangle distance", BVM + "RSS-inl.h"), ("merging and separating axes", BVM + "OBB-inl.h"), ("sphere sets", BVM + "kIOS-inl.h"), ("conversion", BVM + "utility-inl.h")],
  "volumes as point sets with exact triangle/rectangle distances in TLA+ (the geometry model-checked against its definitions); random sequences of operations replayed on all eight types and every result validated by TLC")

NPQ = NPD + "traversal/"
MQ_FILES = ["include/fcl/narrowphase/detail/collision_func_matrix-inl.h", NP + "collision-inl.h", NPQ + "traversal_recurse-inl.h", NPQ + "collision/mesh_collision_traversal_node-inl.h", NPQ + "collision/bvh_collision_traversal_node-inl.h", NPQ + "collision/intersect-inl.h"] + MESH_FILES + [BVM + x for x in ("OBB-inl.h", "RSS-inl.h", "kIOS-inl.h", "OBBRSS-inl.h", "kDOP-inl.h", "AABB-inl.h")]
p("M03", "Mesh collision finds exactly the intersecting triangles",
  "Two meshes are reported in collision exactly if a triangle of one crosses a triangle of the other. Asked for all contacts, every crossing pair of triangles is reported and no other, whatever the bounding volume type, split method, past updates or copies of the meshes; every contact names the two objects and a pair of triangles that do cross, and never more contacts than asked for are returned.",
  ["inputs", "histories"], "all pairs of triangle meshes (soups, solids, grids) of one bounding volume type, all poses, limits and histories of updating, replacing and copying",
  "The tests compare bounding volume types with each other on two meshes in random poses; a lost pair under one node needs a particular box alignment, and an error common to all types cancels out.",
  MQ_FILES, [("recursion", NPQ + "traversal_recurse-inl.h"), ("dispatch", NPD + "collision_func_matrix-inl.h")],
  "set of crossing triangle pairs computed by brute force in the TLA+ specification with exact-arithmetic-checked separating axes and witnesses; every answer of the real library on generated scenes validated by TLC")
p("M04", "Mesh distance is the true minimum over all triangles",
  "The distance of two meshes is the minimum over all pairs of their triangles, zero exactly if they cross. The named triangles and the nearest points attain it, the points lie on those triangles, and the named objects are the two given ones.",
  ["inputs", "histories"], "all pairs of triangle meshes of the bounding volume types with a distance, all poses and histories of updating, replacing and copying",
  "The tests compare few poses with a brute-force run of the same triangle code; a bound that prunes too much or a triangle pair with parallel edges shows up only in particular arrangements.",
  [NPD + "distance_func_matrix-inl.h", NP + "distance-inl.h", NPQ + "distance/mesh_distance_traversal_node-inl.h", NPQ + "distance/bvh_distance_traversal_node-inl.h", NPD + "primitive_shape_algorithm/triangle_distance-inl.h"] + MESH_FILES + [BVM + x for x in ("RSS-inl.h", "kIOS-inl.h", "OBBRSS-inl.h", "AABB-inl.h")],
  [("triangle distance", NPD + "primitive_shape_algorithm/triangle_distance-inl.h"), ("recursion", NPQ + "distance/mesh_distance_traversal_node-inl.h"), ("dispatch", NPD + "distance_func_matrix-inl.h")],
  "minimum over all pairs of triangles computed in the TLA+ specification (its geometry model-checked against the definitions); every answer of the real library validated by TLC")

MS_FILES = [NPQ + "collision/mesh_shape_collision_traversal_node-inl.h", NPQ + "distance/mesh_shape_distance_traversal_node-inl.h", NPQ + "traversal_recurse-inl.h", NPD + "gjk_solver_libccd-inl.h", NPD + "gjk_solver_indep-inl.h", NPD + "primitive_shape_algorithm/sphere_triangle-inl.h", NPD + "primitive_shape_algorithm/halfspace-inl.h", NPD + "primitive_shape_algorithm/plane-inl.h", "include/fcl/geometry/shape/utility-inl.h"]
p("M05", "A mesh collides with a shape exactly where its triangles do",
  "A collision query between a triangle mesh and a primitive or convex shape reports each triangle that reaches into the shape and none that is apart from it, up to the number of contacts asked for, in either order of the arguments. Each contact names the two objects and such a triangle, with a unit normal from the mesh to the shape, a depth that never exceeds the overlap along it and a position near the overlap.",
  ["inputs"], "all meshes and shape kinds, all eight bounding volume types, both solvers, both argument orders, all poses",
  "The tests use one box-like mesh per shape in few poses; a volume of the shape that misses a part of it, a wrong normal or an unsupported combination shows up only for particular poses, types and solvers.",
  MS_FILES + MESH_FILES, [("recursion over the mesh", NPQ + "collision/mesh_shape_collision_traversal_node-inl.h"), ("bounding volume of the shape", "include/fcl/geometry/shape/utility-inl.h"), ("triangle-shape solver", NPD + "gjk_solver_indep-inl.h")],
  "each triangle is a body of the shape specification: which triangles meet the shape is decided by its certificates, and every answer and contact of the real library on generated scenes is validated by TLC")
p("M06", "Mesh-shape distance is the minimum over the triangles",
  "The distance between a triangle mesh and a bounded shape is the smallest distance between the shape and any triangle, and not positive if they intersect. The named triangle attains it and the nearest points lie on that triangle and on the shape, in either order of the arguments.",
  ["inputs"], "all meshes and bounded shape kinds, the bounding volume types with a distance, both solvers, both argument orders, all poses",
  "The tests use few poses; a hierarchy bound that prunes the nearest triangle or a solver that stops early needs a particular arrangement.",
  MS_FILES + MESH_FILES, [("recursion over the mesh", NPQ + "distance/mesh_shape_distance_traversal_node-inl.h"), ("triangle-shape solver", NPD + "gjk_solver_libccd-inl.h")],
  "lower and upper bounds of every triangle's distance computed by certificates in the TLA+ specification; every answer of the real library on generated scenes validated by TLC")

SH = "include/fcl/geometry/shape/"
SH_FILES = [SH + x + "-inl.h" for x in ("box", "sphere", "ellipsoid", "capsule", "cylinder", "cone", "convex", "halfspace", "plane", "triangle_p")]
p("G01", "Bounds of shapes, meshes and placed objects enclose them",
  "The bounding volume of every kind computed for a shape in any pose encloses the shape, as do the box constructed from that volume, the local box and radius of a shape or mesh and the world box of a placed object, however it was placed. The local box is the smallest one, a convex polytope's extreme vertex in any direction is extreme, and the side of a point with respect to a half space or plane is right.",
  ["inputs"], "all shape kinds with all parameters and poses (half spaces and planes with axis-aligned, diagonal and general normals), all eight bounding volume types, meshes, all ways of placing an object",
  "Tests check a few boxes; a volume that misses a sliver of a shape loses collisions only where the sliver is hit, and special cases for aligned and diagonal normals are not sampled.",
  SH_FILES + [SH + "utility-inl.h", "include/fcl/narrowphase/collision_object-inl.h", "include/fcl/geometry/bvh/BVH_model-inl.h"],
  [("bounding volumes of shapes", SH + "utility-inl.h"), ("placed objects", "include/fcl/narrowphase/collision_object-inl.h"), ("extreme vertices", SH + "convex-inl.h")],
  "shapes as support functions and volumes as point sets in TLA+ (the shape specification model-checked on a grid); the bounds of generated shapes in generated poses computed by the library are validated by TLC in all directions that matter")
p("G02", "Volume, center of mass and inertia describe the body",
  "The volume, center of mass and inertia about the origin and about the center of mass of every solid shape and every closed mesh are those of the body with unit density (unit mass for the inertia of a convex polytope). They hold for bodies anywhere relative to their origin.",
  ["inputs"], "all solid shapes with all parameters, all closed meshes and convex polytopes, also away from their origin",
  "Tests compare a cube, a tetrahedron and a capsule, mostly centered and of unit volume; wrong factors and frames cancel out there.",
  SH_FILES[:7] + ["include/fcl/geometry/collision_geometry-inl.h", "include/fcl/geometry/bvh/BVH_model-inl.h"],
  [("shift to the center of mass", "include/fcl/geometry/collision_geometry-inl.h"), ("polytopes", SH + "convex-inl.h"), ("meshes", "include/fcl/geometry/bvh/BVH_model-inl.h")],
  "measures defined as integrals over slices and tetrahedra in TLA+, the two definitions model-checked against each other; the library's numbers for generated bodies validated by TLC")
p("G03", "Meshes generated from shapes are closed and follow the surface",
  "A mesh generated from a box, sphere, ellipsoid, cylinder or cone has all its vertices on the placed shape's surface, is closed with every triangle facing outwards, encloses no more than the shape and most of it, and has the number of triangles asked for.",
  ["inputs"], "all five kinds with all parameters, poses and numbers of segments (six or more) and both ways of asking",
  "Tests only compare collision results of generated meshes with shapes; a missing, repeated or inverted triangle or a seam is hit by few queries.",
  ["include/fcl/geometry/geometric_shape_to_BVH_model-inl.h"],
  [("tessellation", "include/fcl/geometry/geometric_shape_to_BVH_model-inl.h")],
  "surface membership, closedness and enclosed volume specified in TLA+; every generated mesh is dumped and validated by TLC")

OCT = "include/fcl/geometry/octree/octree-inl.h"
OSV = NPQ + "octree/octree_solver-inl.h"
OCT_FILES = [OCT, OSV, NPD + "collision_func_matrix-inl.h", NPD + "distance_func_matrix-inl.h"]
p("O01", "An octree collides exactly where its occupied cells do",
  "A collision query between an octree and a shape, a mesh or another octree reports each pair of an occupied cell and a part of the other (shape, triangle, occupied cell) that reach into each other and no pair that is apart, up to the number of contacts asked for, in either order of the arguments. Contacts name the two objects, the cell and the part, with unit normal, depth and position describing their overlap; cells that are not occupied never count, whatever the thresholds.",
  ["inputs"], "all octrees (pruned and unpruned, cells of all depths, any thresholds, empty ones), all shape kinds and meshes of all eight bounding volume types, both solvers, both orders, all poses",
  "The tests compare counts with one converted random octree; lost cells under a pruned or uncertain node, rotated boxes and unbounded shapes need particular trees and poses.",
  OCT_FILES + [NPQ + "octree/collision/" + x for x in ("octree_collision_traversal_node-inl.h", "octree_mesh_collision_traversal_node-inl.h", "mesh_octree_collision_traversal_node-inl.h", "octree_shape_collision_traversal_node-inl.h", "shape_octree_collision_traversal_node-inl.h")],
  [("recursion over cells", OSV), ("occupancy", OCT)],
  "things as sets of convex parts in TLA+; the pairs of parts that meet decided by certificates and exact triangle geometry; every answer and contact of the real library on generated scenes validated by TLC")
p("O02", "Octree distance is the minimum over its occupied cells",
  "The distance between an octree and a bounded shape, a mesh or another octree is the smallest distance between an occupied cell and any part of the other, and not positive if they intersect. The named cell and part attain it, the nearest points lie on them, the cell can be found again from them, and an empty octree is at no distance from anything.",
  ["inputs"], "all octrees, all bounded shape kinds and meshes, both solvers, both orders, all poses",
  "The tests compare few scenes with a tolerance for intersecting ones; pruning by the wrong box or missing an uneven cell needs a particular arrangement.",
  OCT_FILES + [NPQ + "octree/distance/" + x for x in ("octree_distance_traversal_node-inl.h", "octree_mesh_distance_traversal_node-inl.h", "mesh_octree_distance_traversal_node-inl.h", "octree_shape_distance_traversal_node-inl.h", "shape_octree_distance_traversal_node-inl.h")],
  [("recursion over cells", OSV), ("finding a cell again", OCT)],
  "as O01 with bounds of the distance of every pair of parts")
p("O03", "An octree describes its cells truly",
  "An octree's child boxes lead from the root to exactly the leaf cells with their true boxes, its list of boxes is the set of occupied cells with their sizes and occupancies, and its bounds contain every cell. Occupied, free and uncertain cells are told apart by the thresholds in force, and a cell is found from its identifier and any point of it.",
  ["inputs", "histories"], "all octrees and sequences of threshold changes, all leaves and points in or on the border of them",
  "Tests check one random tree and one grid of points.",
  [OCT, "include/fcl/geometry/octree/octree.h"],
  [("child boxes", OCT), ("lookup", OCT)],
  "the octree as a set of cells with occupancies in TLA+; everything the library says about generated trees and threshold histories validated by TLC")

BPD = "include/fcl/broadphase/"
W_FILES = [BPD + x for x in ("default_broadphase_callbacks.h", "broadphase_dynamic_AABB_tree-inl.h", "broadphase_dynamic_AABB_tree_array-inl.h", "broadphase_SaP-inl.h", "broadphase_SSaP-inl.h", "broadphase_interval_tree-inl.h", "broadphase_spatialhash-inl.h", "broadphase_bruteforce-inl.h")] + \
          ["include/fcl/narrowphase/collision-inl.h", "include/fcl/narrowphase/distance-inl.h", "include/fcl/narrowphase/collision_object-inl.h"]
p("W01", "A scene's collision query finds exactly the colliding pairs of its objects",
  "A collision query with the default callback on any manager (on itself, with an object, with another manager) over moving objects of mixed geometries reports every pair of objects that reach into each other and none that are apart. It stops, and says it is done, exactly when the contacts asked for have been found, and the number, list and truth value of the result agree. With costs wanted it goes on through all pairs and collects exactly the cost sources each of them has by itself.",
  ["histories", "inputs"], "all managers and their settings, all sequences of registering, moving, updating and removing shapes, meshes, octrees, planes and half spaces, all requests",
  "Tests run few fixed environments and compare managers with each other; what all of them lose, or what depends on a history of a mixed scene, is not seen.",
  W_FILES,
  [("callbacks", BPD + "default_broadphase_callbacks.h"), ("octrees as query objects", BPD + "broadphase_dynamic_AABB_tree-inl.h"), ("dispatch", "include/fcl/narrowphase/collision-inl.h")],
  "a world of things with their truth computed pair by pair in TLA+; recorded histories of real scenes with narrow phase and broad phase together validated by TLC")
p("W02", "A scene's distance query finds the nearest pair of its objects",
  "A distance query with the default callback on any manager (on itself, with an object, with another manager) gives the smallest distance of all pairs asked about, not positive if any of them intersect. The objects it names attain it, as do the nearest points, and a query about nothing leaves the result without a distance.",
  ["histories", "inputs"], "all managers and their settings, all sequences of registering, moving, updating and removing bounded shapes, meshes and octrees, all requests",
  "As for collisions; pruning by a wrong bound shows only when the nearest pair is visited late.",
  W_FILES,
  [("callbacks", BPD + "default_broadphase_callbacks.h"), ("octrees as query objects", BPD + "broadphase_dynamic_AABB_tree-inl.h"), ("dispatch", "include/fcl/narrowphase/distance-inl.h")],
  "as W01 with bounds of the distance of every pair")

R_FILES = ["include/fcl/narrowphase/collision_request.h", "include/fcl/narrowphase/collision_result.h", "include/fcl/narrowphase/distance_request.h", "include/fcl/narrowphase/distance_result.h", "include/fcl/narrowphase/cost_source.h"]
p("R01", "Requests are honoured and results accumulate",
  "A collision call adds to a result's contacts, without changing earlier ones, only real intersections of the two objects, never beyond the number asked for and as many as fit (of a pair of shapes the deepest), and satisfied, returned count and result agree. A distance call replaces what a result holds only by a smaller distance of its pair; a guess from an earlier call, the order of the objects and how a call is made do not change whether a pair collides.",
  ["inputs", "histories"], "all sequences of collision and distance calls on one result, of bounded shapes, meshes and octrees with any densities and thresholds, all limits, both solvers, guesses and tolerances",
  "Limits interact with what a result already holds and with the order of traversal; tests use fresh results and limits of one or unlimited.",
  R_FILES, [("collision", "include/fcl/narrowphase/collision-inl.h"), ("distance", "include/fcl/narrowphase/distance-inl.h"), ("requests", "include/fcl/narrowphase/collision_request-inl.h"), ("results", "include/fcl/narrowphase/distance_result-inl.h")],
  "a state machine of what results hold, with the truth about each pair computed in TLA+; recorded histories of calls validated by TLC; the bookkeeping itself model-checked")
p("R02", "Cost sources say where and how much two objects overlap",
  "With costs wanted, a collision call adds a cost source for the shared box of every two intersecting parts that are not free, with the product of their densities, and nothing for parts that are apart. At most the number asked for are kept, the largest of all found so far, in order; without costs wanted there are none.",
  ["inputs", "histories"], "all sequences of collision calls with costs on one result, of bounded shapes, meshes and octrees with any densities and thresholds, exact and approximate",
  "No test looks at the values of cost sources; they depend on densities, thresholds, unknown regions of octrees and the limit together.",
  R_FILES, [("octree costs", "include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h"), ("mesh costs", "include/fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node-inl.h"), ("shape costs", "include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h")],
  "as R01: every recorded cost source must be explained by two parts, every robustly intersecting pair must have one")

BPX = BP + "detail/"
p("T01", "Trees of bounding boxes hold exactly their leaves and enclose them",
  "After any sequence of calls (building by any method, inserting, removing, moving, balancing, refitting, clearing) a dynamic tree of boxes, with pointers or in an array, is a full binary tree whose leaves are exactly those put in, with their current boxes, and every inner box is the union of its children's. Parents and children agree, the reported size, height and depth are those of the tree, and an update says whether the box had to grow.",
  ["histories", "inputs"], "all sequences of public calls, all boxes (coinciding, flat, far away), all thresholds and methods of construction",
  "A lost leaf or a box that is too small shows in a query only when something happens to be there; structural corruption needs particular sequences of rotations and reinsertion.",
  [BPX + x for x in ("hierarchy_tree-inl.h", "hierarchy_tree_array-inl.h", "node_base-inl.h", "morton-inl.h")],
  [("insertion and removal", BPX + "hierarchy_tree-inl.h"), ("insertion and removal in arrays", BPX + "hierarchy_tree_array-inl.h")],
  "the algorithm itself model-checked with any choice of place; every recorded structure after every call validated by TLC")
p("T02", "Interval trees, hash tables and Morton codes answer exactly",
  "An interval tree holds exactly the intervals put in, in order, balanced and with correct upper bounds, and a query returns each interval that overlaps the range exactly once. Spatial hash tables return exactly the entries that share a cell (or bin) with the query, boxes that meet share a cell, and Morton codes of any length interleave the coordinates of the point's cell.",
  ["histories", "inputs"], "all sequences of insertions, deletions and queries with equal, degenerate and unbounded ranges; all cell sizes, table sizes and boxes within the scene",
  "Balancing after deletion has many cases, reached by particular histories only; tests touch these structures through managers of random scenes.",
  [BPX + x for x in ("interval_tree-inl.h", "interval_tree_node-inl.h", "simple_hash_table-inl.h", "sparse_hash_table-inl.h", "spatial_hash-inl.h", "morton-inl.h")],
  [("interval tree", BPX + "interval_tree-inl.h"), ("hashing", BPX + "spatial_hash-inl.h"), ("Morton codes", BPX + "morton-inl.h")],
  "the red-black interval tree model-checked as an algorithm; every recorded structure and answer validated by TLC")

MO = "include/fcl/math/motion/"
C_FILES = [MO + x for x in ("interp_motion-inl.h", "screw_motion-inl.h", "spline_motion-inl.h", "translation_motion-inl.h", "tbv_motion_bound_visitor-inl.h", "triangle_motion_bound_visitor-inl.h")]
p("C01", "Motions go from their first pose to their second; bounds and swept boxes hold",
  "A translation, linear, screw or spline motion is at its given poses at times 0 and 1 (later times count as 1), at every time between where its definition puts it, and all the forms in which it reports the current pose agree. No point of a triangle or bounding volume moves farther along a direction than the motion's bound for it allows, and the swept box of an object (linear and screw motions) contains the object's box all the time.",
  ["inputs", "histories"], "all motions (any poses, angles from 0 to a half turn, reference points, control points), all sequences of times, all triangles, volumes and directions, all shapes",
  "Bounds must hold for every point and time; the few motions in tests are checked at their ends, swept boxes and bounds not at all.",
  C_FILES + [MO + "taylor_model/" + x for x in ("taylor_model-inl.h", "taylor_matrix-inl.h", "taylor_vector-inl.h", "interval-inl.h")] + ["include/fcl/narrowphase/continuous_collision_object-inl.h"],
  [("motions", MO + "interp_motion-inl.h"), ("motion bounds", MO + "triangle_motion_bound_visitor-inl.h"), ("swept boxes", MO + "taylor_model/taylor_model-inl.h")],
  "the motions computed by the specification from their definition; recorded poses, bounds and swept boxes of the real motions validated by TLC")
p("C02", "Continuous collision finds the first time of contact",
  "A continuous collision query (sampled, by conservative advancement, or by the polynomial solver for translating meshes that start apart) answers that there is no contact only if the objects are never clearly in contact at any time it covers, and otherwise names a time between 0 and 1 at which they touch (to its tolerance) and before which they are never clearly in contact, with the poses of both at that time. The time returned is the one reported, and the query changes neither object.",
  ["inputs", "histories"], "all bounded shapes and triangle meshes, planes and half spaces (sampled), mesh pairs with RSS or OBBRSS (advancement), all meshes of one kind (polynomial), all translation, linear and screw motions (splines when sampled), numbers of samples and errors",
  "Whether a contact between the start and the end is missed depends on the whole motion; tests look at one moving mesh and compare counts.",
  ["include/fcl/narrowphase/continuous_collision-inl.h", "include/fcl/narrowphase/continuous_collision_request-inl.h", "include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h",
   "include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h", "include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h",
   "include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h", "include/fcl/math/detail/polysolver-inl.h"] + C_FILES,
  [("sampling and dispatch", "include/fcl/narrowphase/continuous_collision-inl.h"), ("conservative advancement", "include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h"), ("polynomial solver", "include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h")],
  "as C01; the truth about contact of the moving objects computed in TLA+ at the sampled times and at the answer")

NA = []

def main():
    only = set(sys.argv[1:])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]},
                                "why_tests_cant": q["why"], "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}) + "\n")
            for x in q["files"] + [b for a, b in q["mech"]]:
                assert os.path.exists("/repo/" + x), x
            assert len(q["title"]) <= 80, q["id"]
            assert q["statement"].count(". ") <= 2, q["id"]
    na = dict(NA)
    m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
         "checks": [{"property": q["id"], "quick_cmd": "python3 bin/check.py %s quick" % q["id"], "thorough_cmd": "python3 bin/check.py %s thorough" % q["id"],
                     "technique": q["technique"], "level": "model_checking", "level_note": q["note"]} for q in P if q["id"] not in na],
         "not_applicable": [{"property": a, "reason": b} for a, b in NA],
         "notes": "TLA+ with TLC; see DESIGN.md. All checks rebuild the library from /repo's working tree."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties")
main()
