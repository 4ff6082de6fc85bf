#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  tools/props.py  rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, qtext, why, files, mech, over=('inputs',), note=''):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=['viennagrid/' + f for f in files], mechanism=[dict(name=n, where='viennagrid/' + w) for n, w in mech])), note))
G = 'The tests compare a handful of fixed numeric configurations; '

prop('P01', 'Point arithmetic, norms, products and coordinate systems are exact algebra',
 'For all coordinates, point addition, subtraction, scaling and comparison act componentwise, inner and cross products, 1-, 2- and infinity-norms satisfy their defining formulas, and the in-place operators agree with the binary ones. Converting between cartesian, polar, cylindrical and spherical systems yields the same geometric point, and arithmetic on non-cartesian points equals arithmetic on their cartesian images.',
 'all real coordinates (dimensions 1-3) and all coordinate systems', G + 'the identities quantify over every coordinate.',
 ['point.hpp', 'algorithm/inner_prod.hpp', 'algorithm/cross_prod.hpp', 'algorithm/norm.hpp'],
 [('coordinate_converter, cs_base, spatial_point operators', 'point.hpp'), ('norm_impl', 'algorithm/norm.hpp')])
prop('P02', 'Volume and surface of every element, mesh and segment is its geometric measure',
 'The volume of a line, triangle, quadrilateral, polygon, tetrahedron or hexahedron equals its Euclidean measure, is nonnegative, and is invariant under translation and under reordering of the vertices that describes the same shape. The surface of an element is the sum of the volumes of its facets; the volume of a mesh or segment is the sum over its cells and its surface is the sum over its boundary facets; smallest_boundary_volume and largest_boundary_volume give a boundary element of the element than which none is smaller or larger.',
 'all vertex coordinates, all vertex orders describing the element, all partitions of a mesh into segments', G + 'a wrong sub-simplex, sign or diagonal agrees on symmetric test elements.',
 ['algorithm/volume.hpp', 'algorithm/spanned_volume.hpp', 'algorithm/surface.hpp', 'topology/hexahedron.hpp', 'topology/quadrilateral.hpp'],
 [('volume_impl overloads per element tag', 'algorithm/volume.hpp'), ('signed/spanned volume', 'algorithm/spanned_volume.hpp'), ('surface_impl', 'algorithm/surface.hpp')])
prop('P03', 'Centroids and circumcenters are the defining points of the element',
 'The centroid of an element is the centre of mass of its vertices (of its area for polygons handled by decomposition), and the centroid of a mesh or segment is the volume weighted mean of its cell centroids. The circumcenter of a line, triangle, rectangle, box or tetrahedron is equidistant from all its vertices and lies in the affine hull of the element.',
 'all non-degenerate element shapes and positions', G + 'equidistance must hold for each shape, not the unit simplices.',
 ['algorithm/centroid.hpp', 'algorithm/circumcenter.hpp'],
 [('centroid, centroid_mesh', 'algorithm/centroid.hpp'), ('circumcenter per tag', 'algorithm/circumcenter.hpp')])
prop('P04', 'Angles are the geometric angles, independent of scale and of argument order',
 'The angle between two directions has the cosine given by the normalised inner product, lies in [0,pi], is symmetric and invariant under positive scaling; spherical, solid and dihedral angle functions agree with their geometric definition for all non-degenerate inputs.',
 'all non-degenerate direction vectors', G + 'sign and normalisation errors cancel on orthonormal inputs.',
 ['algorithm/angle.hpp'], [('angle, unsigned/signed, spherical and solid angle', 'algorithm/angle.hpp')])
prop('P05', 'Point-in-element tests agree with geometric containment',
 'For every non-degenerate triangle (in the plane) or tetrahedron and every point with a margin to the boundary, the inclusion test returns true exactly when the point is a convex combination of the vertices.',
 'all element shapes in the stated families and all query points', G + 'containment must be decided for each point in space.',
 ['algorithm/inclusion.hpp'], [('is_inside_impl per tag', 'algorithm/inclusion.hpp')])
prop('P06', 'Distances and closest points are minimal',
 'The closest points returned for a point and an element, or for two line segments, lie on their objects, no other pair of points is closer, and the distance equals their Euclidean distance. The boundary distance of a point to a mesh or segment is its minimal distance to that boundary, and distance functions are symmetric in their arguments.',
 'all query points and all shapes of the element families', G + 'each Voronoi region of an element is a separate branch of the code.',
 ['algorithm/closest_points.hpp', 'algorithm/distance.hpp'],
 [('closest_points dispatch and impl', 'algorithm/closest_points.hpp'), ('distance, boundary_distance', 'algorithm/distance.hpp')])
prop('P07', 'Normals, determinants, bounding boxes and orthogonalisation are exact',
 'The normal vector of a line, triangle or quadrilateral is orthogonal to it with the orientation and length fixed by its vertex order; determinants are the multilinear alternating forms of their columns. The bounding box of points, meshes or segments is the smallest axis-parallel box containing them, the mesh size is its diagonal, and orthogonalisation yields mutually orthogonal vectors with the same span and reports the number of independent ones.',
 'all coordinates, all point sets within the bound, dependent and independent vector families', G + 'orthogonality and minimality quantify over every input.',
 ['algorithm/geometry.hpp'], [('normal_vector, determinant, bounding_box, mesh_size, orthogonalize', 'algorithm/geometry.hpp')])
prop('P08', 'Geometric transformations move exactly the vertices of the mesh or segment',
 'Scaling about a centre, an affine transformation and a general transformation functor map every vertex of the mesh or segment they are applied to by the stated formula and leave all other vertices, the topology and the original inputs unchanged; volumes scale with the determinant.',
 'all factors, centres, matrices, translations and vertex positions', G + 'a formula that is only right for unit factors or a zero centre passes them.',
 ['algorithm/geometric_transform.hpp'], [('scale, affine_transform, transform', 'algorithm/geometric_transform.hpp')])
prop('P09', 'Cells share boundary elements, ids are unique and local orientation is preserved',
 'Creating a cell creates exactly the boundary elements of its reference topology; a boundary element (edge, face) with the same vertices is stored once per mesh and shared by all cells, whatever order the vertices are given in. Every way to make an element, in a mesh or through a segment, gives it the vertices in the order of the arguments. Every cell keeps the order of its vertices and sees each boundary element in its own local vertex order. Ids of elements of one type are unique, contiguous and below id_upper_bound, explicit and generated ids do not collide, elements are found again by id and handle, and vertex positions are kept.',
 'all vertex ids, all ways a second cell can share vertices with the first, all insertion orders of boundary elements', 'The tests build one or two fixed cells; sharing depends on the relative order of ids and on which cell comes first.',
 ['topology/simplex.hpp', 'topology/hexahedron.hpp', 'topology/polygon.hpp', 'topology/plc.hpp', 'element/element_key.hpp', 'element/element_orientation.hpp', 'storage/inserter.hpp', 'storage/hidden_key_map.hpp', 'storage/id_generator.hpp', 'mesh/element_creation.hpp'],
 [('bndcells_generator / create_bnd_cells', 'topology/simplex.hpp'), ('element_key ordering', 'element/element_key.hpp'), ('physical_inserter', 'storage/inserter.hpp'), ('make_unique_vertex', 'mesh/element_creation.hpp')], over=('inputs', 'histories'))
H = 'The tests walk one fixed mesh once; '
prop('P10', 'Boundary detection is exact for meshes and segments, at any time',
 'In a conforming mesh a facet is reported as boundary exactly if it belongs to one cell of the mesh (or segment) asked about, and a lower-dimensional element exactly if it lies on such a facet. The answer is the one for the current cells whenever it is asked: after cells are added, created through a segment, removed from a segment, or the mesh is copied. An element is a boundary element of a host element exactly if it is one of its boundary elements.',
 'all conforming meshes within the bound, all assignments of cells to segments, all interleavings of queries and changes', H + 'the cached flags go wrong only for particular interleavings of queries and modifications.',
 ['algorithm/boundary.hpp', 'mesh/mesh.hpp'], [('detect_boundary, transfer_boundary_information, change counters', 'algorithm/boundary.hpp')], over=('inputs', 'histories'))
prop('P11', 'Coboundary and neighbour ranges are the inverse of the boundary relation',
 'The coboundary range of an element within a mesh, segment or mesh view contains exactly the elements of the requested type there that have it as boundary element, each once; the neighbour range of an element contains exactly the other elements of its type that share a connector element with it, each once. This holds at any time, also when the mesh, segment or view changed since the last query, also in a view that has cells without their boundary elements (a connector counts if it is in the view), and for const access.',
 'all conforming meshes within the bound, all pairs of element dimensions, all interleavings of queries and changes', H + 'a stale or asymmetric incidence list shows only for some topologies and histories.',
 ['mesh/coboundary_iteration.hpp', 'mesh/neighbor_iteration.hpp'], [('create_coboundary_information', 'mesh/coboundary_iteration.hpp'), ('create_neighbor_information', 'mesh/neighbor_iteration.hpp')], over=('inputs', 'histories'))
prop('P12', 'Segment membership, segment ids and segment names stay consistent',
 'Adding an element to a segment adds it and all its boundary elements, once; erasing it removes it and every element of the segment that references it; clearing removes everything. The elements iterated over in a segment, is_in_segment, segment_ids, the segment element information and the element collection of the segmentation always agree with each other, for members and non-members. Segments are found under exactly their id and name, new ids are unused, a taken name is refused without side effects, and unknown ids and names are reported by an exception from at().',
 'all histories of add/erase/create/clear and of segment creation/renaming within the bound, all segment ids', H + 'consistency has to hold after every history of modifications.',
 ['mesh/segmentation.hpp', 'mesh/mesh_operations.hpp'], [('segmentation, segment_handle, add, erase, clear, segment_ids', 'mesh/segmentation.hpp'), ('mark_referencing_elements', 'mesh/mesh_operations.hpp')], over=('inputs', 'histories'))
prop('P13', 'Interface detection between two segments is exact, at any time',
 'For two segments without common cells, a facet is on their interface exactly if it belongs to a cell of each, and a lower-dimensional element exactly if it lies on such a facet. The answer does not depend on the order in which the segments are given, is kept apart for different pairs of segments, and reflects the current cells of the segments after cells are added, moved, or a segment is cleared.',
 'all assignments of cells to segments within the bound, all later moves of cells, all query orders', H + 'the cached flags go wrong only for particular histories.',
 ['algorithm/interface.hpp', 'mesh/segmentation.hpp'], [('detect_interface, transfer_interface_information', 'algorithm/interface.hpp')], over=('inputs', 'histories'))
prop('P14', 'Deleting elements removes exactly what references them and nothing else',
 'Erasing an element (or a marked set of elements) from a mesh removes it and every element that has it as a boundary element, and nothing else. The remaining elements keep their ids, their coordinates and vertex order and still refer to the stored boundary elements; boundary information follows, and erased elements can be created again and are then shared as usual. Erasing from a mesh view leaves the mesh itself untouched.',
 'all elements of all dimensions, all marked subsets, all second deletions and re-creations within the bound', H + 'deletion moves other elements in memory, which goes wrong only for particular victims and histories.',
 ['mesh/element_deletion.hpp', 'mesh/mesh_operations.hpp', 'storage/hidden_key_map.hpp', 'mesh/mesh.hpp'], [('erase_element(s), view_erase_element', 'mesh/element_deletion.hpp'), ('mark_referencing_elements, mark_erase_elements', 'mesh/mesh_operations.hpp'), ('erase', 'storage/hidden_key_map.hpp')], over=('inputs', 'histories'))
prop('P15', 'Copies of meshes, views and segmented meshes are equal and independent',
 'A copy-constructed or assigned mesh (also assigned over a used mesh or to itself) has the same elements with the same ids, coordinates, vertex order and local orientation, refers only to its own elements, and later changes of either mesh (new cells, moved vertices, deletion, clear) are not visible in the other. copy() with a predicate yields exactly the selected cells with their boundary; a copied segmented mesh assigns each cell to the same segment ids; copying elements reuses exactly the vertices within the tolerance; copying a view changes neither the view nor the mesh.',
 'all selections of cells, all segment assignments, all coordinates, all later modifications within the bound', H + 'a copied mesh that still points into its source looks right until one of them changes.',
 ['mesh/mesh.hpp', 'mesh/mesh_operations.hpp', 'mesh/segmented_mesh.hpp', 'mesh/segmentation.hpp', 'mesh/element_creation.hpp'], [('mesh copy, fix_handles', 'mesh/mesh.hpp'), ('copy, vertex_copy_map', 'mesh/mesh_operations.hpp'), ('copy_element(s)', 'mesh/element_creation.hpp'), ('copy_segmentation', 'mesh/segmentation.hpp')], over=('inputs', 'histories'))
prop('P16', 'Refinement fills the mesh conformingly and splits exactly the marked edges',
 'Refining marked edges of a triangular or tetrahedral mesh yields the original vertices plus the midpoint of each marked edge, once, and splits exactly the marked edges. The cells created from a cell fill it without overlap, are not degenerate, keep its orientation and its segments, and the refined mesh is conforming: neighbouring cells divide a common facet the same way, also when edges have equal length. Refining cells, or uniformly, refines exactly the edges of those cells; the longest-edge closure adds only longest edges and marks the longest edge of every cell that has a marked edge; after refinement along a hyperplane no cell crosses it.',
 'all sets of marked edges, all vertex orders, all coordinates (so all orders of edge lengths, ties included), all segment assignments within the bound', H + 'the subdivision is chosen from dozens of templates by the set of marked edges and the order of the edge lengths.',
 ['algorithm/refine.hpp', 'algorithm/detail/refine_tri.hpp', 'algorithm/detail/refine_tet.hpp'], [('refine, element_refine, refine_uniformly, hyperplane_refine, ensure_longest_edge_refinement', 'algorithm/refine.hpp'), ('element_refinement<triangle_tag>', 'algorithm/detail/refine_tri.hpp'), ('element_refinement<tetrahedron_tag>, stable_line_is_longer', 'algorithm/detail/refine_tet.hpp')])
prop('P17', 'Boundary extraction and seed points are exact for meshes and segmentations',
 'extract_boundary replaces the content of the target mesh by exactly the boundary facets (or boundary elements of the requested type) of the mesh, each once, with their vertices in place and in order and nothing else. With a segmentation every target segment gets exactly the boundary facets of the segment with its id, and a facet of several segments is stored once and shared. extract_seed_points yields exactly one point per part of the mesh (or of each segment, labelled with its id) that is connected through facets, the centroid of a cell of that part.',
 'all conforming meshes, vertex ids and segment assignments within the bound, all vertex positions, targets that were used before', H + 'connected parts and shared facets depend on how the cells meet and on the order in which they are visited.',
 ['algorithm/extract_boundary.hpp', 'algorithm/extract_seed_points.hpp'], [('extract_boundary', 'algorithm/extract_boundary.hpp'), ('extract_seed_points, neighbor_mark', 'algorithm/extract_seed_points.hpp')])
prop('P18', 'Voronoi quantities partition the mesh and match their geometric definition',
 'apply_voronoi yields for every vertex the volume of its Voronoi box, for every edge the volume of its edge box and the area of the interface between the boxes of its end points. Each of these totals is the sum of the recorded contributions per cell, and the vertex boxes as well as the edge boxes add up to the volume of the mesh. On chains of lines, grids of rectangles and cuboids, Delaunay triangulations and tetrahedra that contain their circumcenters the values equal the geometric ones; boxes and interfaces end at the mesh boundary.',
 'all spacings, all positions of the triangle apices (circumcenter inside, beyond an edge shared with a neighbour, beyond the boundary), all vertex orders of the cells', G + 'the existing test prints the totals of fixed grids; which branch a triangle takes depends on where its circumcenter lies.',
 ['algorithm/voronoi.hpp'], [('write_voronoi_info per cell tag', 'algorithm/voronoi.hpp'), ('line_intersection, barycentric coordinates', 'algorithm/voronoi.hpp')])
prop('P19', 'Quantity transfer averages exactly the adjacent values',
 'quantity_transfer writes every destination element of the mesh or segment that passes the destination filter and has at least one adjacent source element passing the source filter exactly once, with the average (as computed by the given averager) of the values of exactly those adjacent source elements, each contributing once. Destination elements that the filter rejects and elements outside the mesh or segment are never written. This holds both from higher to lower and from lower to higher dimensional elements.',
 'all conforming meshes within the bound, all source values, all filters of the listed kinds', H + 'an element that is skipped, counted twice or read from the wrong place shows only with distinct values and filters.',
 ['algorithm/quantity_transfer.hpp', 'mesh/coboundary_iteration.hpp'], [('quantity_transfer, boundary and coboundary variants', 'algorithm/quantity_transfer.hpp')])
prop('P20', 'Accessors and fields return per element what was stored for it, and only that',
 'Data written through an accessor or field for an element is what is read back for that element through any accessor or field of the same container (const, non-const, dynamic), until it is overwritten, and writing data of one element leaves the data of the others unchanged. Without data find returns a null pointer, at throws std::out_of_range and a const field returns its default value; reading through find, at or a const field never creates data. An accessor or field is valid exactly if it has a container. The default point accessor refers to the points stored in the mesh.',
 'all sequences of writes and reads over elements with all id patterns within the bound, all values and default values', 'The tests write and read one pattern; missing data, ids beyond the end of a dense container and const access need particular histories.',
 ['accessor.hpp', 'point_accessor.hpp'], [('dense_container_accessor/field, std_map_accessor/field, dynamic wrappers', 'accessor.hpp'), ('default_point_accessor', 'mesh/element_creation.hpp')], over=('inputs', 'histories'))
prop('P21', 'VTK files show the mesh and its data exactly, and reading them restores both',
 'vtk_writer writes for a mesh (or for each segment of a segmentation with several segments, listed in a .pvd file with its segment id) exactly the cells, each once with the VTK type and vertex order of its shape, and exactly the vertices of these cells, each once with its coordinates padded with zeros to three; every registered scalar or vector data set (for the mesh, or for one segment) is written once under its name with the value of each vertex or cell in the order of the points or cells, and data sets are forgotten after a write. vtk_reader restores from such files, and from equivalent files with another attribute, array or white-space layout, the vertices (one per distinct coordinate), the cells with their vertex order, the segments with their ids, and the data of every vertex and cell in the registered accessors or in the reader. Files that are missing, end early or lack a required tag are reported by an exception and leave the mesh as it was, the reader remains usable; files that cannot be created are reported by an exception.',
 'all coordinates, data values, orders of creation and assignments of cells to segments within the bound; files cut after each tag or missing any tag', 'The tests write files and do not look at them, or compare one file; data of one segment, shared cells, vertices used by one segment only and truncated files are not exercised.',
 ['io/vtk_writer.hpp', 'io/vtk_reader.hpp', 'io/xml_tag.hpp', 'io/vtk_common.hpp'], [('vtk_writer', 'io/vtk_writer.hpp'), ('vtk_reader', 'io/vtk_reader.hpp'), ('xml_tag', 'io/xml_tag.hpp')], over=('inputs', 'histories'))
prop('P22', 'Netgen, bnd, poly and tess readers give the mesh of the file, or refuse it',
 'netgen_reader gives the vertices and cells of a .mesh file with their ids in the order of the file, the vertices of a cell in the order of the file, and puts each cell into the segment of its segment index and no other. bnd_helper gives the points, the polygons of every polyhedron (edges of every polygon in 2d), the names and materials of the regions and the faces of the contacts; bnd_reader gives every triangle once, in the segments of its polyhedra. tetgen_poly_reader and neper_tess_reader give the vertices (with the ids of a .poly file), one PLC per facet with exactly the lines and vertices of its polygons (lines shared between facets exist once), its hole points, and the hole and seed points of the file. A file that cannot be opened, ends before everything it announces, has something else where a number is required, or refers to vertices, edges or faces it does not have is refused with an exception; reading always terminates.',
 'all coordinates, ids, references and layouts within the bound; files cut after each token or line, each reference replaced', 'The tests read a few well-formed files and compare element counts at most; no test reads a truncated or inconsistent file, or .bnd, .poly and .tess files at all.',
 ['io/netgen_reader.hpp', 'io/bnd_reader.hpp', 'io/tetgen_poly_reader.hpp', 'io/neper_tess_reader.hpp'], [('netgen_reader', 'io/netgen_reader.hpp'), ('bnd_helper, bnd_reader', 'io/bnd_reader.hpp'), ('tetgen_poly_reader', 'io/tetgen_poly_reader.hpp'), ('neper_tess_reader', 'io/neper_tess_reader.hpp')], over=('inputs',))
prop('P23', 'OpenDX, mphtxt and vmesh files describe the mesh, its segments and its data',
 'opendx_writer writes every vertex once with its coordinates, every cell once with the positions of its vertices among the points of the file in their order, and the first registered scalar data set (vertex data before cell data) with the value of each vertex or cell up to 2e-5. mphtxt_writer writes every vertex and tetrahedron once, the segment id plus one of every tetrahedron (0 without segment), exactly the triangles that bound a segment with the ids plus one of the segments on both sides (first the segment on the side opposite to the normal vector of the triangle as written, 0 for none), and the same contact number exactly for connected coplanar triangles between the same segments. vmesh_writer writes the numbers of vertices, cells and segments and for every segment its id and its numbers of vertices and cells. Files that cannot be created are reported by an exception. (Claimed for simplex meshes whose cells have the dimension of the space, and segments that do not overlap.)',
 'all coordinates, data, vertex ids, vertex orders and assignments to segments within the bound', 'The tests write these files without reading them back.',
 ['io/opendx_writer.hpp', 'io/mphtxt_writer.hpp', 'io/vmesh_writer.hpp'], [('opendx_writer', 'io/opendx_writer.hpp'), ('mphtxt_writer', 'io/mphtxt_writer.hpp'), ('vmesh_writer', 'io/vmesh_writer.hpp')], over=('inputs',))
prop('P24', 'Ranges, iterators, handles and find functions agree on the elements there are',
 'The range of the elements of any type of a mesh, segment, mesh view or element visits each of them exactly once; forward and backward iteration, prefix and postfix steps, const and mutable ranges, operator[], front, back, reverse iterators (where a range has them) and handle_at give the same elements in the same order, size() is their number and empty() tells whether it is 0. A handle refers to the element it was taken from. find by id, find_by_handle and find in a range give the element with this id or handle if it is in the mesh, segment or view, and otherwise the end of the range. This holds for the default meshes and for meshes configured with id, iterator or pointer handles and vector (id handles only), deque or list storage, whose topology is that of the default meshes.',
 'all cells and memberships within the bound, every configuration of handles and storage the harness instantiates, before and after deletions', 'The tests iterate forward over ranges of the default configurations; postfix steps, const ranges of elements, find functions with absent elements and other handle or storage types are hardly used.',
 ['storage/view.hpp', 'storage/container.hpp', 'storage/range.hpp', 'storage/handle.hpp', 'storage/hidden_key_map.hpp', 'storage/static_array.hpp', 'mesh/mesh.hpp', 'config/mesh_config.hpp'], [('view, view::iterator', 'storage/view.hpp'), ('container, iterator', 'storage/container.hpp'), ('container_range_wrapper', 'storage/range.hpp'), ('dereference_handle', 'storage/handle.hpp'), ('find, find_by_handle', 'mesh/mesh.hpp')], over=('inputs', 'histories'))
prop('P25', 'Thin meshes behave like full meshes restricted to cells and vertices',
 'A thin mesh (the thin_*_mesh configurations, which store only cells and vertices) gives the same cells and vertices as a full mesh built by the same calls, with the vertices of every cell in the given order and the same points; ranges, deletion of cells and vertices (a deleted vertex takes its cells with it), copies, views, segments (membership, segment_ids, erasing), the cells at a vertex, the neighbours of a cell over a vertex, and volume, centroid and scaling all agree with it. VTK files of thin meshes hold all cells, vertices and data, and reading them gives the mesh, its segments and its data back.',
 'all thin meshes, points, memberships and deletions within the bound', 'No test uses the thin mesh configurations; the operations on them instantiate other code paths than the full meshes.',
 ['config/default_configs.hpp', 'config/mesh_config.hpp', 'mesh/mesh.hpp', 'mesh/element_deletion.hpp', 'mesh/coboundary_iteration.hpp', 'mesh/neighbor_iteration.hpp', 'mesh/segmentation.hpp', 'io/vtk_reader.hpp', 'io/vtk_writer.hpp'], [('thin_*_mesh', 'config/default_configs.hpp'), ('erase_element', 'mesh/element_deletion.hpp'), ('mesh, mesh view', 'mesh/mesh.hpp'), ('vtk_reader', 'io/vtk_reader.hpp')], over=('inputs', 'histories'))
#MORE
NA = []
#NA
NOTE = ('Bounded solver-based check: the real headers are compiled to LLVM IR on every run, instrumented and executed symbolically; inputs are symbolic reals/bit-vectors/choices; '
        'all feasible paths within the bounds printed in the evidence are explored, and each assertion is decided for all values on its path by exact rational normal forms or z3. '
        'Floating point is modelled as exact real arithmetic (rounding is outside the model; every counterexample is replayed on the natively compiled code before it is reported). Trusted: clang front end, the instrumenter and runtime in engine/, z3, the harness oracle.')
def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, n in P: f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='./engine/build_engine.sh build/engine', checks=[], not_applicable=[dict(property=a, reason=b) for a, b in NA],
             notes='No hooks in /repo. Evidence is written to evidence/<id>.json; counterexample inputs to evidence/replay/.')
    na = set(a for a, b in NA)
    for p, n in P:
        if p['id'] in na: continue
        m['checks'].append(dict(property=p['id'], quick_cmd='./check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check.py %s --thorough' % p['id'],
            evidence_file='evidence/%s.json' % p['id'], technique='symbolic execution of the real code (LLVM IR) with z3 deciding branches and assertions', level='model_checking', level_note=(n + ' ' if n else '') + NOTE))
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
