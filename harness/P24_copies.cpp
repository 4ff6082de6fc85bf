// Copies of meshes with other handles and containers.
// BOUND: copies (construction, assignment to an empty and to a used mesh) of meshes of 2-3 triangles / 2 tetrahedra in each configuration, followed by one deletion in either mesh
#include "ranges.hpp"
VS_HARNESS(copy_id_handles) { cpy<IdMesh>(6, tris(2)); }
VS_HARNESS(copy_id_handles_vector) { cpy<IdVecMesh>(6, tris(2)); }
VS_HARNESS(copy_iterator_handles) { cpy<ItListMesh>(5, tet2()); }
VS_HARNESS(copy_pointer_handles_list) { cpy<PtrListMesh>(6, tris(2)); }
VS_HARNESS(copy_id_handles_list) { cpy<IdListMesh>(5, tet2()); }
