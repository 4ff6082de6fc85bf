// Ranges of meshes with other handles and containers.
#include "ranges.hpp"
VS_HARNESS(id_handles) { plain<IdMesh>(5, tri1(), 4); }
VS_HARNESS(id_handles_vector) { plain<IdVecMesh>(5, tri1(), 4); }
VS_HARNESS(iterator_handles_list) { plain<ItListMesh>(5, tet1(), 5); }
VS_HARNESS(pointer_handles_list) { plain<PtrListMesh>(5, tri1(), 4); }
VS_HARNESS(id_handles_list) { plain<IdListMesh>(5, tet1(), 5); }
VS_HARNESS(segment_id_handles) { seg<IdMesh>(6, tris(2)); }
VS_HARNESS(segment_iterator_handles) { std::vector<IV> c; c.push_back(iv(3, 1, 2, 0)); c.push_back(iv(4, 1, 3, 2)); seg<ItListMesh>(5, c); }
VS_HARNESS(view_id_handles) { vw<IdMesh>(6, tris(2)); }
VS_HARNESS(view_iterator_handles) { std::vector<IV> c; c.push_back(iv(3, 1, 2, 0)); c.push_back(iv(4, 1, 3, 2)); vw<ItListMesh>(5, c); }
VS_HARNESS(deletion_id_handles) { del<IdMesh>(6, tris(3)); }
VS_HARNESS(deletion_id_handles_vector) { del<IdVecMesh>(6, tris(3)); }
VS_HARNESS(deletion_iterator_handles) { del<ItListMesh>(5, tet2()); }
VS_HARNESS(deletion_pointer_handles_list) { del<PtrListMesh>(6, tris(3)); }
VS_HARNESS(deletion_id_handles_list) { del<IdListMesh>(5, tet2()); }
