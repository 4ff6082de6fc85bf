// Incidence in meshes with other handles and containers, and in views and segments of them.
#include "ranges.hpp"
#include "incid.hpp"
template <typename X> static void cfg(int nv, std::vector<IV> const &cs)
{
  TM<X> t; t.vertices(nv); for (std::size_t i = 0; i < cs.size(); ++i) { if (vs_pick("query", 2)) verify(t, t.m); t.cell(cs[i]); } verify(t, t.m);
}
template <typename X> static void cfgs(int nv, std::vector<IV> const &cs) { TM<X> t; t.vertices(nv); for (std::size_t i = 0; i < cs.size(); ++i) t.cell(cs[i]); segs(t, true); }
VS_HARNESS(id_handles) { cfg<IdMesh>(6, tris(3)); }
VS_HARNESS(id_handles_list) { cfg<IdListMesh>(6, tet2()); }
VS_HARNESS(iterator_handles_list) { cfg<ItListMesh>(6, tet2()); }
VS_HARNESS(pointer_handles_list) { cfg<PtrListMesh>(6, tris(3)); }
VS_HARNESS(segments_id_handles) { cfgs<IdMesh>(6, tris(3)); }
VS_HARNESS(segments_id_handles_vector) { cfgs<IdVecMesh>(6, tris(3)); }
VS_HARNESS(segments_id_handles_list) { cfgs<IdListMesh>(6, tet2()); }
VS_HARNESS(segments_iterator_handles) { cfgs<ItListMesh>(6, tet2()); }
