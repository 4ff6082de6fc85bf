// Ranges of the default configurations.
// BOUND: triangular 2d, tetrahedral 3d, quadrilateral and line meshes of 1-3 cells (a new cell chosen from all cells on the vertex pool), the default configuration and meshes configured with pointer, id and iterator handles and with std::vector, std::deque and std::list storage; the cells in a segment / the elements in a view chosen as any subset; one deletion of any element afterwards for the configurations that support it
#include "ranges.hpp"
VS_HARNESS(triangles) { plain<triangular_2d_mesh>(5, tris(2), 5); }
VS_HARNESS(tetrahedra) { plain<tetrahedral_3d_mesh>(5, tet1(), 5); }
VS_HARNESS(quads) { plain<quadrilateral_2d_mesh>(6, std::vector<IV>(1, iv(0, 1, 2, 3)), 5); }
VS_HARNESS(line_meshes) { plain<line_2d_mesh>(4, std::vector<IV>(1, iv(0, 1)), 4); }
VS_HARNESS(empty_mesh) { triangular_2d_mesh m; Model mo; mesh_checks(m, mo); }
VS_HARNESS(segment_triangles) { seg<triangular_2d_mesh>(6, tris(3)); }
VS_HARNESS(segment_tetrahedra) { std::vector<IV> c; c.push_back(iv(3, 1, 2, 0)); c.push_back(iv(4, 1, 3, 2)); seg<tetrahedral_3d_mesh>(5, c); }
VS_HARNESS(view_triangles) { vw<triangular_2d_mesh>(6, tris(3)); }
VS_HARNESS(view_tetrahedra) { std::vector<IV> c; c.push_back(iv(3, 1, 2, 0)); c.push_back(iv(4, 1, 3, 2)); vw<tetrahedral_3d_mesh>(5, c); }
VS_HARNESS(deletion_triangles) { del<triangular_2d_mesh>(6, tris(3)); }
VS_HARNESS(deletion_tetrahedra) { std::vector<IV> c; c.push_back(iv(3, 1, 2, 0)); c.push_back(iv(4, 1, 3, 2)); del<tetrahedral_3d_mesh>(5, c); }
template <typename X> static void by(int nv, std::vector<IV> const &cs)
{
  typedef typename viennagrid::result_of::segmentation<X>::type S; typedef typename viennagrid::result_of::segment_handle<S>::type H; TM<X> t; Model mo; build(t, mo, nv, cs); S s(t.m); H a = s.make_segment(); typedef typename viennagrid::result_of::mesh_view<X>::type V; V v = make_view(t.m);
  unsigned mask = vs_pick("mask", 1 << cs.size()), vm = vs_pick("vertices", 1 << (vs_tier() ? nv : 3)); for (std::size_t i = 0; i < cs.size(); ++i) if (mask >> i & 1) { add(a, t[(int)i]); elements<typename CT<X>::T>(v).insert_handle(t.ch[i]); } for (int i = 0; i < nv; ++i) if (vm >> i & 1) elements<vertex_tag>(v).insert_handle(t.h[i]); for (int i = 0; i < 3; ++i) if (vm >> i & 1) elements<line_tag>(v).insert_handle(elements<line_tag>(t.m).handle_at(i));
  elems(t.m, a); elems(t.m, v); all_finds(t.m, v, typename CT<X>::T());
}
VS_HARNESS(find_element_triangles) { by<triangular_2d_mesh>(6, tris(3)); }
VS_HARNESS(find_element_tetrahedra) { by<tetrahedral_3d_mesh>(5, tet2()); }
