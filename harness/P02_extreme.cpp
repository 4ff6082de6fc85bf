// The boundary elements of an element with the smallest and the largest volume.
#include "topo.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/surface.hpp"
using namespace viennagrid;
// the edges along the axes have arbitrary lengths
template <typename T, typename M> static void extreme(M &m, int seg)
{
  typedef typename result_of::cell<M>::type C; typedef typename result_of::segmentation<M>::type S; typedef typename result_of::segment_handle<S>::type SH; typedef typename result_of::element<M, T>::type E; C &c = cells(m)[0]; M const &km = m; C const &kc = c; S s(m); SH h = s.make_segment(); add(h, c);
  E const *a[3] = { seg ? &dereference_handle(m, smallest_boundary_volume<T>(h, c)) : &dereference_handle(m, smallest_boundary_volume<T>(m, c)), &dereference_handle(km, smallest_boundary_volume<T>(km, kc)), 0 }, *b[2] = { seg ? &dereference_handle(m, largest_boundary_volume<T>(h, c)) : &dereference_handle(m, largest_boundary_volume<T>(m, c)), &dereference_handle(km, largest_boundary_volume<T>(km, kc)) };
  for (int k = 0; k < 2; ++k) { bool fa = false, fb = false; for (std::size_t i = 0; i < elements<T>(c).size(); ++i) { E &e = elements<T>(c)[i]; if (&e == a[k]) fa = true; if (&e == b[k]) fb = true; vs_le(volume(*a[k]), volume(e), 1e-9, "no boundary element is smaller"); vs_le(volume(e), volume(*b[k]), 1e-9, "no boundary element is larger"); } CHECKM(fa && fb, "a boundary element of the element"); }
}
VS_HARNESS(extreme_edges_of_quadrilaterals) { quadrilateral_2d_mesh m; VH<quadrilateral_2d_mesh>::V h; typedef result_of::point<quadrilateral_2d_mesh>::type P; double a = vs_real("a", 1, 5), b = vs_real("b", 1, 5); h.push_back(make_vertex(m, P(0, 0))); h.push_back(make_vertex(m, P(a, 0))); h.push_back(make_vertex(m, P(0, b))); h.push_back(make_vertex(m, P(a, b))); int o[4] = {0, 1, 2, 3}; addc(m, h, o, 4); extreme<line_tag>(m, vs_pick("segment", 2)); }
VS_HARNESS(extreme_facets_of_hexahedra) { typedef hexahedral_3d_mesh M; M m; VH<M>::V h; typedef result_of::point<M>::type P; double l[3]; for (int k = 0; k < 3; ++k) l[k] = vs_real("l", 1, 5); for (int i = 0; i < 8; ++i) h.push_back(make_vertex(m, P(i & 1 ? l[0] : 0, i & 2 ? l[1] : 0, i & 4 ? l[2] : 0))); IV o = iota_(8); addc(m, h, &o[0], 8); if (vs_pick("edges", 2)) extreme<line_tag>(m, 0); else extreme<quadrilateral_tag>(m, vs_pick("segment", 2)); }
VS_HARNESS(extreme_edges_of_triangles) { typedef triangular_3d_mesh M; M m; VH<M>::V h; typedef result_of::point<M>::type P; double a = vs_real("a", 1, 5), b = vs_real("b", 1, 5); int o[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; h.push_back(make_vertex(m, P(0, 0, 0))); h.push_back(make_vertex(m, P(a, 0, 0))); h.push_back(make_vertex(m, P(0, 0, b))); addc(m, h, o[vs_pick("order", 6)], 3); extreme<line_tag>(m, 0); }
