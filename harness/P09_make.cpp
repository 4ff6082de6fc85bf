// The functions that make elements: the element has the given vertices in the given order, in meshes and segments.
#include "topo.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/element_creation.hpp"
using namespace viennagrid;
template <typename M, typename E> static IV pos(M &m, typename VH<M>::V const &h, E &e) { IV o; PosOf<M> p(m, h); for (std::size_t i = 0; i < vertices(e).size(); ++i) o.push_back(*p(vertices(e)[i]).begin()); return o; }
// 0: simplices of the dimension of the arguments, 1: tensor product elements, 2: generic function, 3: generic function with an id
template <typename X, typename H> static typename result_of::handle<X, line_tag>::type mk(X &x, std::vector<H> const &v, line_tag, int how) { if (how == 0) return make_line(x, v[0], v[1]); if (how == 1) return make_edge(x, v[0], v[1]); if (how == 2) return make_element<line_tag>(x, v.begin(), v.end()); return make_element_with_id<line_tag>(x, v.begin(), v.end(), typename result_of::element<X, line_tag>::type::id_type(41)); }
template <typename X, typename H> static typename result_of::handle<X, triangle_tag>::type mk(X &x, std::vector<H> const &v, triangle_tag, int how) { if (how < 2) return make_triangle(x, v[0], v[1], v[2]); if (how == 2) return make_element<triangle_tag>(x, v.begin(), v.end()); return make_element_with_id<triangle_tag>(x, v.begin(), v.end(), typename result_of::element<X, triangle_tag>::type::id_type(41)); }
template <typename X, typename H> static typename result_of::handle<X, quadrilateral_tag>::type mk(X &x, std::vector<H> const &v, quadrilateral_tag, int how) { if (how < 2) return make_quadrilateral(x, v[0], v[1], v[2], v[3]); if (how == 2) return make_element<quadrilateral_tag>(x, v.begin(), v.end()); return make_element_with_id<quadrilateral_tag>(x, v.begin(), v.end(), typename result_of::element<X, quadrilateral_tag>::type::id_type(41)); }
template <typename X, typename H> static typename result_of::handle<X, tetrahedron_tag>::type mk(X &x, std::vector<H> const &v, tetrahedron_tag, int how) { if (how < 2) return make_tetrahedron(x, v[0], v[1], v[2], v[3]); if (how == 2) return make_cell(x, v.begin(), v.end()); return make_cell_with_id(x, v.begin(), v.end(), typename result_of::cell<X>::type::id_type(41)); }
template <typename X, typename H> static typename result_of::handle<X, hexahedron_tag>::type mk(X &x, std::vector<H> const &v, hexahedron_tag, int how) { if (how < 2) return make_hexahedron(x, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); if (how == 2) return make_cell(x, v.begin(), v.end()); return make_cell_with_id(x, v.begin(), v.end(), typename result_of::cell<X>::type::id_type(41)); }
template <typename M, typename T> static void make_()
{
  typedef typename result_of::segmentation<M>::type S; typedef typename result_of::segment_handle<S>::type H; typedef typename result_of::handle<M, T>::type E; const int n = Ref<T>::nv; M m; typename VH<M>::V h; typedef typename result_of::point<M>::type P; S s(m); H a = s.make_segment(), b = s.make_segment(); bool in = vs_pick("segment", 2), vin = vs_pick("vertices through the segment", 2); std::vector<P> p;
  for (int i = 0; i <= n; ++i) { P q; for (std::size_t k = 0; k < q.size(); ++k) q[k] = vs_real("p", -10, 10); p.push_back(q); int w = i % 2; h.push_back(vin ? (w ? make_vertex(a, q) : make_vertex(a)) : (w ? make_vertex(m, q) : make_vertex(m))); if (!w) point(m, h[i]) = q; }
  IV o; int first = vs_pick("first", n), turn = vs_pick("turned", 2); for (int i = 0; i < n; ++i) o.push_back(turn ? (first + n - i) % n : (first + i) % n); std::vector<typename VH<M>::H> v; for (int i = 0; i < n; ++i) v.push_back(h[o[i]]); int how = vs_pick("function", 4);
  E e = in ? mk(a, v, T(), how) : mk(m, v, T(), how); typename result_of::element<M, T>::type &x = dereference_handle(m, e); CHECKM(pos(m, h, x) == o, "the vertices of a new element, in their order"); CHECKM(elements<T>(m).size() == 1 && &elements<T>(m)[0] == &x, "the new element is in the mesh"); if (how == 3) CHECKM(x.id().get() == 41, "the id of the new element");
  typedef typename result_of::element<M, T>::type ET; typedef typename result_of::vertex<M>::type VT; M copy_(m); CHECKM(id_upper_bound<ET>(m).get() > x.id().get() && id_upper_bound<ET>(copy_).get() > x.id().get() && id_upper_bound<ET>(a).get() > x.id().get(), "the bound of the ids is above the id of an element"); for (int i = 0; i <= n; ++i) CHECKM(id_upper_bound<VT>(m).get() > dereference_handle(m, h[i]).id().get(), "the bound of the ids is above the id of a vertex");
  for (int i = 0; i <= n; ++i) for (std::size_t k = 0; k < p[i].size(); ++k) EQ(point(m, h[i])[k], p[i][k]); CHECKM(vertices(m).size() == (std::size_t)n + 1, "making an element makes no vertices");
  CHECKM(is_in_segment(a, x) == in && !is_in_segment(b, x), "an element made through a segment is in this segment"); for (int i = 0; i <= n; ++i) CHECKM(is_in_segment(a, dereference_handle(m, h[i])) == (vin || (in && i < n)) && !is_in_segment(b, dereference_handle(m, h[i])), "and so are its vertices");
}
VS_HARNESS(make_lines) { make_<line_3d_mesh, line_tag>(); }
VS_HARNESS(make_triangles) { make_<triangular_2d_mesh, triangle_tag>(); }
VS_HARNESS(make_edges_of_triangles) { make_<triangular_3d_mesh, line_tag>(); }
VS_HARNESS(make_quadrilaterals) { make_<quadrilateral_2d_mesh, quadrilateral_tag>(); }
VS_HARNESS(make_tetrahedra) { make_<tetrahedral_3d_mesh, tetrahedron_tag>(); }
VS_HARNESS(make_facets_of_tetrahedra) { make_<tetrahedral_3d_mesh, triangle_tag>(); }
VS_HARNESS(make_hexahedra) { make_<hexahedral_3d_mesh, hexahedron_tag>(); }
VS_HARNESS(make_facets_of_hexahedra) { make_<hexahedral_3d_mesh, quadrilateral_tag>(); }
