// Distance to the boundary of a box: from inside to the nearest side, from outside to the box.
// BOUND: boundary distance: rectangles and boxes with one arbitrary side, arbitrary points inside and outside (3d: on a line of points through the box and beside it)
#include "topo.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/distance.hpp"
#include "viennagrid/algorithm/closest_points.hpp"
using namespace viennagrid;
template <typename P> static double box_sq(P const &q, double const *l, int n)
{ double o = 0, i = 1e9; bool in = true; for (int k = 0; k < n; ++k) { double e = q[k] < 0 ? -q[k] : q[k] > l[k] ? q[k] - l[k] : 0; if (q[k] < 0 || q[k] > l[k]) in = false; o += e * e; } if (!in) return o; for (int k = 0; k < n; ++k) { double e = q[k] < l[k] - q[k] ? q[k] : l[k] - q[k]; if (e < i) i = e; } return i * i; }
template <typename X, typename Y, typename P> static void one(X const &x, Y const &acc, P const &q, double e, double const *l)
{
  double a = boundary_distance(q, x), b = boundary_distance(x, q), c = boundary_distance(acc, q, x); EQT(a * a, e, 1e-5); EQT(b * b, e, 1e-5); EQT(c * c, e, 1e-5); CHECKM(a >= 0 && b >= 0 && c >= 0, "distances are not negative");
  std::pair<P, P> r = closest_points_on_boundary(acc, q, x); double d = 0, f = 0; for (std::size_t k = 0; k < q.size(); ++k) { d += (r.first[k] - q[k]) * (r.first[k] - q[k]); f += (r.second[k] - r.first[k]) * (r.second[k] - r.first[k]); } EQT(d, 0, 1e-9); EQT(f, e, 1e-5); EQT(box_sq(r.second, l, (int)q.size()), 0, 1e-9);
}
template <typename M> static void run(M &m, typename result_of::point<M>::type const &q, double const *l)
{
  double e = box_sq(q, l, (int)q.size()); typedef typename result_of::segmentation<M>::type S; S s(m); typename result_of::segment_handle<S>::type h = s.make_segment(); for (std::size_t i = 0; i < cells(m).size(); ++i) add(h, cells(m)[i]);
  switch (vs_pick("object", 3)) { case 0: one(m, default_point_accessor(m), q, e, l); break; case 1: one(h, default_point_accessor(m), q, e, l); break; default: if (cells(m).size() == 1) one(cells(m)[0], default_point_accessor(m), q, e, l); }
}
VS_HARNESS(boundary_rectangle) { typedef quadrilateral_2d_mesh M; typedef result_of::point<M>::type P; M m; VH<M>::V h; double l[2] = {vs_real("l", 0.5, 3), 1}; for (int i = 0; i < 4; ++i) h.push_back(make_vertex(m, P(i & 1 ? l[0] : 0, i & 2 ? l[1] : 0))); IV o = iota_(4); addc(m, h, &o[0], 4); run(m, P(vs_real("x", -2, 5), vs_real("y", -2, 3)), l); }
VS_HARNESS(boundary_two_triangles) { typedef triangular_2d_mesh M; typedef result_of::point<M>::type P; M m; VH<M>::V h; double l[2] = {2, 1}; for (int i = 0; i < 4; ++i) h.push_back(make_vertex(m, P(i & 1 ? l[0] : 0, i & 2 ? l[1] : 0))); int o[2][3] = {{0, 1, 2}, {3, 2, 1}}; for (int i = 0; i < 2; ++i) addc(m, h, o[i], 3); run(m, P(vs_real("x", -2, 5), vs_real("y", -2, 3)), l); }
VS_HARNESS(boundary_box) { typedef hexahedral_3d_mesh M; typedef result_of::point<M>::type P; M m; VH<M>::V h; double l[3] = {2, 1, 1}; for (int i = 0; i < 8; ++i) h.push_back(make_vertex(m, P(i & 1 ? l[0] : 0, i & 2 ? l[1] : 0, i & 4 ? l[2] : 0))); IV o = iota_(8); addc(m, h, &o[0], 8); static const double c[3][2] = {{0.5, 0.25}, {0.25, 2}, {-1, 0.5}}; int k = vs_pick("line", 3); run(m, P(vs_real("x", -2, 5), c[k][0], c[k][1]), l); }
