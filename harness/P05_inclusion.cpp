// Point-in-element test.
// BOUND: triangles in 2D and 3D and tetrahedra with arbitrary non-degenerate shape; the query point is given by arbitrary barycentric coordinates in [-3,3] with a margin of 1/64 around the decision boundary (points closer to the boundary are outside the claim); tolerances 1e-9..1e-3 and the default
#include "common.hpp"
#include "viennagrid/algorithm/inclusion.hpp"
using namespace viennagrid;
template <typename M, typename P> static typename result_of::cell_handle<M>::type mk(M &m, const P *p, int n)
{ typename VH<M>::V v; std::vector<int> ix; for (int i = 0; i < n; ++i) { v.push_back(addv(m, p[i])); ix.push_back(i); } return addc(m, v, &ix[0], n); }
// path-splits on the sign pattern of the barycentric coordinates; every coordinate keeps a margin from 0
static bool bary(double *l, int n)
{
  bool in = true; double s = 0; for (int i = 0; i < n - 1; ++i) { l[i] = vs_real("lambda", -3, 3); s += l[i]; } l[n - 1] = 1 - s;
  for (int i = 0; i < n; ++i) if (vs_pick("negative", 2)) { vs_assume(l[i] < -0.015625); in = false; } else vs_assume(l[i] > 0.015625);
  return in;
}
template <typename M, typename P> static void ask(const P *p, int n)
{
  double l[4]; bool in = bary(l, n); P q = p[0] * l[0]; for (int i = 1; i < n; ++i) q += p[i] * l[i];
  M m; typename result_of::cell<M>::type &c = dereference_handle(m, mk(m, p, n));
  if (in) { CHECKM(is_inside(c, q), "interior point is inside"); CHECKM(is_inside(c, q, 1e-9), "interior point is inside (1e-9)"); CHECKM(is_inside(c, q, 1e-3), "interior point is inside (1e-3)"); }
  else { CHECKM(!is_inside(c, q), "exterior point is not inside"); CHECKM(!is_inside(c, q, 1e-9), "exterior point is not inside (1e-9)"); CHECKM(!is_inside(c, q, 1e-3), "exterior point is not inside (1e-3)"); }
}
VS_HARNESS(triangle_2d) { P2 p[3] = { in2("a", 4), in2("b", 4), in2("c", 4) }; double s = area2_(p[0], p[1], p[2]); if (vs_pick("cw", 2)) vs_assume(s < -0.0625); else vs_assume(s > 0.0625); ask<triangular_2d_mesh>(p, 3); }
VS_HARNESS(triangle_3d) { P3 p[3] = { in3("a", 4), in3("b", 4), in3("c", 4) }; P3 n = crs_(P3(p[1] - p[0]), P3(p[2] - p[0])); vs_assume(dot_(n, n) > 0.0625); ask<triangular_3d_mesh>(p, 3); }
// tetrahedra up to rotation, at any place; vertex numbering and axes permuted
static void tet(P3 *p)
{
  double x = vs_real("x", 0.25, 4), y = vs_real("y", 0.25, 4), z = vs_real("z", 0.25, 4), u = vs_real("u", -4, 4), v = vs_real("v", -4, 4), w = vs_real("w", -4, 4); P3 o = in3("o", 4);
  P3 e[4] = { P3(0, 0, 0), P3(x, 0, 0), P3(u, y, 0), P3(v, w, z) }; int ax = vs_pick("axis", 3), rot = vs_pick("rot", 4), sw = vs_pick("mirror", 2);
  for (int i = 0; i < 4; ++i) { P3 f = e[(i + rot) % 4]; p[i] = o + P3(f[ax], f[(ax + 1) % 3], f[(ax + 2) % 3]); } if (sw) std::swap(p[0], p[1]);
}
VS_HARNESS(tetrahedron) { P3 p[4]; tet(p); ask<tetrahedral_3d_mesh>(p, 4); }
VS_HARNESS(vertices_and_edges)
{ // vertices, edge points and the centroid belong to the closed element (tolerance 1e-6)
  P2 p[3] = { in2("a", 4), in2("b", 4), in2("c", 4) }; vs_assume(area2_(p[0], p[1], p[2]) > 0.0625); triangular_2d_mesh m; result_of::cell<triangular_2d_mesh>::type &c = dereference_handle(m, mk(m, p, 3));
  double t = vs_real("t", 0, 1); for (int i = 0; i < 3; ++i) { CHECKM(is_inside(c, p[i], 1e-6), "vertex is inside"); P2 e = p[i] * (1 - t) + p[(i + 1) % 3] * t; CHECKM(is_inside(c, e, 1e-6), "edge point is inside"); }
}
VS_HARNESS(vertices_and_faces_tet)
{
  P3 p[4]; tet(p); tetrahedral_3d_mesh m; result_of::cell<tetrahedral_3d_mesh>::type &c = dereference_handle(m, mk(m, p, 4));
  double t = vs_real("t", 0, 1); for (int i = 0; i < 4; ++i) { CHECKM(is_inside(c, p[i], 1e-6), "vertex is inside"); P3 e = p[i] * (1 - t) + p[(i + 1) % 4] * t; CHECKM(is_inside(c, e, 1e-6), "edge point is inside"); }
}
VS_HARNESS(through_accessor)
{
  triangular_2d_mesh m; P2 r[3] = { P2(100, 100), P2(101, 100), P2(100, 101) }; result_of::cell<triangular_2d_mesh>::type &c = dereference_handle(m, mk(m, r, 3));
  P2 q[3] = { in2("a", 4), in2("b", 4), in2("c", 4) }; vs_assume(area2_(q[0], q[1], q[2]) > 0.0625);
  std::vector<P2> store(q, q + 3); result_of::accessor<std::vector<P2>, result_of::element<triangular_2d_mesh, vertex_tag>::type>::type acc(store);
  double l[4]; bool in = bary(l, 3); P2 x = q[0] * l[0] + q[1] * l[1] + q[2] * l[2]; CHECKM(is_inside(acc, c, x, 1e-9) == in, "inside with respect to the accessor's points");
}
