// Geometric transformations of meshes.
// BOUND: arbitrary vertex positions, factors, centres, matrices and translations in [-10,10]; meshes of 1-2 cells (3-4 vertices)
#include "common.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/geometric_transform.hpp"
#include "viennagrid/algorithm/volume.hpp"
using namespace viennagrid;
template <typename M, typename P> static void build(M &m, P *p, int n, int c) { typename VH<M>::V v; for (int i = 0; i < n; ++i) v.push_back(addv(m, p[i])); int ix[4] = { 0, 1, 2, 3 }, iy[4] = { 1, 2, 3, 3 }; addc(m, v, ix, c); if (n > c) addc(m, v, iy, c); }
template <typename M, typename P> static void same(M &m, const P *e, int n) { CHECK((int)vertices(m).size() == n); for (int i = 0; i < n; ++i) for (int k = 0; k < P::dim; ++k) vs_eq(point(vertices(m)[i])[k], e[i][k], 1e-6, "transformed vertex"); }
VS_HARNESS(scale_2d)
{
  triangular_2d_mesh m; P2 p[4] = { in2("p"), in2("p"), in2("p"), in2("p") }; build(m, p, 4, 3); double f = vs_real("f", -5, 5), vol = volume(cells(m)[0]); int w = vs_pick("center", 2); P2 c = w ? in2("c") : P2(0, 0);
  if (w) scale(m, f, c); else scale(m, f); P2 e[4]; for (int i = 0; i < 4; ++i) e[i] = P2(c[0] + f * (p[i][0] - c[0]), c[1] + f * (p[i][1] - c[1])); same(m, e, 4); EQ(volume(cells(m)[0]), f * f * vol); CHECK(cells(m).size() == 2); CHECK(lines(m).size() == 5);
}
VS_HARNESS(scale_3d)
{
  triangular_3d_mesh m; P3 p[4] = { in3("p"), in3("p"), in3("p"), in3("p") }; build(m, p, 4, 3); double f = vs_real("f", -5, 5); int w = vs_pick("center", 2); P3 c = w ? in3("c") : P3(0, 0, 0);
  if (w) scale(m, f, c); else scale(m, f); P3 e[4]; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) e[i][k] = c[k] + f * (p[i][k] - c[k]); same(m, e, 4);
}
VS_HARNESS(scale_1d) { line_1d_mesh m; P1 p[3] = { in1("p"), in1("p"), in1("p") }; build(m, p, 3, 2); double f = vs_real("f", -5, 5); P1 c = in1("c"); scale(m, f, c); P1 e[3]; for (int i = 0; i < 3; ++i) e[i] = P1(c[0] + f * (p[i][0] - c[0])); same(m, e, 3); }
VS_HARNESS(affine_2d)
{
  triangular_2d_mesh m; P2 p[3] = { in2("p"), in2("p"), in2("p") }; build(m, p, 3, 3); double a[4], vol = area2_(p[0], p[1], p[2]); for (int i = 0; i < 4; ++i) a[i] = vs_real("a", -5, 5); P2 t = in2("t"); affine_transform(m, a, t);
  P2 e[3]; for (int i = 0; i < 3; ++i) e[i] = P2(a[0] * p[i][0] + a[1] * p[i][1] + t[0], a[2] * p[i][0] + a[3] * p[i][1] + t[1]); same(m, e, 3); EQT(area2_(point(vertices(m)[0]), point(vertices(m)[1]), point(vertices(m)[2])), (a[0] * a[3] - a[1] * a[2]) * vol, 1e-5);
}
VS_HARNESS(affine_3d)
{
  tetrahedral_3d_mesh m; P3 p[4] = { in3("p"), in3("p"), in3("p"), in3("p") }; build(m, p, 4, 4); double a[9]; for (int i = 0; i < 9; ++i) a[i] = vs_real("a", -5, 5); P3 t = in3("t"); affine_transform(m, a, t);
  P3 e[4]; for (int i = 0; i < 4; ++i) for (int r = 0; r < 3; ++r) e[i][r] = a[3 * r] * p[i][0] + a[3 * r + 1] * p[i][1] + a[3 * r + 2] * p[i][2] + t[r]; same(m, e, 4);
}
struct shift_x { double d; P2 operator()(P2 q) const { q[0] += d; return q; } };
VS_HARNESS(functor_and_accessor)
{ // generic functor; with a user accessor only the accessor's storage changes
  typedef triangular_2d_mesh M; M m; P2 p[3] = { in2("p"), in2("p"), in2("p") }; build(m, p, 3, 3); shift_x f; f.d = vs_real("d", -5, 5); P2 e[3]; for (int i = 0; i < 3; ++i) e[i] = P2(p[i][0] + f.d, p[i][1]);
  std::vector<P2> st; result_of::accessor<std::vector<P2>, result_of::element<M, vertex_tag>::type>::type acc(st); P2 q[3] = { in2("q"), in2("q"), in2("q") }; for (int i = 0; i < 3; ++i) acc(vertices(m)[i]) = q[i];
  geometric_transform(m, f, acc); same(m, p, 3); for (int i = 0; i < 3; ++i) { EQ(acc(vertices(m)[i])[0], q[i][0] + f.d); EQ(acc(vertices(m)[i])[1], q[i][1]); }
  geometric_transform(m, f); same(m, e, 3);
}
VS_HARNESS(segment_only)
{ // transforming a segment moves its vertices and no others
  typedef triangular_2d_mesh M; M m; VH<M>::V v; P2 p[4]; for (int i = 0; i < 4; ++i) v.push_back(addv(m, p[i] = in2("p"))); result_of::segmentation<M>::type sg(m); typedef result_of::segment_handle<result_of::segmentation<M>::type>::type SH; SH s = sg.make_segment(); int t[3] = { 0, 1, 2 }, u[3] = { 1, 3, 2 };
  viennagrid::add(s, dereference_handle(m, addc(m, v, t, 3))); addc(m, v, u, 3); shift_x f; f.d = vs_real("d", -5, 5); geometric_transform(s, f); for (int i = 0; i < 3; ++i) p[i][0] += f.d; same(m, p, 4);
}
