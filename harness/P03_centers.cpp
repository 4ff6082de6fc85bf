// Centroid and circumcenter.
// BOUND: single elements of every supported type with arbitrary vertex coordinates in [-10,10] (triangles/tetrahedra non-degenerate: |orientation determinant| >= 1/16); meshes of up to 3 cells, two segments with symbolic membership
#include "common.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/circumcenter.hpp"
using namespace viennagrid;
template <typename M, typename P> static typename result_of::cell_handle<M>::type mk(M &m, const P *p, int n)
{ typename VH<M>::V v; std::vector<int> ix; for (int i = 0; i < n; ++i) { v.push_back(addv(m, p[i])); ix.push_back(i); } return addc(m, v, &ix[0], n); }
template <typename P> static void avg(P const &c, const P *p, int n) { for (int d = 0; d < P::dim; ++d) { double s = 0; for (int i = 0; i < n; ++i) s += p[i][d]; EQ(c[d] * n, s); } }
template <typename M, typename P> static void cen(const P *p, const P *q, int n)
{
  M m; typename result_of::cell_handle<M>::type h = mk(m, p, n); typename result_of::cell<M>::type &c = dereference_handle(m, h);
  avg(centroid(c), p, n);
  std::vector<P> store(q, q + n); typename result_of::accessor<std::vector<P>, typename result_of::element<M, vertex_tag>::type>::type acc(store);
  avg(centroid(acc, c), q, n);
  P v0 = centroid(vertices(m)[0]); for (int d = 0; d < P::dim; ++d) EQ(v0[d], p[0][d]);
}
VS_HARNESS(centroid_line1) { P1 p[2], q[2]; for (int i = 0; i < 2; ++i) { p[i] = in1("p"); q[i] = in1("q"); } cen<line_1d_mesh>(p, q, 2); }
VS_HARNESS(centroid_line2) { P2 p[2], q[2]; for (int i = 0; i < 2; ++i) { p[i] = in2("p"); q[i] = in2("q"); } cen<line_2d_mesh>(p, q, 2); }
VS_HARNESS(centroid_line3) { P3 p[2], q[2]; for (int i = 0; i < 2; ++i) { p[i] = in3("p"); q[i] = in3("q"); } cen<line_3d_mesh>(p, q, 2); }
VS_HARNESS(centroid_tri2) { P2 p[3], q[3]; for (int i = 0; i < 3; ++i) { p[i] = in2("p"); q[i] = in2("q"); } cen<triangular_2d_mesh>(p, q, 3); }
VS_HARNESS(centroid_tri3) { P3 p[3], q[3]; for (int i = 0; i < 3; ++i) { p[i] = in3("p"); q[i] = in3("q"); } cen<triangular_3d_mesh>(p, q, 3); }
VS_HARNESS(centroid_quad2) { P2 p[4], q[4]; for (int i = 0; i < 4; ++i) { p[i] = in2("p"); q[i] = in2("q"); } cen<quadrilateral_2d_mesh>(p, q, 4); }
VS_HARNESS(centroid_quad3) { P3 p[4], q[4]; for (int i = 0; i < 4; ++i) { p[i] = in3("p"); q[i] = in3("q"); } cen<quadrilateral_3d_mesh>(p, q, 4); }
VS_HARNESS(centroid_tet) { P3 p[4], q[4]; for (int i = 0; i < 4; ++i) { p[i] = in3("p"); q[i] = in3("q"); } cen<tetrahedral_3d_mesh>(p, q, 4); }
VS_HARNESS(centroid_hex) { P3 p[8], q[8]; for (int i = 0; i < 8; ++i) { p[i] = in3("p"); q[i] = in3("q"); } cen<hexahedral_3d_mesh>(p, q, 8); }

template <typename P> static void equidistant(P const &c, const P *p, int n)
{ P d0 = c - p[0]; for (int i = 1; i < n; ++i) { P d = c - p[i]; EQT(dot_(d, d), dot_(d0, d0), 1e-3); } }
VS_HARNESS(circum_line)
{
  { line_1d_mesh m; P1 p[2] = { in1("a"), in1("b") }; P1 c = circumcenter(dereference_handle(m, mk(m, p, 2))); EQ(2 * c[0], p[0][0] + p[1][0]); }
  { line_2d_mesh m; P2 p[2] = { in2("a"), in2("b") }; P2 c = circumcenter(dereference_handle(m, mk(m, p, 2))); EQ(2 * c[0], p[0][0] + p[1][0]); EQ(2 * c[1], p[0][1] + p[1][1]); }
  { line_3d_mesh m; P3 p[2] = { in3("a"), in3("b") }; P3 c = circumcenter(dereference_handle(m, mk(m, p, 2))); for (int d = 0; d < 3; ++d) EQ(2 * c[d], p[0][d] + p[1][d]); }
}
VS_HARNESS(circum_tri2)
{
  triangular_2d_mesh m; P2 p[3] = { in2("a"), in2("b"), in2("c") }; double s = area2_(p[0], p[1], p[2]); vs_assume(s > 0.0625 || s < -0.0625);
  P2 c = circumcenter(dereference_handle(m, mk(m, p, 3))); equidistant(c, p, 3);
}
VS_HARNESS(circum_tri3)
{
  triangular_3d_mesh m; P3 p[3] = { in3("a"), in3("b"), in3("c") }; P3 n = crs_(P3(p[1] - p[0]), P3(p[2] - p[0])); vs_assume(dot_(n, n) > 0.0625);
  P3 c = circumcenter(dereference_handle(m, mk(m, p, 3))); equidistant(c, p, 3); EQT(dot_(P3(c - p[0]), n), 0.0, 1e-3);   // and in the triangle's plane
}
VS_HARNESS(circum_tet)
{
  tetrahedral_3d_mesh m; P3 p[4] = { in3("a"), in3("b"), in3("c"), in3("d") }; P3 bc = crs_(P3(p[2] - p[0]), P3(p[3] - p[0])); double s = dot_(P3(p[1] - p[0]), bc);
  vs_assume(s > 0.0625 || s < -0.0625); vs_assume(dot_(bc, bc) > 0.0625);
  try { P3 c = circumcenter(dereference_handle(m, mk(m, p, 4))); equidistant(c, p, 4); } catch (std::exception const &) { vs_assume(false); }
}
VS_HARNESS(circum_tet_accepts)
{ // non-degenerate tetrahedra are never refused
  tetrahedral_3d_mesh m; double x = vs_real("x", 0.25, 4), y = vs_real("y", 0.25, 4), z = vs_real("z", 0.25, 4), u = vs_real("u", -4, 4), v = vs_real("v", -4, 4), w = vs_real("w", -4, 4); P3 o = in3("o", 4);
  P3 p[4] = { o, P3(o + P3(x, 0, 0)), P3(o + P3(u, y, 0)), P3(o + P3(v, w, z)) }; if (vs_pick("rot", 2)) std::swap(p[1], p[3]); bool ok = true; P3 c;
  try { c = circumcenter(dereference_handle(m, mk(m, p, 4))); } catch (std::exception const &) { ok = false; }
  CHECKM(ok, "non-degenerate tetrahedron has a circumcenter"); if (ok) equidistant(c, p, 4);
}
VS_HARNESS(circum_box)
{ // rectangles and boxes, placed anywhere: their centre
  double a = vs_real("a", 0.25, 4), b = vs_real("b", 0.25, 4), c = vs_real("c", 0.25, 4);
  { quadrilateral_2d_mesh m; P2 o = in2("o"); P2 p[4]; for (int i = 0; i < 4; ++i) p[i] = o + P2(i & 1 ? a : 0, i & 2 ? b : 0); equidistant(circumcenter(dereference_handle(m, mk(m, p, 4))), p, 4); }
  { quadrilateral_3d_mesh m; P3 o = in3("o"); P3 p[4]; for (int i = 0; i < 4; ++i) p[i] = o + P3(i & 1 ? a : 0, i & 2 ? b : 0, 0); P3 q = circumcenter(dereference_handle(m, mk(m, p, 4))); equidistant(q, p, 4); EQ(q[2], o[2]); }
  { hexahedral_3d_mesh m; P3 o = in3("o"); P3 p[8]; for (int i = 0; i < 8; ++i) p[i] = o + P3(i & 1 ? a : 0, i & 2 ? b : 0, i & 4 ? c : 0); equidistant(circumcenter(dereference_handle(m, mk(m, p, 8))), p, 8); }
}
VS_HARNESS(circum_accessor)
{
  triangular_2d_mesh m; P2 p[3] = { P2(0, 0), P2(1, 0), P2(0, 1) }; P2 q[3] = { in2("a"), in2("b"), in2("c") }; double s = area2_(q[0], q[1], q[2]); vs_assume(s > 0.0625 || s < -0.0625);
  std::vector<P2> store(q, q + 3); result_of::accessor<std::vector<P2>, result_of::element<triangular_2d_mesh, vertex_tag>::type>::type acc(store);
  P2 c = circumcenter(acc, dereference_handle(m, mk(m, p, 3))); equidistant(c, q, 3);
}
// centroid of a mesh/segment: the volume-weighted mean of its cells' centroids
template <typename M, typename P, int NV, int NC, int K> static void mesh_centroid(const P *p, const int (*t)[K], double (*vol)(const P *, const int *))
{
  typedef typename result_of::segmentation<M>::type S; typedef typename result_of::segment_handle<S>::type SH;
  M m; S seg(m); SH s0 = seg.make_segment(); typename VH<M>::V v; for (int i = 0; i < NV; ++i) v.push_back(addv(m, p[i]));
  double w = 0, w0 = 0, c[3] = { 0, 0, 0 }, c0[3] = { 0, 0, 0 }; bool any = false;
  for (int k = 0; k < NC; ++k) {
    typename result_of::cell_handle<M>::type h = addc(m, v, t[k], K); double a = vol(p, t[k]); bool in = vs_pick("in", 2); if (in) { viennagrid::add(s0, dereference_handle(m, h)); any = true; }
    w += a; if (in) w0 += a;
    for (int d = 0; d < P::dim; ++d) { double x = 0; for (int j = 0; j < K; ++j) x += p[t[k][j]][d]; c[d] += a * x / K; if (in) c0[d] += a * x / K; }
  }
  P g = centroid(m); for (int d = 0; d < P::dim; ++d) EQT(g[d] * w, c[d], 1e-4);
  if (any) { P g0 = centroid(s0); for (int d = 0; d < P::dim; ++d) EQT(g0[d] * w0, c0[d], 1e-4); }
}
static double vtri(const P2 *p, const int *t) { return spanned_volume(p[t[0]], p[t[1]], p[t[2]]); }
static double vline(const P1 *p, const int *t) { return std::fabs(p[t[0]][0] - p[t[1]][0]); }
static double vtet(const P3 *p, const int *t) { return spanned_volume(p[t[0]], p[t[1]], p[t[2]], p[t[3]]); }
static const int T_TRI[3][3] = { { 0, 1, 2 }, { 1, 2, 3 }, { 2, 3, 4 } };
static const int T_LINE[3][2] = { { 0, 1 }, { 1, 2 }, { 2, 3 } };
static const int T_TET[2][4] = { { 0, 1, 2, 3 }, { 1, 2, 3, 4 } };
VS_HARNESS(mesh_lines) { P1 p[4]; double x = vs_real("x0", -5, 5); for (int i = 0; i < 4; ++i) { p[i] = P1(x); x += vs_real("h", 0.125, 4); } mesh_centroid<line_1d_mesh, P1, 4, 3, 2>(p, T_LINE, vline); }
VS_HARNESS(mesh_tris)
{ P2 p[5]; for (int i = 0; i < 5; ++i) p[i] = in2("p", 4); vs_assume(area2_(p[0], p[1], p[2]) > 0.0625); vs_assume(area2_(p[1], p[3], p[2]) > 0.0625); vs_assume(area2_(p[2], p[3], p[4]) > 0.0625); mesh_centroid<triangular_2d_mesh, P2, 5, 3, 3>(p, T_TRI, vtri); }
VS_HARNESS(mesh_tets)
{ P3 p[5] = { P3(0, 0, 0), P3(1, 0, 0), P3(0, 1, 0), in3("c", 4), in3("d", 4) }; vs_assume(p[3][2] > 0.25); vs_assume(det_(P3(p[2] - p[1]), P3(p[3] - p[1]), P3(p[4] - p[1])) > 0.0625); mesh_centroid<tetrahedral_3d_mesh, P3, 5, 2, 4>(p, T_TET, vtet); }
