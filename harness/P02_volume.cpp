// Volume and surface.
// BOUND: single elements of every type with all vertex coordinates arbitrary reals in [-10,10] (quadrilaterals strictly convex, hexahedra: parallelepipeds and right prisms over strictly convex quadrilaterals, polygons with 3..5 vertices); meshes of up to 4 cells with arbitrary vertex coordinates; two segments with symbolic cell membership
#include "common.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/spanned_volume.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/surface.hpp"
using namespace viennagrid;

VS_HARNESS(spanned_low)
{
  P1 a = in1("a"), b = in1("b"); EQ(spanned_volume(a, b), std::fabs(a[0] - b[0])); EQ(signed_spanned_volume(a, b), b[0] - a[0]);
  P2 c = in2("c"), d = in2("d"); double l = spanned_volume(c, d); CHECK(l >= 0); EQ(l * l, dot_(P2(c - d), P2(c - d)));
}
VS_HARNESS(spanned_tri2)
{
  P2 a = in2("a"), b = in2("b"), c = in2("c"); double s = area2_(a, b, c) / 2;
  EQ(signed_spanned_volume(a, b, c), s); EQ(signed_spanned_volume(b, c, a), s); EQ(signed_spanned_volume(b, a, c), -s);
  double v = spanned_volume(a, b, c); CHECK(v >= 0); EQ(v * v, s * s);
}
VS_HARNESS(spanned_3d)
{
  P3 a = in3("a"), b = in3("b"); double l = spanned_volume(a, b); CHECK(l >= 0); EQ(l * l, dot_(P3(a - b), P3(a - b)));
  P3 c = in3("c"); P3 x = crs_(P3(b - a), P3(c - a)); double t = spanned_volume(a, b, c);
  CHECK(t >= 0); EQ(4 * t * t, dot_(x, x));
}
VS_HARNESS(spanned_tet)
{
  P3 a = in3("a"), b = in3("b"), c = in3("c"), d = in3("d"); double s = det_(P3(b - a), P3(c - a), P3(d - a)) / 6;
  EQ(signed_spanned_volume(a, b, c, d), s); EQ(signed_spanned_volume(b, a, c, d), -s); EQ(signed_spanned_volume(d, a, b, c), -s);
  double v = spanned_volume(a, b, c, d); CHECK(v >= 0); EQ(v * v, s * s);
}
VS_HARNESS(spanned_mixed_cs)
{ // non-cartesian arguments are converted first
  typedef spatial_point<double, polar_cs> PP;
  double r = vs_real("r", 0.5, 5), f = vs_real("f", -3, 3), q = vs_real("q", 0.5, 5), g = vs_real("g", -3, 3);
  PP a(r, f), b(q, g); P2 ca = to_cartesian(a), cb = to_cartesian(b), z(0, 0);
  EQ(signed_spanned_volume(a, b, PP(0, 0)), signed_spanned_volume(ca, cb, z));
  EQ(spanned_volume(a, b), spanned_volume(ca, cb));
}
template <typename M, typename P> static typename result_of::cell_handle<M>::type mk(M &m, const P *p, int n)
{ typename VH<M>::V v; std::vector<int> ix; for (int i = 0; i < n; ++i) { v.push_back(addv(m, p[i])); ix.push_back(i); } return addc(m, v, &ix[0], n); }
template <typename M> static typename result_of::cell<M>::type &deref(M &m, typename result_of::cell_handle<M>::type h) { return dereference_handle(m, h); }

VS_HARNESS(line_cells)
{
  { line_1d_mesh m; P1 p[2] = { in1("a"), in1("b") }; EQ(volume(deref(m, mk(m, p, 2))), std::fabs(p[0][0] - p[1][0])); EQ(volume(m), std::fabs(p[0][0] - p[1][0])); }
}
VS_HARNESS(line_cells_23)
{
  { line_2d_mesh m; P2 p[2] = { in2("c"), in2("d") }; double v = volume(deref(m, mk(m, p, 2))); CHECK(v >= 0); EQ(v * v, dot_(P2(p[0] - p[1]), P2(p[0] - p[1]))); EQ(surface(cells(m)[0]), 2.0); }
  { line_3d_mesh m; P3 p[2] = { in3("e"), in3("f") }; double v = volume(deref(m, mk(m, p, 2))); CHECK(v >= 0); EQ(v * v, dot_(P3(p[0] - p[1]), P3(p[0] - p[1]))); EQ(volume(vertices(m)[0]), 1.0); }
}
VS_HARNESS(triangle_cells)
{
  triangular_2d_mesh m; P2 p[3] = { in2("a"), in2("b"), in2("c") }; double v = volume(deref(m, mk(m, p, 3))), s = area2_(p[0], p[1], p[2]) / 2;
  CHECK(v >= 0); EQ(v * v, s * s);
  EQ(surface(cells(m)[0]), spanned_volume(p[0], p[1]) + spanned_volume(p[1], p[2]) + spanned_volume(p[2], p[0])); EQ(surface(m), surface(cells(m)[0]));
}
VS_HARNESS(triangle_cells_3d)
{
  triangular_3d_mesh m; P3 p[3] = { in3("a"), in3("b"), in3("c") }; double v = volume(deref(m, mk(m, p, 3))); P3 x = crs_(P3(p[1] - p[0]), P3(p[2] - p[0]));
  CHECK(v >= 0); EQ(4 * v * v, dot_(x, x));
  EQ(surface(cells(m)[0]), spanned_volume(p[0], p[1]) + spanned_volume(p[1], p[2]) + spanned_volume(p[2], p[0])); EQ(volume(m), v);
}
VS_HARNESS(tet_cells)
{
  tetrahedral_3d_mesh m; P3 p[4] = { in3("a"), in3("b"), in3("c"), in3("d") }; double v = volume(deref(m, mk(m, p, 4))), s = det_(P3(p[1] - p[0]), P3(p[2] - p[0]), P3(p[3] - p[0]));
  CHECK(v >= 0); EQ(36 * v * v, s * s);
  EQ(surface(cells(m)[0]), spanned_volume(p[0], p[1], p[2]) + spanned_volume(p[0], p[1], p[3]) + spanned_volume(p[0], p[2], p[3]) + spanned_volume(p[1], p[2], p[3]));
}
static void convex4(P2 *p) // strictly convex, counter-clockwise
{
  vs_assume(area2_(p[0], p[1], p[3]) > 0.0625); vs_assume(area2_(p[1], p[2], p[3]) > 0.0625);
  vs_assume(area2_(p[0], p[1], p[2]) > 0.0625); vs_assume(area2_(p[0], p[2], p[3]) > 0.0625);
}
// Reference vertex order (topology/quadrilateral.hpp, hexahedron.hpp): lexicographic, i.e. v2 is opposite to v1 and v3 opposite to v0.
static const int CYC[8] = { 0, 1, 3, 2, 4, 5, 7, 6 };
template <typename P> static void cyc2lex(P *p, int n) { for (int i = 0; i < n; i += 4) std::swap(p[i + 2], p[i + 3]); }
VS_HARNESS(quad_cells)
{
  quadrilateral_2d_mesh m; P2 p[4] = { in2("a"), in2("b"), in2("c"), in2("d") }; convex4(p); bool flip = vs_pick("flip", 2);
  if (flip) std::swap(p[1], p[3]);
  double s = 0; for (int i = 0; i < 4; ++i) s += crs_(p[i], p[(i + 1) % 4]) / 2;
  P2 c[4] = { p[0], p[1], p[2], p[3] }; cyc2lex(c, 4); double v = volume(deref(m, mk(m, c, 4)));
  EQ(v, flip ? -s : s);
  EQ(surface(cells(m)[0]), spanned_volume(p[0], p[1]) + spanned_volume(p[1], p[2]) + spanned_volume(p[2], p[3]) + spanned_volume(p[3], p[0]));
  EQ(surface(m), surface(cells(m)[0]));
}
VS_HARNESS(quad_cells_3d)
{ // parallelogram in space
  quadrilateral_3d_mesh m; P3 o = in3("o"), a = in3("a"), b = in3("b"); P3 p[4] = { o, o + a, o + b, o + a + b };
  double v = volume(deref(m, mk(m, p, 4))); P3 x = crs_(a, b); CHECK(v >= 0); EQ(v * v, dot_(x, x));
}
template <int N> static void poly()
{
  polygonal_2d_mesh m; P2 p[N]; for (int i = 0; i < N; ++i) p[i] = in2("p");
  double v = volume(deref(m, mk(m, p, N))), s = 0; for (int i = 0; i < N; ++i) s += crs_(p[i], p[(i + 1) % N]) / 2;
  CHECK(v >= 0); EQ(v * v, s * s);
}
VS_HARNESS(polygon3) { poly<3>(); }
VS_HARNESS(polygon4) { poly<4>(); }
VS_HARNESS(polygon5) { poly<5>(); }
VS_HARNESS(polygon_3d)
{ // parallelogram as a polygon in space
  polygonal_3d_mesh m; P3 o = in3("o"), a = in3("a"), b = in3("b"); P3 p[4] = { o, o + a, o + a + b, o + b };
  double v = volume(deref(m, mk(m, p, 4))); P3 x = crs_(a, b); CHECK(v >= 0); EQ(v * v, dot_(x, x));
}
VS_HARNESS(hex_parallelepiped)
{
  hexahedral_3d_mesh m; P3 o = in3("o", 4), a = in3("a", 4), b = in3("b", 4), c = in3("c", 4);
  P3 p[8] = { o, o + a, o + a + b, o + b, o + c, o + a + c, o + a + b + c, o + b + c }; cyc2lex(p, 8);
  double v = volume(deref(m, mk(m, p, 8))), d = det_(a, b, c); CHECK(v >= 0); EQ(v * v, d * d); EQ(volume(m), v);
}
VS_HARNESS(hex_prism)
{ // right prism over an arbitrary strictly convex quadrilateral
  hexahedral_3d_mesh m; P2 q[4] = { in2("a", 4), in2("b", 4), in2("c", 4), in2("d", 4) }; convex4(q); double z = vs_real("z", -4, 4), h = vs_real("h", 0.25, 4);
  int axis = vs_pick("axis", 3); P3 p[8];
  for (int i = 0; i < 8; ++i) { double u = q[i % 4][0], v = q[i % 4][1], w = i < 4 ? z : z + h; p[i] = axis == 0 ? P3(u, v, w) : axis == 1 ? P3(w, u, v) : P3(v, w, u); }
  cyc2lex(p, 8); double v = volume(deref(m, mk(m, p, 8))), s = 0; for (int i = 0; i < 4; ++i) s += crs_(q[i], q[(i + 1) % 4]) / 2;
  EQ(v, s * h);
}
VS_HARNESS(hex_surface)
{
  hexahedral_3d_mesh m; double a = vs_real("a", 0.25, 4), b = vs_real("b", 0.25, 4), c = vs_real("c", 0.25, 4); P3 o = in3("o");
  P3 p[8]; for (int i = 0; i < 8; ++i) { int k = i % 4; p[i] = o + P3((k == 1 || k == 2) ? a : 0, (k == 2 || k == 3) ? b : 0, i < 4 ? 0 : c); }
  cyc2lex(p, 8); mk(m, p, 8); EQ(surface(cells(m)[0]), 2 * (a * b + b * c + a * c)); EQ(surface(m), 2 * (a * b + b * c + a * c)); EQ(volume(m), a * b * c);
  double e = 0; for (std::size_t i = 0; i < lines(m).size(); ++i) e += volume(lines(m)[i]); EQ(e, 4 * (a + b + c));
}
// mesh/segment totals: strip of triangles, symbolic membership
VS_HARNESS(mesh_sums)
{
  typedef triangular_2d_mesh M; typedef result_of::segmentation<M>::type S; typedef result_of::segment_handle<S>::type SH;
  M m; S seg(m); SH s0 = seg.make_segment(), s1 = seg.make_segment();
  VH<M>::V v; P2 p[5]; 
  for (int i = 0; i < 5; ++i) { p[i] = in2("p"); v.push_back(addv(m, p[i])); }
  int t[3][3] = { { 0, 1, 2 }, { 1, 2, 3 }, { 2, 3, 4 } }; double w[3], tot = 0, a0 = 0, a1 = 0; bool in0[3], in1[3];
  for (int k = 0; k < 3; ++k) {
    result_of::cell_handle<M>::type h = addc(m, v, t[k], 3); w[k] = spanned_volume(p[t[k][0]], p[t[k][1]], p[t[k][2]]); tot += w[k];
    int mem = vs_pick("membership", 4); in0[k] = mem & 1; in1[k] = (mem >> 1) & 1;
    if (in0[k]) { viennagrid::add(s0, dereference_handle(m, h)); a0 += w[k]; } if (in1[k]) { viennagrid::add(s1, dereference_handle(m, h)); a1 += w[k]; }
  }
  EQ(volume(m), tot); EQ(volume(s0), a0); EQ(volume(s1), a1);
  // surface: total length of the edges with exactly one adjacent cell
  double per = 0, ps = 0; int E[7][2] = { { 0, 1 }, { 0, 2 }, { 1, 2 }, { 1, 3 }, { 2, 3 }, { 2, 4 }, { 3, 4 } };
  for (int e = 0; e < 7; ++e) {
    int n = 0, n0 = 0; for (int k = 0; k < 3; ++k) { int hit = 0; for (int j = 0; j < 3; ++j) hit += t[k][j] == E[e][0] || t[k][j] == E[e][1]; if (hit == 2) { ++n; if (in0[k]) ++n0; } }
    double l = spanned_volume(p[E[e][0]], p[E[e][1]]); if (n == 1) per += l; if (n0 == 1) ps += l;
  }
  EQ(surface(m), per); EQ(surface(s0), ps);
}
// volume through a user-supplied point accessor must use the accessor's points, not the mesh's
template <typename M, typename P> static void through_accessor(P *p, P *q, int n)
{
  M m; typename result_of::cell_handle<M>::type h = mk(m, p, n);
  std::vector<P> store(q, q + n); typename result_of::accessor<std::vector<P>, typename result_of::element<M, vertex_tag>::type>::type acc(store);
  M m2; typename result_of::cell_handle<M>::type h2 = mk(m2, q, n);
  EQ(volume(acc, dereference_handle(m, h)), volume(dereference_handle(m2, h2)));
}
VS_HARNESS(accessor_line) { P2 p[2] = { in2("p"), in2("p") }, q[2] = { in2("q"), in2("q") }; through_accessor<line_2d_mesh>(p, q, 2); }
VS_HARNESS(accessor_tri) { P2 p[3] = { in2("p"), in2("p"), in2("p") }, q[3] = { in2("q"), in2("q"), in2("q") }; through_accessor<triangular_2d_mesh>(p, q, 3); }
VS_HARNESS(accessor_polygon) { P2 p[4], q[4]; for (int i = 0; i < 4; ++i) { p[i] = in2("p"); q[i] = in2("q"); } through_accessor<polygonal_2d_mesh>(p, q, 4); }
